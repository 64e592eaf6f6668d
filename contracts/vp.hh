#pragma once
// Contract language.  A contract is an executable C++ function:
//
//   VP_CONTRACT(ring_put) {                    // one named obligation group
//     auto x = any<uint32_t>("x");             // for all x
//     VP_REQUIRES(x < 10);                     // precondition
//     auto r = real_function(x);               // the code in /repo, not a copy
//     VP_ENSURES("result is ...", r == ...);   // postcondition
//   }
//
// tools/irdump + vp/engine.py turn it into verification conditions for all values; the same text compiled natively
// (-DVP_NATIVE) replays a counterexample on the real code.
#include <array>
#include <bit>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <span>
#include <string_view>
#include <type_traits>

extern "C" {
uint64_t vp_any_bits(unsigned nbits, const char *name);
uint64_t vp_any_range(uint64_t lo, uint64_t hi, int is_signed, const char *name);
void *vp_buffer(uint64_t n, const char *name);
void vp_assume(bool c);
void vp_check(bool c, const char *label);
void vp_cover(const char *label);
void vp_define(bool c);
uint64_t vp_uf(unsigned id, uint64_t a, uint64_t b, uint64_t c);
uint64_t vp_iter(); // iterations completed by the loop that was summed up last (specifications only)
void vp_let_native(unsigned id, uint64_t a, uint64_t v);
void vp_spec(int kind, const void *fn, unsigned n);
void *vp_ram(uint64_t n, const char *name); // like vp_buffer; accesses can be hooked on a native run, too
void vp_watch(void *p);
void vp_hook(const void *pre, const void *post);
bool vp_same_object(const void *a, const void *b);
uint64_t vp_objsize(const void *a);
uint64_t vp_offset(const void *a);
bool vp_alive(const void *a);
uint8_t vp_byte(const void *base, uint64_t off); // total: 0 outside of the object (specifications only)
uint64_t vp_live_heap();
}

namespace vp
{
template<typename T>
T any(const char *name = "any") {
	if constexpr (std::is_same_v<T, bool>)
		return vp_any_bits(1, name) & 1;
	else if constexpr (std::is_same_v<T, float>)
		return std::bit_cast<float>(uint32_t(vp_any_bits(32, name)));
	else if constexpr (std::is_same_v<T, double>)
		return std::bit_cast<double>(uint64_t(vp_any_bits(64, name)));
	else
		return static_cast<T>(vp_any_bits(sizeof(T) * 8, name));
}

// any value in [lo, hi]
template<typename T>
T any_in(T lo, std::type_identity_t<T> hi, const char *name = "any") {
	if constexpr (std::is_signed_v<T>)
		return static_cast<T>(int64_t(vp_any_range(uint64_t(int64_t(lo)), uint64_t(int64_t(hi)), 1, name)));
	else
		return static_cast<T>(vp_any_range(uint64_t(lo), uint64_t(hi), 0, name));
}

// any float with magnitude at most lim (hence neither NaN nor infinite)
template<typename F>
F any_within(F lim, const char *name = "anyf") {
	F x = any<F>(name);
	vp_assume(x >= -lim && x <= lim);
	return x;
}
template<typename F>
F any_between(F lo, std::type_identity_t<F> hi, const char *name = "anyf") {
	F x = any<F>(name);
	vp_assume(x >= lo && x <= hi);
	return x;
}

inline bool imp(bool a, bool b) {
	return !a | b;
}

// loop vocabulary: candidate invariants over the iteration counter, in force until no_loop()
using Inv = bool (*)(uint64_t i, uint64_t k);
using Term = uint64_t (*)(uint64_t i, uint64_t k);
using PtrTerm = const void *(*)(uint64_t i, uint64_t k);
inline void loop_inv(Inv f, unsigned n) {
	vp_spec(0, reinterpret_cast<const void *>(f), n);
}
inline void loop_terms(Term f, unsigned n) {
	vp_spec(1, reinterpret_cast<const void *>(f), n);
}
// terms that only variables of up to eight bits are compared with
inline void loop_flags(Term f, unsigned n) {
	vp_spec(3, reinterpret_cast<const void *>(f), n);
}
inline void loop_ptrs(PtrTerm f, unsigned n) {
	vp_spec(2, reinterpret_cast<const void *>(f), n);
}
inline void no_loop() {
	vp_spec(0, nullptr, 0);
}

// defines a specification function at one argument; on a native run the definitions are evaluated, on demand
inline void vp_let(unsigned id, uint64_t a, uint64_t v) {
#ifdef VP_NATIVE
	vp_let_native(id, a, v);
#else
	vp_define(vp_uf(id, a, 0, 0) == v);
#endif
}
// how to define function id at (upwards: from) an argument on a native run
void vp_lazy(unsigned id, void (*unfold)(uint64_t), bool upwards);
#ifndef VP_NATIVE
inline void vp_lazy(unsigned, void (*)(uint64_t), bool) {
}
#endif

// a small aggregate element type, to check that nothing depends on the element being a byte or a word
struct Pair {
	uint8_t a;
	uint32_t b;
	bool operator==(Pair const &) const = default;
};
template<>
inline Pair any<Pair>(const char *name) {
	Pair p{};
	p.a = any<uint8_t>(name);
	p.b = any<uint32_t>(name);
	return p;
}

} // namespace vp

using vp::any;
using vp::any_between;
using vp::any_in;
using vp::any_within;
using vp::imp;

#ifdef VP_NATIVE
namespace vp
{
struct Registry {
	Registry(const char *name, void (*fn)());
};
} // namespace vp
#define VP_CONTRACT(name)                                                                                              \
	extern "C" void vp_h_##name();                                                                                     \
	static vp::Registry vp_reg_##name{#name, vp_h_##name};                                                             \
	extern "C" void vp_h_##name()
#else
#define VP_CONTRACT(name)                                                                                              \
	extern "C" void vp_h_##name();                                                                                     \
	extern "C" void vp_h_##name()
#endif

#define VP_REQUIRES(c) vp_assume(bool(c))
#define VP_ENSURES(label, ...) vp_check(bool(__VA_ARGS__), label)
#define VP_COVER(label) vp_cover(label)

// Calls of FN in code under proof are replaced by CONTRACT, whose body states FN's contract; FN itself is proved against
// the same contract elsewhere.
#define VP_BIND(tag, fn, contract)                                                                                     \
	extern "C" const void *const vp_bind_##tag[2];                                                                     \
	extern "C" __attribute__((used)) const void *const vp_bind_##tag[2] = {(const void *)(fn), (const void *)(contract)};
// only in the thorough tier
#define VP_CONTRACT_T(name) VP_CONTRACT(T_##name)
// a clause about the internal representation: it carries the induction over histories and is not by itself observable
#define VP_REP(label, ...) vp_check(bool(__VA_ARGS__), "rep: " label)
