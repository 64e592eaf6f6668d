// C32: iterating several containers at once.
#include "vp.hh"
#include "util/zip.hh"
#include "util/countzip.hh"
#include <array>

using namespace vp;

// a container of any length
template<typename T>
struct Seq {
	using value_type = T;
	using iterator = T *;
	using const_iterator = const T *;
	using reference = T &;
	using const_reference = const T &;
	T *p;
	uint64_t n;
	T *begin() {
		return p;
	}
	T *end() {
		return p + n;
	}
	const T *begin() const {
		return p;
	}
	const T *end() const {
		return p + n;
	}
};
static uint64_t M; // the shortest length
static const uint8_t *A;
static const uint32_t *B;
static const Pair *C;
static bool inv(uint64_t i, uint64_t k) {
	return i <= M;
}
static uint64_t terms(uint64_t i, uint64_t) {
	return i;
}
static const void *ptrs(uint64_t i, uint64_t k) {
	return k == 0 ? (const void *)(A + i) : k == 1 ? (const void *)(B + i) : (const void *)(C + i);
}
template<typename T>
static Seq<T> any_seq(const char *name) {
	uint64_t n = any_in<uint64_t>(0, uint64_t(1) << 36, name);
	return {static_cast<T *>(vp_buffer(n * sizeof(T), name)), n};
}
static uint64_t least(uint64_t a, uint64_t b) {
	return a < b ? a : b;
}
static void loop() {
	loop_inv(inv, 1);
	loop_terms(terms, 1);
	loop_ptrs(ptrs, 3);
}
VP_CONTRACT(zip_two) {
	auto a = any_seq<uint8_t>("a");
	auto b = any_seq<uint32_t>("b");
	A = a.p, B = b.p, C = nullptr, M = least(a.n, b.n);
	uint64_t count = 0;
	loop();
	for (auto [x, y] : zip(a, b)) {
		VP_ENSURES("zip: visits the elements of equal index, by reference", &x == A + count && &y == B + count);
		VP_ENSURES("zip: stops at the shortest", count < M);
		count++;
	}
	no_loop();
	VP_ENSURES("zip: visits as many as the shortest has", count == M);
}
VP_CONTRACT(zip_three) {
	auto a = any_seq<uint8_t>("a");
	auto b = any_seq<uint32_t>("b");
	const auto c = any_seq<Pair>("c");
	A = a.p, B = b.p, C = c.p, M = least(least(a.n, b.n), c.n);
	uint64_t count = 0;
	loop();
	for (auto [x, y, z] : zip(a, b, c)) {
		VP_ENSURES("zip: visits the elements of equal index, by reference", &x == A + count && &y == B + count && &z == C + count);
		VP_ENSURES("zip: stops at the shortest", count < M);
		count++;
	}
	no_loop();
	VP_ENSURES("zip: visits as many as the shortest has", count == M);
}
VP_CONTRACT(countzip_two) {
	auto a = any_seq<uint8_t>("a");
	auto b = any_seq<uint32_t>("b");
	A = a.p, B = b.p, C = nullptr, M = least(a.n, b.n);
	uint64_t count = 0;
	loop();
	for (auto [i, x, y] : countzip(a, b)) {
		VP_ENSURES("countzip: counts from zero", i == count);
		VP_ENSURES("countzip: visits the elements of equal index, by reference", &x == A + count && &y == B + count);
		VP_ENSURES("countzip: stops at the shortest", count < M);
		count++;
	}
	no_loop();
	VP_ENSURES("countzip: visits as many as the shortest has", count == M);
}
VP_CONTRACT(enumerate_one) {
	auto a = any_seq<uint32_t>("a");
	A = nullptr, B = a.p, C = nullptr, M = a.n;
	uint64_t count = 0;
	loop();
	for (auto [i, x] : enumerate(a)) {
		VP_ENSURES("enumerate: counts from zero", i == count);
		VP_ENSURES("enumerate: visits each element, by reference", &x == B + count);
		count++;
	}
	no_loop();
	VP_ENSURES("enumerate: visits every element", count == M);
}
// arrays, temporaries and writes
VP_CONTRACT(arrays) {
	int16_t a[3];
	std::array<uint8_t, 4> b;
	for (auto &x : a)
		x = any<int16_t>("a");
	for (auto &x : b)
		x = any<uint8_t>("b");
	int16_t a0[3] = {a[0], a[1], a[2]};
	unsigned n = 0;
	std::array<int16_t, 3> aa{a[0], a[1], a[2]};
	for (auto [x, y] : zip(aa, b)) {
		VP_ENSURES("zip: values", x == a0[n] && y == b[n]);
		x = int16_t(y);
		n++;
	}
	VP_ENSURES("zip: writes reach the container", n == 3 && aa[0] == b[0] && aa[1] == b[1] && aa[2] == b[2]);
	n = 0;
	for (auto [i, x, y] : countzip(b, std::array<uint8_t, 2>{b[1], b[3]})) {
		VP_ENSURES("countzip: temporaries live as long as the loop", i == n && x == b[n] && y == b[n == 0 ? 1 : 3]);
		n++;
	}
	VP_ENSURES("countzip: shortest temporary", n == 2);
	for (auto [i, x] : enumerate(b))
		x = uint8_t(i);
	VP_ENSURES("enumerate: writes reach the container", b[0] == 0 && b[1] == 1 && b[2] == 2 && b[3] == 3);
}
VP_CONTRACT(iterators) {
	std::array<uint8_t, 4> a{1, 2, 3, 4}, b{5, 6, 7, 8};
	auto z = zip(a, b);
	auto it = z.begin();
	auto old = it++;
	VP_ENSURES("zip: postfix increment returns the old place", old == z.begin() && it != z.begin());
	VP_ENSURES("zip: increment steps all", std::get<0>(*it) == 2 && std::get<1>(*it) == 6);
	auto cz = countzip(a, b);
	auto jt = cz.begin();
	auto jold = jt++;
	VP_ENSURES("countzip: postfix increment returns the old place", jold == cz.begin() && jt != cz.begin());
	VP_ENSURES("countzip: increment steps all", std::get<0>(*jt) == 1 && std::get<1>(*jt) == 2 && std::get<2>(*jt) == 6);
	VP_ENSURES("countzip: old place keeps its count", std::get<0>(*jold) == 0);
}
