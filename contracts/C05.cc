// C05: looking a key up in an arbitrary byte blob never reads outside it and finds the first matching node.
// vp: unroll=80 budget=200 cutfn=get_size_and_offset
#include "vp.hh"
#include <utility>
#include <optional>
#include "util/compact_binary_parser.hh"

using namespace vp;

// The blob under consideration (any length, any content)
static const uint8_t *B;
static uint64_t N;

template<typename K>
struct KeyOf {
	static inline K key;
	static bool match(uint64_t c) {
		std::array<uint8_t, sizeof(K)> b;
		for (size_t i = 0; i < sizeof(K); i++)
			b[i] = vp_byte(B, c + i);
		return std::bit_cast<K>(b) == key;
	}
};
using Str = char[3];
static char str_key[3];
template<>
struct KeyOf<Str> {
	// equal up to and including the first NUL; bytes after it are padding
	static bool match(uint64_t c) {
		bool eq = true, ended = false;
		for (int i = 0; i < 3; i++) {
			eq = eq & (ended | (char(vp_byte(B, c + i)) == str_key[i]));
			ended = ended | (str_key[i] == 0);
		}
		return eq;
	}
};

// ---- specification: nodes are laid out one after the other from offset 0
template<typename K, typename S>
struct Spec {
	static constexpr uint64_t H = sizeof(K) + sizeof(S);
	static bool header_fits(uint64_t c) {
		return (c <= N) & (N - c > H); // a header with nothing behind it holds no data
	}
	static uint64_t size_at(uint64_t c) {
		std::array<uint8_t, sizeof(S)> b;
		for (size_t i = 0; i < sizeof(S); i++)
			b[i] = vp_byte(B, c + sizeof(K) + i);
		return uint64_t(int64_t(std::bit_cast<S>(b))); // a negative size is larger than any blob
	}
	static bool has_next(uint64_t c) {
		return header_fits(c) & (size_at(c) < N - c - H);
	}
	// start of the i-th node
	static uint64_t C(uint64_t i) {
		return vp_uf(1, i, 0, 0);
	}
	static void unfold_C(uint64_t i) {
		vp_define(C(0) == 0);
		uint64_t c = C(i);
		vp_define(imp(has_next(c), C(i + 1) == c + H + size_at(c)));
	}
	// result of a search that starts at offset c: found?, size, offset of the data
	static bool found(uint64_t c) {
		return vp_uf(2, c, 0, 0) & 1;
	}
	static uint64_t fsize(uint64_t c) {
		return vp_uf(3, c, 0, 0);
	}
	static uint64_t foff(uint64_t c) {
		return vp_uf(4, c, 0, 0);
	}
	static void unfold_F(uint64_t c) {
		bool fits = header_fits(c), m = KeyOf<K>::match(c), nx = has_next(c);
		uint64_t d = c + H + size_at(c);
		vp_define(found(c) == (fits & (m | (nx & found(d)))));
		vp_define(imp(found(c) & m, (fsize(c) == size_at(c)) & (foff(c) == c + H)));
		vp_define(imp(found(c) & !m, (fsize(c) == fsize(d)) & (foff(c) == foff(d))));
	}
	static bool inv(uint64_t i, uint64_t k) {
		unfold_C(i - 1);
		unfold_C(i);
		uint64_t c = C(i);
		if (k == 0)
			return c <= N;
		if (k == 1) {
			unfold_F(C(i - 1));
			unfold_F(c);
			return (found(0) == found(c)) & imp(found(0), (fsize(0) == fsize(c)) & (foff(0) == foff(c)));
		}
		return i <= c;
	}
	static uint64_t terms(uint64_t i, uint64_t k) {
		unfold_C(i - 1);
		unfold_C(i);
		return k == 0 ? C(i) : N - C(i);
	}
	static const void *ptrs(uint64_t i, uint64_t) {
		unfold_C(i - 1);
		unfold_C(i);
		return B + C(i);
	}
};

template<typename K, typename S, typename P>
auto key_arg() {
	if constexpr (std::is_array_v<K>)
		return str_key;
	else
		return KeyOf<K>::key;
}

template<typename K, typename S>
auto setup() {
	using Sp = Spec<K, S>;
	N = any_in<uint64_t>(0, uint64_t(1) << 40, "length");
	B = static_cast<const uint8_t *>(vp_buffer(N, "blob"));
	if constexpr (std::is_array_v<K>) {
		for (auto &c : str_key)
			c = any<char>("key");
	} else
		KeyOf<K>::key = any<K>("key");
	loop_inv(Sp::inv, 3);
	loop_terms(Sp::terms, 2);
	loop_ptrs(Sp::ptrs, 1);
	return CompactBinaryParser<K, S>{std::span<const uint8_t>{B, N}};
}

// On a native run the specification functions are uninterpreted: search directly.
template<typename K, typename S>
void reference(bool &found, uint64_t &size, uint64_t &off) {
	using Sp = Spec<K, S>;
	found = Sp::found(0);
	size = Sp::fsize(0);
	off = Sp::foff(0);
#ifdef VP_NATIVE
	uint64_t c = 0;
	found = false;
	while (Sp::header_fits(c)) {
		if (KeyOf<K>::match(c)) {
			found = true;
			size = Sp::size_at(c);
			off = c + Sp::H;
			break;
		}
		if (!Sp::has_next(c))
			break;
		c += Sp::H + Sp::size_at(c);
	}
#endif
}

template<typename K, typename S>
void node() {
	auto p = setup<K, S>();
	auto r = p.get_node(key_arg<K, S, int>());
	bool found;
	uint64_t size, off;
	reference<K, S>(found, size, off);
	bool whole = found && off <= N && size <= N - off;
	VP_ENSURES("node: length is the stored size of the first matching node, zero if absent or truncated", r.size() == (whole ? size : 0));
	if (r.size())
		VP_ENSURES("node: the data lies inside the blob, right behind the header", r.data() == B + off && off + r.size() <= N);
}

template<typename K, typename S>
void size_only() {
	auto p = setup<K, S>();
	auto [sz, offset] = p.get_size_and_offset(key_arg<K, S, int>());
	bool found;
	uint64_t size, off;
	reference<K, S>(found, size, off);
	VP_ENSURES("size: the stored size of the first matching node, zero if absent", sz == (found ? S(size) : S(0)));
	VP_ENSURES("offset: start of the data, inside the blob", uint64_t(offset) == (found ? off : 0) && uint64_t(offset) <= N);
}

template<typename K, typename S, typename T>
void value() {
	auto p = setup<K, S>();
	std::optional<T> r = p.template get<T>(key_arg<K, S, int>());
	bool found;
	uint64_t size, off;
	reference<K, S>(found, size, off);
	bool ok = found && size == sizeof(T) && off <= N && size <= N - off;
	VP_ENSURES("value: present exactly when the first matching node has the size of the type and is complete", r.has_value() == ok);
	if (ok && r.has_value()) {
		T v;
		memcpy(&v, B + off, sizeof v);
		VP_ENSURES("value: the bytes of the node", *r == v);
	}
}

VP_CONTRACT(node_u16_u16) { node<uint16_t, uint16_t>(); }
VP_CONTRACT(node_u8_u8) { node<uint8_t, uint8_t>(); }
VP_CONTRACT(node_u8_u32) { node<uint8_t, uint32_t>(); }
VP_CONTRACT(node_u16_u64) { node<uint16_t, uint64_t>(); }
VP_CONTRACT(node_u8_i8) { node<uint8_t, int8_t>(); }
VP_CONTRACT(node_str_u8) { node<Str, uint8_t>(); }
VP_CONTRACT(size_u16_u16) { size_only<uint16_t, uint16_t>(); }
VP_CONTRACT(size_str_u16) { size_only<Str, uint16_t>(); }
VP_CONTRACT(value_u16_u16_u32) { value<uint16_t, uint16_t, uint32_t>(); }
VP_CONTRACT(value_u8_u8_u8) { value<uint8_t, uint8_t, uint8_t>(); }
VP_CONTRACT(value_u16_u64_u16) { value<uint16_t, uint64_t, uint16_t>(); }
VP_CONTRACT(value_u8_i8_u64) { value<uint8_t, int8_t, uint64_t>(); }
VP_CONTRACT(value_str_u8_u32) { value<Str, uint8_t, uint32_t>(); }
