// C28: circular access to external buffers, and block writes.
#include "vp.hh"
#include "util/circular_buffer_block.hh"
#include "util/circular_buffer_ext.hh"

using namespace vp;

// --- CircularBufferBlock
template<typename T, size_t N>
static void block() {
	CircularBufferBlock<T, N> b;
	T old[N];
	for (size_t i = 0; i < N; i++) {
		old[i] = any<T>("old");
		b.data[i] = old[i];
	}
	size_t n = any_in<size_t>(0, N, "n");
	unsigned start = any<unsigned>("start");
	auto *src = static_cast<T *>(vp_buffer(N * sizeof(T), "block"));
	T in[N];
	for (size_t i = 0; i < N; i++) {
		in[i] = any<T>("in");
		src[i] = in[i];
	}
	for (size_t k = 0; k <= N; k++) // every length, as a constant
		if (n == k) {
			b.write(std::span<const T>{src, k}, start);
			bool ok = true;
			for (size_t i = 0; i < N; i++) {
				size_t rel = (i - start) % N;
				bool hit = rel < k;
				T want = old[i];
				for (size_t j = 0; j < N; j++)
					if (rel == j)
						want = hit ? in[j] : want;
				ok = ok & (b.data[i] == want);
			}
			VP_ENSURES("CircularBufferBlock: the block is at the start position, wrapped, and the rest untouched", ok);
		}
	VP_ENSURES("CircularBufferBlock: size", b.size() == N);
}
VP_CONTRACT(block_u8_1) { block<uint8_t, 1>(); }
VP_CONTRACT(block_u8_4) { block<uint8_t, 4>(); }
VP_CONTRACT(block_u8_8) { block<uint8_t, 8>(); }
VP_CONTRACT(block_u32_4) { block<uint32_t, 4>(); }
VP_CONTRACT(block_pair_2) { block<Pair, 2>(); }

// --- CircularBufferAccess: external buffer of SZ elements, a transfer of N elements
using T = uint8_t;
static T *B, *D;
static uint64_t SZ, N, P0, J, OLD;
static bool REV;

// position after i steps from P0, and whether the end was passed on the way
static uint64_t P(uint64_t i) {
	return vp_uf(1, i, 0, 0);
}
static uint64_t W(uint64_t i) {
	return vp_uf(2, i, 0, 0) & 1;
}
static void unfold(uint64_t i) {
	vp_let(1, 0, P0);
	vp_let(2, 0, 0);
	uint64_t p = P(i), w = W(i), last = SZ - 1;
	if (REV) {
		vp_let(1, i + 1, (p == 0 ? last : p - 1));
		vp_let(2, i + 1, (p == 0 ? 1 : w));
	} else {
		vp_let(1, i + 1, (p >= last ? 0 : p + 1));
		vp_let(2, i + 1, (p >= last ? 1 : w));
	}
}
// for transfers no longer than the buffer
static uint64_t closed(uint64_t i) {
	uint64_t p = REV ? P0 - i : P0 + i, q = REV ? p + SZ : p - SZ;
	bool in = REV ? P0 >= i : p < SZ;
	return in ? p : q;
}
static uint64_t steps_to(uint64_t p) {
	uint64_t s = REV ? P0 - p : p - P0, q = s + SZ;
	bool in = REV ? P0 >= p : p >= P0;
	return in ? s : q;
}
static bool common(uint64_t i, uint64_t k) {
	unfold(i);
	unfold(i - 1);
	if (k == 0)
		return i <= N;
	if (k == 1)
		return P(i) < SZ;
	if (k == 2)
		return imp(i <= SZ, P(i) == closed(i));
	return imp(i <= SZ, W(i) == (REV ? i > P0 : i >= SZ - P0));
}
static bool inv_read(uint64_t i, uint64_t k) {
	if (k < 4)
		return common(i, k);
	if (k == 4)
	{
		uint8_t b = vp_byte(B, P(J)), old = OLD;
		bool hit = (J < i) & (J < N);
		return vp_byte(D, J) == (hit ? b : old);
	}
	return imp(J < i, P(J) < SZ);
}
static bool inv_write(uint64_t i, uint64_t k) {
	if (k < 4)
		return common(i, k);
	uint64_t s = steps_to(J);
	uint8_t d = vp_byte(D, s), b = vp_byte(B, J), old = OLD;
	bool hit = (J < SZ) & (s < i);
	return imp(i <= SZ, b == (hit ? d : old));
}
static uint64_t terms(uint64_t i, uint64_t k) {
	return k == 0 ? P(i) : W(i);
}
static const void *ptrs(uint64_t i, uint64_t) {
	return D + i;
}
static void setup(bool rev) {
	REV = rev;
	SZ = any_in<uint64_t>(1, uint64_t(1) << 40, "size");
	N = any_in<uint64_t>(0, uint64_t(1) << 40, "n");
	B = static_cast<T *>(vp_buffer(SZ, "buffer"));
	D = static_cast<T *>(vp_buffer(N, "data"));
	P0 = any_in<uint64_t>(0, SZ - 1, "position");
	J = any_in<uint64_t>(0, uint64_t(1) << 41, "observed");
	vp_lazy(1, unfold, true);
	vp_lazy(2, unfold, true);
	unfold(0);
}
static void loops(vp::Inv f, unsigned n) {
	loop_inv(f, n);
	loop_terms(terms, 2);
	loop_ptrs(ptrs, 1);
}
template<bool R>
static void read() {
	setup(R);
	OLD = vp_byte(D, J);
	uint64_t K = any<uint64_t>("elsewhere");
	uint8_t kept = vp_byte(B, K);
	std::span<T> buf{B, SZ};
	CircularBufferAccess<std::span<T>> c{buf, any_in<uint64_t>(0, SZ - 1, "wr")};
	auto wr = c.wr_pos();
	c.rd_pos(P0);
	loops(inv_read, 6);
	bool wrapped = R ? c.read_reverse({D, N}) : c.read({D, N});
	no_loop();
	VP_ENSURES("CircularBufferAccess: read delivers consecutive elements around the end", imp(J < N, vp_byte(D, J) == vp_byte(B, P(J))));
	VP_ENSURES("CircularBufferAccess: the read position advances by one per element", c.rd_pos() == P(N) && P(N) < SZ);
	VP_ENSURES("CircularBufferAccess: read tells whether it passed the end", wrapped == (W(N) != 0));
	VP_ENSURES("CircularBufferAccess: reading up to one buffer length: position", imp(N <= SZ, c.rd_pos() == closed(N)));
	VP_ENSURES("CircularBufferAccess: reading up to one buffer length: wrap", imp(N <= SZ, wrapped == (R ? N > P0 : N >= SZ - P0)));
	VP_ENSURES("CircularBufferAccess: reading does not write", vp_byte(B, K) == kept && c.wr_pos() == wr && c.size() == SZ);
}
VP_CONTRACT(read_forward) { read<false>(); }
VP_CONTRACT(read_backward) { read<true>(); }

template<bool R>
static void write() {
	setup(R);
	OLD = vp_byte(B, J);
	std::span<T> buf{B, SZ};
	CircularBufferAccess<std::span<T>> c{buf, P0};
	loops(inv_write, 5);
	bool wrapped = R ? c.write_reverse({D, N}) : c.write({D, N});
	no_loop();
	VP_ENSURES("CircularBufferAccess: write replaces consecutive elements around the end and no others", imp(N <= SZ && J < SZ, vp_byte(B, J) == (steps_to(J) < N ? vp_byte(D, steps_to(J)) : OLD)));
	VP_ENSURES("CircularBufferAccess: the write position advances by one per element", c.wr_pos() == P(N) && P(N) < SZ);
	VP_ENSURES("CircularBufferAccess: write tells whether it passed the end", wrapped == (W(N) != 0));
	VP_ENSURES("CircularBufferAccess: writing up to one buffer length: position", imp(N <= SZ, c.wr_pos() == closed(N)));
	VP_ENSURES("CircularBufferAccess: writing up to one buffer length: wrap", imp(N <= SZ, wrapped == (R ? N > P0 : N >= SZ - P0)));
	VP_ENSURES("CircularBufferAccess: writing does not read", c.rd_pos() == 0 && c.size() == SZ);
}
VP_CONTRACT(write_forward) { write<false>(); }
VP_CONTRACT(write_backward) { write<true>(); }

// crossing a marker, for transfers of up to one buffer length
template<int KIND>
static void crossed() {
	setup(KIND == 1);
	VP_REQUIRES(N <= SZ);
	uint64_t m = any_in<uint64_t>(0, SZ - 1, "marker"), s = steps_to(m);
	std::span<T> buf{B, SZ};
	CircularBufferAccess<std::span<T>> c{buf, P0};
	c.rd_pos(P0);
	loops(common, 4);
	bool x = KIND == 0 ? c.read_check_crossed({D, N}, m) : KIND == 1 ? c.read_reverse_check_crossed({D, N}, m) : c.write_check_crossed({D, N}, m);
	no_loop();
	bool touched = s < N, reached = (s <= N) & ((s > 0) | (N == SZ));
	if (KIND == 0)
		VP_ENSURES("CircularBufferAccess: reading tells whether the marker was read", x == touched);
	else
		VP_ENSURES("CircularBufferAccess: tells whether the marker became the next position", x == reached);
}
VP_CONTRACT(crossed_read) { crossed<0>(); }
VP_CONTRACT(crossed_read_backward) { crossed<1>(); }
VP_CONTRACT(crossed_write) { crossed<2>(); }

// clear
static bool inv_clear(uint64_t i, uint64_t k) {
	if (k == 0)
		return i <= SZ;
	uint8_t b = vp_byte(B, J), old = OLD;
	bool hit = (J < i) & (J < SZ);
	return b == (hit ? 0 : old);
}
static uint64_t clear_terms(uint64_t i, uint64_t) {
	return i;
}
VP_CONTRACT(clear) {
	setup(false);
	OLD = vp_byte(B, J);
	std::span<T> buf{B, SZ};
	CircularBufferAccess<std::span<T>> c{buf, P0};
	loop_inv(inv_clear, 2);
	loop_terms(clear_terms, 1);
	c.clear();
	no_loop();
	VP_ENSURES("CircularBufferAccess: clear zeroes every element and nothing else", vp_byte(B, J) == (J < SZ ? 0 : OLD) && c.size() == SZ);
}

// cross-fading one 16-bit sample: phase 0 keeps what is there, phase 1 replaces it
VP_CONTRACT(fade_16) {
	int16_t a[3], d[1] = {any<int16_t>("new")};
	for (auto &x : a)
		x = any<int16_t>("old");
	int16_t old[3] = {a[0], a[1], a[2]};
	std::span<int16_t> buf{a, 3};
	size_t at = any_in<size_t>(0, 2, "at");
	CircularBufferAccess<std::span<int16_t>> c{buf, at};
	bool keep = any<bool>("keep"), rev = any<bool>("reverse");
	bool wrapped = rev ? c.write_reverse(std::span<const int16_t>{d}, keep ? 0.f : 1.f) : c.write(std::span<const int16_t>{d}, keep ? 0.f : 1.f);
	bool ok = true;
	for (size_t i = 0; i < 3; i++) {
		int16_t want = i == at && !keep ? d[0] : old[i];
		ok = ok & (a[i] == want);
	}
	VP_ENSURES("CircularBufferAccess: phase 0 keeps and phase 1 replaces the element", ok);
	VP_ENSURES("CircularBufferAccess: one element moves by one", c.wr_pos() == (rev ? (at + 2) % 3 : (at + 1) % 3) && wrapped == (at == (rev ? 0 : 2)));
}

// --- a large CircularBufferBlock: any length, any position, one arbitrary element observed
VP_CONTRACT(block_large) {
	constexpr size_t SIZE = 1u << 17;
	using Blk = CircularBufferBlock<uint8_t, SIZE>;
	auto &b = *static_cast<Blk *>(vp_buffer(sizeof(Blk), "buffer"));
	size_t n = any_in<size_t>(0, SIZE, "n"), k = any_in<size_t>(0, SIZE - 1, "k");
	unsigned start = any<unsigned>("start");
	auto *src = static_cast<uint8_t *>(vp_buffer(n, "block"));
	size_t rel = (k - start) % SIZE;
	uint8_t was = b.data[k], in = vp_byte(src, rel);
	b.write(std::span<const uint8_t>{src, n}, start);
	VP_ENSURES("CircularBufferBlock, large: the block is at the start position, wrapped, and the rest untouched", b.data[k] == (rel < n ? in : was));
	VP_ENSURES("CircularBufferBlock, large: size", b.size() == SIZE);
}
