// C27: allocators and padding.
// vp: unroll=80
#include "vp.hh"
#include "util/aligned_allocator.hh"
#include "util/monotonic_allocator.hh"
#include "util/padded_aligned.hh"

using namespace vp;

// --- MonotonicAllocator: any history is summed up by the number of bytes given out
VP_CONTRACT(mono_start) {
	size_t n = any_in<size_t>(0, uint64_t(1) << 40, "arena");
	auto *p = static_cast<uint8_t *>(vp_buffer(n, "arena"));
	MonotonicAllocator a{std::span<uint8_t>{p, n}};
	VP_ENSURES("MonotonicAllocator: starts with the whole arena free", a.free_space() == n && a.total_size() == n);
	size_t s = any<size_t>("size");
	auto *q = a.allocate(s);
	VP_ENSURES("MonotonicAllocator: first block starts the arena", q == nullptr || q == p);
	VP_ENSURES("MonotonicAllocator: succeeds if there is more room", imp(s < n, q != nullptr));
}
VP_CONTRACT(mono_any) {
	size_t n = any_in<size_t>(1, uint64_t(1) << 40, "arena");
	auto *p = static_cast<uint8_t *>(vp_buffer(n, "arena"));
	MonotonicAllocator a{std::span<uint8_t>{p, n}};
	size_t used = any_in<size_t>(0, n, "used");
	VP_REQUIRES(used < n || used == 0);
	auto *first = a.allocate(used);
	VP_REQUIRES(first != nullptr);
	VP_ENSURES("MonotonicAllocator: free space is what was not given out", a.free_space() == n - used && a.total_size() == n);
	size_t s = any<size_t>("size"), t = any<size_t>("next size");
	auto *q = a.allocate(s);
	VP_ENSURES("MonotonicAllocator: succeeds if there is more room", imp(s < n - used, q != nullptr));
	VP_ENSURES("MonotonicAllocator: refuses what does not fit", imp(s > n - used, q == nullptr));
	if (q) {
		VP_ENSURES("MonotonicAllocator: blocks follow each other", q == p + used);
		VP_ENSURES("MonotonicAllocator: a block uses up its size", a.free_space() == n - used - s);
		VP_ENSURES("MonotonicAllocator: block within the arena", s <= n - used);
		auto *r = a.allocate(t);
		if (r)
			VP_ENSURES("MonotonicAllocator: no block overlaps an earlier one", r >= q + s && t <= n - used - s);
		if (s > 0)
			q[any_in<size_t>(0, s - 1, "at")] = 1; // every byte can be written
	} else
		VP_ENSURES("MonotonicAllocator: a refusal changes nothing", a.free_space() == n - used);
	VP_ENSURES("MonotonicAllocator: total size never changes", a.total_size() == n);
	a.reset();
	VP_ENSURES("MonotonicAllocator: reset frees everything", a.free_space() == n && a.total_size() == n);
	VP_ENSURES("MonotonicAllocator: starts over after reset", a.allocate(0) == p);
}

// --- AlignedAllocator
struct Odd {
	uint8_t b[12];
};
template<typename T, size_t A>
static void aligned() {
	AlignedAllocator<T, A> a;
	size_t n = any<size_t>("n");
	T *p = a.allocate(n);
	VP_ENSURES("AlignedAllocator: nothing for nothing", imp(n == 0, p == nullptr));
	VP_ENSURES("AlignedAllocator: refuses sizes that do not fit the address space", imp(n > size_t(-1) / sizeof(T), p == nullptr));
	if (p) {
		VP_ENSURES("AlignedAllocator: aligned", reinterpret_cast<uintptr_t>(p) % A == 0);
		VP_ENSURES("AlignedAllocator: room for n elements", vp_objsize(p) / sizeof(T) >= n);
		// element by element writable
		size_t at = any_in<size_t>(0, n - 1, "at");
		std::memset((void *)(p + at), 0, sizeof(T));
		auto live = vp_live_heap();
		a.deallocate(p, n);
		VP_ENSURES("AlignedAllocator: deallocate gives it back", vp_live_heap() == live - 1);
	}
	AlignedAllocator<Odd, A> b{a};
	typename AlignedAllocator<T, A>::template rebind<Odd>::other c{b};
	VP_ENSURES("AlignedAllocator: all are equal", a == AlignedAllocator<T, A>{c} && !(a != AlignedAllocator<T, A>{}));
}
VP_CONTRACT(aligned_u8_64) { aligned<uint8_t, 64>(); }
VP_CONTRACT(aligned_f_16) { aligned<float, 16>(); }
VP_CONTRACT(aligned_odd_32) { aligned<Odd, 32>(); }
VP_CONTRACT(aligned_u64_64) { aligned<uint64_t, 64>(); }

// --- PaddedAligned
template<typename T, size_t A>
static void padded() {
	PaddedAligned<T, A> x[2];
	VP_ENSURES("PaddedAligned: starts aligned", alignof(PaddedAligned<T, A>) % A == 0);
	VP_ENSURES("PaddedAligned: ends aligned", sizeof(PaddedAligned<T, A>) % A == 0);
	auto *a = reinterpret_cast<const uint8_t *>(&x[0]()), *b = reinterpret_cast<const uint8_t *>(&x[1]());
	VP_ENSURES("PaddedAligned: neighbours share no line", size_t(b - a) >= ((sizeof(T) + A - 1) / A) * A && size_t(b - a) % A == 0);
	VP_ENSURES("PaddedAligned: data at the start", (const void *)a == (const void *)&x[0]);
	T v = any<T>("v");
	static_cast<T &>(x[0]) = v;
	VP_ENSURES("PaddedAligned: stands for its data", x[0]() == v && x[0].data == v);
}
VP_CONTRACT(padded_u8) { padded<uint8_t, 32>(); }
VP_CONTRACT(padded_u64) { padded<uint64_t, 32>(); }
VP_CONTRACT(padded_pair) { padded<Pair, 4>(); }
VP_CONTRACT(padded_pair64) { padded<Pair, 64>(); }
