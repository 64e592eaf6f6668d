// C07: one thread's view of the lock-free FIFOs: a bounded queue that never overwrites.
#include "vp.hh"
#include <utility>
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"

using namespace vp;

template<typename F>
constexpr bool has_fields = requires(F &f) {
	f.buf_[0];
	f.head_.load();
	f.tail_.load();
};

// the abstract queue: q[0] is the oldest of n elements
template<typename T, size_t N>
struct Model {
	std::array<T, N + 1> q{};
	size_t n = 0;
};

// any state of the FIFO, together with its abstract queue
template<typename F, typename T, size_t N>
Model<T, N> any_fifo(F &f, uint64_t lim = ~0ull) {
	Model<T, N> m;
	m.n = any_in<size_t>(0, N, "n");
	for (size_t i = 0; i < N; i++)
		m.q[i] = any<T>("el");
	if constexpr (has_fields<F>) {
		size_t tail = any_in<size_t>(0, lim, "tail");
		f.tail_.store(tail);
		f.head_.store(tail + m.n);
		// slot s holds element (s - tail) mod N if that is below n, else anything
		for (size_t i = 0; i < N; i++)
			f.buf_[(tail + i) % N] = m.q[i];
	} else {
		size_t r = any_in<size_t>(0, N, "rotation");
		for (size_t i = 0; i < r; i++) {
			f.put(T{});
			(void)f.get();
		}
		for (size_t i = 0; i < N; i++)
			if (i < m.n)
				f.put(m.q[i]);
	}
	return m;
}
template<typename F, typename T, size_t N>
void same(F &f, Model<T, N> const &m) {
	VP_ENSURES("the counts agree with the contents", f.num_filled() == m.n && f.num_free() == N - m.n && f.empty() == (m.n == 0) && f.full() == (m.n == N) && f.max_size() == N);
	for (size_t i = 0; i < N + 1; i++) {
		auto r = f.get();
		VP_ENSURES("elements come out in the order they went in, each once", r.has_value() == (i < m.n) && imp(i < m.n, r.value_or(T{}) == m.q[i]));
	}
}
template<typename T, size_t N>
void pop(Model<T, N> &m) {
	if (m.n) {
		for (size_t i = 0; i < N; i++)
			m.q[i] = m.q[i + 1];
		m.n--;
	}
}

template<typename F, typename T, size_t N>
void put_step(F &f, uint64_t lim = ~0ull) {
	auto m = any_fifo<F, T, N>(f, lim);
	T x = any<T>("x");
	bool ok = f.put(x);
	VP_ENSURES("put: refused exactly when full", ok == (m.n < N));
	if (m.n < N)
		m.q[m.n++] = x;
	same<F, T, N>(f, m);
}
template<typename F, typename T, size_t N>
void get_step(F &f, uint64_t lim = ~0ull) {
	auto m = any_fifo<F, T, N>(f, lim);
	unsigned how = any_in<unsigned>(0, 3, "how");
	bool some = m.n > 0;
	T first = m.q[0];
	if (how == 0) {
		auto r = f.get();
		VP_ENSURES("get: oldest element, or nothing from an empty FIFO", r.has_value() == some && r.value_or(T{}) == (some ? first : T{}));
	} else if (how == 1) {
		T t = any<T>("t"), was = t;
		bool ok = f.get_move(t);
		VP_ENSURES("get_move: oldest element, or nothing from an empty FIFO", ok == some && t == (some ? first : was));
	} else if (how == 2) {
		VP_ENSURES("get_or_default: oldest element or the default", f.get_or_default() == (some ? first : T{}));
	} else
		f.remove_first();
	pop(m);
	same<F, T, N>(f, m);
}
template<typename F, typename T, size_t N>
void reset_step(F &f, uint64_t lim = ~0ull) {
	auto m = any_fifo<F, T, N>(f, lim);
	f.reset();
	m.n = 0;
	T x = any<T>("x");
	VP_ENSURES("reset: empty", f.empty() && !f.get().has_value());
	VP_ENSURES("reset: accepts elements again", f.put(x));
	m.q[0] = x;
	m.n = 1;
	same<F, T, N>(f, m);
}
template<typename F, typename T, size_t N>
void offset_step(F &f, uint64_t lim = ~0ull) {
	// moving the read position back to `offset` elements before the write position re-exposes exactly those elements
	auto m = any_fifo<F, T, N>(f, lim);
	size_t o = any_in<size_t>(0, N, "offset");
	VP_REQUIRES(o <= m.n);
	f.set_read_offset(o);
	while (m.n > o)
		pop(m);
	same<F, T, N>(f, m);
}

#define SPSC(tag, T, N)                                                                                                \
	VP_CONTRACT(put_##tag) { LockFreeFifoSpsc<T, N> f; put_step<decltype(f), T, N>(f); }                               \
	VP_CONTRACT(get_##tag) { LockFreeFifoSpsc<T, N> f; get_step<decltype(f), T, N>(f); }                               \
	VP_CONTRACT(reset_##tag) { LockFreeFifoSpsc<T, N> f; reset_step<decltype(f), T, N>(f); }                           \
	VP_CONTRACT(init_##tag) {                                                                                          \
		LockFreeFifoSpsc<T, N> f;                                                                                      \
		same<decltype(f), T, N>(f, Model<T, N>{});                                                                     \
		size_t h = any_in<size_t>(0, N, "h");                                                                          \
		LockFreeFifoSpsc<T, N> g{h};                                                                                   \
		Model<T, N> m{{}, h};                                                                                          \
		same<decltype(g), T, N>(g, m);                                                                                 \
		std::array<T, N> src;                                                                                          \
		for (auto &s : src)                                                                                            \
			s = any<T>("src");                                                                                         \
		LockFreeFifoSpsc<T, N> k{std::span<T, N>{src}};                                                                \
		VP_ENSURES("constructed from data: empty until the write position is set", k.empty());                         \
		k.set_write_pos(N);                                                                                            \
		Model<T, N> ms;                                                                                                \
		ms.n = N;                                                                                                      \
		for (size_t i = 0; i < N; i++)                                                                                 \
			ms.q[i] = src[i];                                                                                          \
		same<decltype(k), T, N>(k, ms);                                                                                \
	}
SPSC(u32_4, uint32_t, 4)
SPSC(u8_8, uint8_t, 8)
SPSC(pair_2, Pair, 2)
SPSC(u16_1, uint16_t, 1)
VP_CONTRACT(offset_u32_4) {
	LockFreeFifoSpsc<uint32_t, 4> f;
	offset_step<decltype(f), uint32_t, 4>(f, 1ull << 40);
}

// ---- allocated at run time
static constexpr uint64_t LIM = 1ull << 32;
#define DYN(tag, T, N)                                                                                                 \
	VP_CONTRACT(dyn_put_##tag) { LockFreeFifoSpscDyn<T> f{N}; put_step<decltype(f), T, N>(f, LIM); }                   \
	VP_CONTRACT(dyn_get_##tag) { LockFreeFifoSpscDyn<T> f{N}; get_step<decltype(f), T, N>(f, LIM); }                   \
	VP_CONTRACT(dyn_reset_##tag) { LockFreeFifoSpscDyn<T> f{N}; reset_step<decltype(f), T, N>(f, LIM); }               \
	VP_CONTRACT(dyn_init_##tag) {                                                                                      \
		LockFreeFifoSpscDyn<T> f{N};                                                                                   \
		same<decltype(f), T, N>(f, Model<T, N>{});                                                                     \
		size_t h = any_in<size_t>(0, N, "h");                                                                          \
		LockFreeFifoSpscDyn<T> g{N, h};                                                                                \
		Model<T, N> m{{}, h};                                                                                          \
		same<decltype(g), T, N>(g, m);                                                                                 \
	}
DYN(u32_4, uint32_t, 4)
DYN(u8_3, uint8_t, 3)
DYN(u8_1, uint8_t, 1)
// the same with five slots takes minutes
VP_CONTRACT_T(dyn_put_u16_5) { LockFreeFifoSpscDyn<uint16_t> f{5}; put_step<decltype(f), uint16_t, 5>(f, LIM); }
VP_CONTRACT_T(dyn_get_u16_5) { LockFreeFifoSpscDyn<uint16_t> f{5}; get_step<decltype(f), uint16_t, 5>(f, LIM); }

// resizing to another size empties the FIFO and gives it that capacity; to the same size it is a no-op
template<size_t N, size_t M>
void resize_step() {
	LockFreeFifoSpscDyn<uint16_t> f{N};
	auto m = any_fifo<decltype(f), uint16_t, N>(f, LIM);
	f.resize(M);
	if constexpr (N == M) {
		same<decltype(f), uint16_t, N>(f, m);
	} else {
		Model<uint16_t, M> e;
		VP_ENSURES("resize: empty, with the new capacity", f.max_size() == M && f.empty() && f.num_free() == M);
		for (size_t i = 0; i < M; i++) {
			e.q[e.n] = any<uint16_t>("x");
			VP_ENSURES("resize: room for the new number of elements", f.put(e.q[e.n]));
			e.n++;
		}
		VP_ENSURES("resize: no room for more", !f.put(0));
		same<decltype(f), uint16_t, M>(f, e);
	}
}
VP_CONTRACT(dyn_resize_3_5) { resize_step<3, 5>(); }
VP_CONTRACT(dyn_resize_5_2) { resize_step<5, 2>(); }
VP_CONTRACT(dyn_resize_3_3) { resize_step<3, 3>(); }

// ---- a capacity beyond 2^16: any state, any content, one arbitrary element observed where it is stored
template<typename F, typename T, size_t N>
static T stored(F &f, size_t k) {
	return f.buf_[(f.tail_.load() + k) % N];
}
template<typename T, size_t N>
static void large() {
	using F = LockFreeFifoSpsc<T, N>;
	if constexpr (has_fields<F>) {
		F &f = *static_cast<F *>(vp_buffer(sizeof(F), "fifo"));
		size_t n = any_in<size_t>(0, N, "n"), tail = any<size_t>("tail"), k = any_in<size_t>(0, N - 1, "k");
		f.tail_.store(tail);
		f.head_.store(tail + n);
		VP_ENSURES("large: the counts agree with the contents", f.num_filled() == n && f.num_free() == N - n && f.empty() == (n == 0) && f.full() == (n == N) && f.max_size() == N);
		T at_k = stored<F, T, N>(f, k), next = stored<F, T, N>(f, k + 1), first = stored<F, T, N>(f, 0), x = any<T>("x");
		size_t want = n ? n - 1 : 0;
		switch (any_in<int>(0, 5, "operation")) {
			case 0:
				VP_ENSURES("large: put: refused exactly when full", f.put(x) == (n < N));
				want = n < N ? n + 1 : N;
				if (n < N)
					VP_ENSURES("large: put: the element comes last", stored<F, T, N>(f, n) == x);
				break;
			case 1: {
				auto r = f.get();
				VP_ENSURES("large: get: oldest element, or nothing from an empty FIFO", r.has_value() == (n != 0) && (n == 0 || *r == first));
				break;
			}
			case 2: {
				T t = x;
				bool ok = f.get_move(t);
				VP_ENSURES("large: get_move: oldest element, or nothing from an empty FIFO", ok == (n != 0) && t == (n ? first : x));
				break;
			}
			case 3:
				VP_ENSURES("large: get_or_default: oldest element or the default", f.get_or_default() == (n ? first : T{}));
				break;
			case 4:
				f.remove_first();
				break;
			default:
				f.reset();
				want = 0;
		}
		VP_ENSURES("large: the counts afterwards", f.num_filled() == want && f.num_free() == N - want && f.empty() == (want == 0) && f.full() == (want == N));
		if (want && k < want && k < n)
			VP_ENSURES("large: the other elements keep their order", stored<F, T, N>(f, k) == (want < n ? next : at_k));
	}
}
VP_CONTRACT(large_u8) { large<uint8_t, 1u << 17>(); }
