// C08: the lock-free FIFOs with the other thread running at the same time.
//
// Rely/guarantee: each operation is proved against an environment that may, before every atomic access, do anything the
// other side's operations may do (rely), and every access of the operation itself is checked against what it may do
// (guarantee).  The environment of a producer only moves tail_ forward up to head_; the environment of a consumer only
// moves head_ forward by at most the free slots, and writes arbitrary values into slots that are free.
// Ownership: a slot may be written by the producer only if an acquire-load of tail_ showed it consumed, and read by the
// consumer only if an acquire-load of head_ showed it published; each side publishes with release, after its access.
// vp-assume the memory model is C++20's release/acquire happens-before on head_ and tail_; an acquire load that sees a position orders everything before its release store (not re-proved)
// vp-assume one producer thread and one consumer thread, as the class documents; reset(), resize(), set_*_pos and construction are not concurrent
// vp: replay=no
#include "vp.hh"
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"

using namespace vp;

// The contracts below describe this representation.  A class that keeps more state than this (for instance a private copy
// of the other side's position) is outside of them: the check then falls back on the bounded driver in C08_hist.cc.
template<typename T, size_t N>
struct Layout {
	std::atomic<size_t> head, tail;
	std::array<T, N> buf;
};
template<typename T>
struct LayoutDyn {
	size_t max;
	std::atomic<size_t> head, tail;
	std::vector<T> buf;
};
template<typename F>
struct Known : std::false_type {};
template<typename T, size_t N>
struct Known<LockFreeFifoSpsc<T, N>> : std::bool_constant<sizeof(LockFreeFifoSpsc<T, N>) == sizeof(Layout<T, N>)> {};
template<typename T>
struct Known<LockFreeFifoSpscDyn<T>> : std::bool_constant<sizeof(LockFreeFifoSpscDyn<T>) == sizeof(LayoutDyn<T>)> {};
template<typename F>
concept Fields = Known<F>::value && requires(F &f) {
	f.buf_[0];
	f.head_.load();
	f.tail_.load();
};

template<typename F, typename T, size_t N>
struct World {
	static inline F *f;
	static inline bool producer;	// which side runs the code under proof
	static inline size_t head0, tail0; // positions at the call
	static inline T first;			// oldest element at the call (if any)
	static inline size_t known;		// how far the other side is known (acquired) to have got
	static inline size_t pending;	// last position seen without acquire
	static inline bool released;	// a release fence after the last slot access
	static inline T item;			// what the producer puts
	static inline unsigned stores;

	static size_t head() { return f->head_.load(std::memory_order_relaxed); }
	static size_t tail() { return f->tail_.load(std::memory_order_relaxed); }
	static bool acq(int o) { return o == 4 || o == 6 || o == 7; }
	static bool rel(int o) { return o >= 5; }

	static void env() {
		if (producer) {
			size_t adv = any_in<size_t>(0, head() - tail(), "consumed meanwhile");
			f->tail_.store(tail() + adv, std::memory_order_relaxed);
		} else {
			size_t free = N - (head() - tail());
			size_t adv = any_in<size_t>(0, free, "produced meanwhile");
			f->head_.store(head() + adv, std::memory_order_relaxed);
		}
	}
	static bool is(const void *p, const void *q) { return p == q; }
	static bool slot(const void *p) { return vp_same_object(p, &f->buf_[0]) && vp_offset(p) >= vp_offset(&f->buf_[0]) && vp_offset(p) < vp_offset(&f->buf_[0]) + N * sizeof(T); }

	static void pre(const void *p, uint64_t n, int isw, int atomic, int order) {
		if (atomic) {
			env();
			if (isw && is(p, producer ? (void *)&f->head_ : (void *)&f->tail_)) {
				VP_ENSURES("a position is published with release order, after the slot was accessed", rel(order) || released);
			}
			if (isw)
				VP_ENSURES("only the owner of a position moves it", is(p, producer ? (void *)&f->head_ : (void *)&f->tail_));
			return;
		}
		if (!slot(p))
			return;
		size_t s = (vp_offset(p) - vp_offset(&f->buf_[0])) / sizeof(T);
		bool whole = vp_offset(p) + n <= vp_offset(&f->buf_[0]) + (s + 1) * sizeof(T);
		if (producer) {
			if (isw) {
				size_t off = (s + N - head() % N) % N;
				VP_ENSURES("the producer writes only slots it knows to be free", whole && off < N - (head() - known));
				released = false;
			}
		} else {
			size_t off = (s + N - tail() % N) % N;
			VP_ENSURES("the consumer reads only slots it knows to be filled", whole && off < known - tail());
			released = false;
		}
	}
	static void post(const void *p, int kind, int order) {
		if (kind == 3) {
			if (acq(order))
				known = pending;
			if (rel(order))
				released = true;
			return;
		}
		if (kind == 0 && is(p, producer ? (void *)&f->tail_ : (void *)&f->head_)) {
			pending = producer ? tail() : head();
			if (acq(order))
				known = pending;
		}
		if (kind != 0) {
			stores++;
			if (producer) {
				VP_ENSURES("a put publishes one element", head() == head0 + 1 && stores == 1);
				VP_ENSURES("the element is in its slot when it is published", f->buf_[head0 % N] == item);
			} else {
				VP_ENSURES("a get consumes one element", tail() == tail0 + 1 && stores == 1);
				// from here on the producer may overwrite the slot
				f->buf_[tail0 % N] = any<T>("overwritten meanwhile");
			}
		}
	}

	static size_t start(F &fifo, bool prod, uint64_t lim) {
		f = &fifo;
		producer = prod;
		stores = 0;
		released = false;
		tail0 = any_in<size_t>(0, lim, "tail");
		size_t n = any_in<size_t>(0, N, "n");
		head0 = tail0 + n;
		fifo.tail_.store(tail0);
		fifo.head_.store(head0);
		for (size_t i = 0; i < N; i++)
			fifo.buf_[i] = any<T>("slot");
		first = fifo.buf_[tail0 % N];
		// what this side knew before the call: anything up to the truth
		size_t k = any_in<size_t>(0, producer ? N - n : n, "known");
		known = pending = producer ? head0 - N + k : tail0 + k;
		vp_watch(&fifo);
		vp_watch(&fifo.buf_[0]);
		vp_hook((const void *)&pre, (const void *)&post);
		return n;
	}
	static void stop() { vp_hook(nullptr, nullptr); }
};

template<typename F, typename T, size_t N>
void put_meanwhile(F &f, uint64_t lim) {
	if constexpr (Fields<F>) {
		using W = World<F, T, N>;
		T x = any<T>("x");
		W::item = x;
		size_t n = W::start(f, true, lim);
		bool ok = f.put(x);
		W::stop();
		VP_ENSURES("put succeeds whenever there is room at the call", imp(n < N, ok));
		VP_ENSURES("put publishes exactly when it reports success", W::head() == W::head0 + ok && W::stores == ok);
		VP_ENSURES("put succeeds only with room", imp(ok, W::head() - W::tail() <= N));
	}
}
template<typename F, typename T, size_t N>
void get_meanwhile(F &f, uint64_t lim) {
	if constexpr (Fields<F>) {
		using W = World<F, T, N>;
		unsigned how = any_in<unsigned>(0, 3, "how");
		T was = any<T>("t");
		size_t n = W::start(f, false, lim);
		bool ok = false;
		T got{};
		if (how == 0) {
			auto r = f.get();
			ok = r.has_value();
			got = r.value_or(T{});
		} else if (how == 1) {
			got = was;
			ok = f.get_move(got);
		} else if (how == 2) {
			got = f.get_or_default();
			ok = W::stores != 0;
		} else {
			f.remove_first();
			ok = W::stores != 0;
		}
		W::stop();
		VP_ENSURES("get succeeds whenever there is an element at the call", imp(n > 0, ok));
		VP_ENSURES("get consumes exactly when it reports success", W::tail() == W::tail0 + ok && W::stores == ok);
		VP_ENSURES("get succeeds only with an element", imp(ok, W::head() - W::tail() <= N));
		if (how < 3)
			VP_ENSURES("get returns the element that was put", got == (ok ? W::first : how == 1 ? was : T{}));
	}
}
template<typename F, typename T, size_t N>
void counts_meanwhile(F &f, uint64_t lim) {
	if constexpr (Fields<F>) {
		using W = World<F, T, N>;
		bool prod = any<bool>("producer");
		size_t n = W::start(f, prod, lim);
		size_t fill = f.num_filled(), free = f.num_free();
		bool e = f.empty(), u = f.full();
		W::stop();
		VP_ENSURES("counts seen by one side are counts between the call and the return",
				   prod ? fill <= n && free <= N && free >= N - n && imp(u, n == N) && imp(n == 0, e) :
						  fill >= n && fill <= N && free <= N - n && imp(e, n == 0) && imp(n == N, u));
		VP_ENSURES("asking for counts changes nothing", W::stores == 0);
	}
}

static constexpr uint64_t ALL = ~0ull;
static constexpr uint64_t LIM = 1ull << 32;
#define SPSC(tag, T, N)                                                                                                \
	VP_CONTRACT(put_##tag) { LockFreeFifoSpsc<T, N> f; put_meanwhile<decltype(f), T, N>(f, ALL); }                     \
	VP_CONTRACT(get_##tag) { LockFreeFifoSpsc<T, N> f; get_meanwhile<decltype(f), T, N>(f, ALL); }                     \
	VP_CONTRACT(counts_##tag) { LockFreeFifoSpsc<T, N> f; counts_meanwhile<decltype(f), T, N>(f, ALL); }
SPSC(u32_4, uint32_t, 4)
SPSC(u64_2, uint64_t, 2)
SPSC(pair_8, Pair, 8)
SPSC(u16_1, uint16_t, 1)
#define DYN(tag, T, N)                                                                                                 \
	VP_CONTRACT(dyn_put_##tag) { LockFreeFifoSpscDyn<T> f{N}; put_meanwhile<decltype(f), T, N>(f, LIM); }              \
	VP_CONTRACT(dyn_get_##tag) { LockFreeFifoSpscDyn<T> f{N}; get_meanwhile<decltype(f), T, N>(f, LIM); }              \
	VP_CONTRACT(dyn_counts_##tag) { LockFreeFifoSpscDyn<T> f{N}; counts_meanwhile<decltype(f), T, N>(f, LIM); }
DYN(u32_4, uint32_t, 4)
DYN(u64_3, uint64_t, 3)
DYN(u8_1, uint8_t, 1)
