// C09: ThreadSafePool with any number of other threads creating and destroying at the same time.
// Before every atomic access the environment may set or clear any flag except those of entries this thread owns.
// vp: replay=no
// vp-assume other threads give back only entries they own (or lose the race for), as create()/destroy() are documented to be used
#include "vp.hh"
#include "util/thread_safe_pool.hh"

using namespace vp;
using cpputil::ThreadSafePool;

template<typename T, size_t N>
struct World {
	using P = ThreadSafePool<T, N>;
	static inline P *pool;
	static inline std::array<bool, N> mine, before;
	static inline bool creating;
	static inline unsigned taken, given;
	static inline size_t last;

	static bool flag(size_t i) { return pool->used_flags[i].load(std::memory_order_relaxed); }
	static void pre(const void *, uint64_t, int isw, int atomic, int) {
		if (!atomic)
			return;
		for (size_t i = 0; i < N; i++) {
			if (!mine[i])
				pool->used_flags[i].store(any<bool>("other threads"), std::memory_order_relaxed);
			before[i] = flag(i);
		}
	}
	static void post(const void *p, int kind, int order) {
		if (kind == 0 || kind == 3)
			return;
		for (size_t i = 0; i < N; i++) {
			bool now = flag(i);
			if (now && !before[i]) {
				VP_ENSURES("only create takes an entry", creating);
				VP_ENSURES("an entry is taken with acquire order", order == 4 || order >= 6);
				taken++;
				last = i;
				mine[i] = true;
			}
			if (!now && before[i]) {
				VP_ENSURES("only destroy gives an entry back", !creating);
				VP_ENSURES("an entry is given back with release order", order >= 5);
				given++;
				last = i;
				mine[i] = false;
			}
			// a blind store over another thread's flag is not visible as a change
			if (kind == 1 && p == &pool->used_flags[i])
				VP_ENSURES("a flag is only changed by a read-modify-write", mine[i] || false);
		}
	}
	static void start(P &p, bool create) {
		pool = &p;
		creating = create;
		taken = given = 0;
		last = N;
		for (size_t i = 0; i < N; i++) {
			mine[i] = any<bool>("mine");
			p.used_flags[i].store(mine[i]);
		}
		vp_watch(&p);
		vp_hook((const void *)&pre, (const void *)&post);
	}
	static void stop() { vp_hook(nullptr, nullptr); }
};
template<typename P>
concept Fields = requires(P &p) {
	p.used_flags[0].load();
};
template<typename T, size_t N>
void create_meanwhile() {
	ThreadSafePool<T, N> p;
	if constexpr (Fields<decltype(p)>) {
		using W = World<T, N>;
		W::start(p, true);
		auto owned = W::mine;
		auto r = p.create();
		W::stop();
		VP_ENSURES("create takes exactly the entry it returns", W::taken == r.has_value() && W::given == 0 && imp(r.has_value(), r.value_or(N) == W::last));
		VP_ENSURES("create never returns an entry this thread already owns", imp(r.has_value(), W::last < N && !owned[W::last % N]));
	}
}
template<typename T, size_t N>
void destroy_meanwhile() {
	ThreadSafePool<T, N> p;
	if constexpr (Fields<decltype(p)>) {
		using W = World<T, N>;
		W::start(p, false);
		size_t k = any<size_t>("which");
		bool own = k < N && W::mine[k % N];
		bool ok = p.destroy(k);
		W::stop();
		VP_ENSURES("destroy gives back exactly the entry it was asked to", W::given == ok && W::taken == 0 && imp(ok, W::last == k));
		VP_ENSURES("destroy succeeds for an owned entry and fails for an index outside", imp(own, ok) && imp(k >= N, !ok));
	}
}
template<typename T, size_t N>
void is_used_meanwhile() {
	ThreadSafePool<T, N> p;
	if constexpr (Fields<decltype(p)>) {
		using W = World<T, N>;
		W::start(p, false);
		size_t k = any<size_t>("which");
		bool u = p.is_used(k);
		W::stop();
		VP_ENSURES("is_used: true for an owned entry, false outside, changes nothing", imp(k < N && W::mine[k % N], u) && imp(k >= N, !u) && W::given == 0 && W::taken == 0);
	}
}
VP_CONTRACT(create_meanwhile_u32_3) { create_meanwhile<uint32_t, 3>(); }
VP_CONTRACT(create_meanwhile_pair_2) { create_meanwhile<Pair, 2>(); }
VP_CONTRACT(create_meanwhile_u8_1) { create_meanwhile<uint8_t, 1>(); }
VP_CONTRACT(destroy_meanwhile_u32_3) { destroy_meanwhile<uint32_t, 3>(); }
VP_CONTRACT(destroy_meanwhile_u8_1) { destroy_meanwhile<uint8_t, 1>(); }
VP_CONTRACT(is_used_meanwhile_u32_3) { is_used_meanwhile<uint32_t, 3>(); }
