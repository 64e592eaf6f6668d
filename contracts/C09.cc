// C09: object pools: an entry has at most one owner.
#include "vp.hh"
#include "util/pool.hh"
#include "util/thread_safe_pool.hh"

using namespace vp;
using cpputil::Pool;
using cpputil::ThreadSafePool;

// any reachable state: which entries are in use, and what all of them contain
template<typename T, size_t N>
struct State {
	std::array<T *, N> p{};	   // the entries, by address
	std::array<bool, N> used{};
	std::array<T, N> val{};
	size_t n = 0;
};
template<typename T, size_t N>
State<T, N> any_pool(Pool<T, N> &pool) {
	State<T, N> s;
	for (size_t i = 0; i < N; i++) {
		s.p[i] = pool.create();
		VP_ENSURES("a pool has room for its number of entries", s.p[i] != nullptr);
		for (size_t j = 0; j < i; j++)
			VP_ENSURES("entries in use are distinct", s.p[i] != s.p[j]);
		s.val[i] = any<T>("data");
		*s.p[i] = s.val[i];
	}
	for (size_t i = 0; i < N; i++) {
		s.used[i] = any<bool>("used");
		if (!s.used[i])
			VP_ENSURES("an entry in use can be given back", pool.destroy(s.p[i]));
		s.n += s.used[i];
	}
	return s;
}
template<typename T, size_t N>
void same(Pool<T, N> &pool, State<T, N> const &s) {
	for (size_t i = 0; i < N; i++)
		if (s.used[i])
			VP_ENSURES("entries in use keep their data", *s.p[i] == s.val[i]);
	// the free entries are exactly those that can still be created
	for (size_t k = s.n; k <= N; k++) {
		T *q = pool.create();
		VP_ENSURES("create fails exactly when every entry is in use", (q != nullptr) == (k < N));
		if (q)
			for (size_t i = 0; i < N; i++)
				if (s.used[i])
					VP_ENSURES("create never hands out an entry in use", q != s.p[i]);
	}
}
template<typename T, size_t N>
void create_step() {
	Pool<T, N> pool;
	auto s = any_pool<T, N>(pool);
	bool blank = any<bool>("blank");
	T *q = blank ? pool.create() : pool.create_for_overwrite();
	VP_ENSURES("create succeeds exactly when an entry is free", (q != nullptr) == (s.n < N));
	if (q) {
		if (blank)
			VP_ENSURES("create: a default-constructed object", *q == T{});
		bool known = false;
		for (size_t i = 0; i < N; i++)
			if (q == s.p[i]) {
				VP_ENSURES("create never hands out an entry in use", !s.used[i]);
				known = true;
				s.used[i] = true;
				s.val[i] = any<T>("written");
				*q = s.val[i];
				s.n++;
			}
		VP_ENSURES("create returns one of the pool's entries", known);
	}
	same<T, N>(pool, s);
}
template<typename T, size_t N>
void destroy_step() {
	Pool<T, N> pool;
	auto s = any_pool<T, N>(pool);
	T outside{};
	size_t k = any_in<size_t>(0, N + 1, "which");
	T *q = k < N ? s.p[k] : k == N ? &outside : nullptr;
	bool ok = pool.destroy(q);
	VP_ENSURES("destroy reports whether the item was in use", ok == (k < N && s.used[k < N ? k : 0]));
	if (ok) {
		s.used[k] = false;
		s.n--;
	}
	same<T, N>(pool, s);
}
VP_CONTRACT(create_u32_3) { create_step<uint32_t, 3>(); }
VP_CONTRACT(create_pair_2) { create_step<Pair, 2>(); }
VP_CONTRACT(create_u8_1) { create_step<uint8_t, 1>(); }
VP_CONTRACT(destroy_u32_3) { destroy_step<uint32_t, 3>(); }
VP_CONTRACT(destroy_pair_2) { destroy_step<Pair, 2>(); }
VP_CONTRACT(destroy_u8_1) { destroy_step<uint8_t, 1>(); }

// ---- indices instead of pointers; sequential use
template<typename T, size_t N>
struct TState {
	std::array<bool, N> used{};
	std::array<T, N> val{};
	size_t n = 0;
};
template<typename T, size_t N>
TState<T, N> any_tpool(ThreadSafePool<T, N> &pool) {
	TState<T, N> s;
	std::array<bool, N> seen{};
	for (size_t i = 0; i < N; i++) {
		auto r = pool.create();
		VP_ENSURES("a pool has room for its number of entries", r.has_value() && *r < N && !seen[*r % N]);
		seen[*r % N] = true;
	}
	for (size_t i = 0; i < N; i++) {
		s.val[i] = any<T>("data");
		pool[i] = s.val[i];
		s.used[i] = any<bool>("used");
		if (!s.used[i])
			VP_ENSURES("an entry in use can be given back", pool.destroy(i));
		s.n += s.used[i];
	}
	return s;
}
template<typename T, size_t N>
void same(ThreadSafePool<T, N> &pool, TState<T, N> const &s) {
	for (size_t i = 0; i < N; i++) {
		VP_ENSURES("is_used tells which entries are in use", pool.is_used(i) == s.used[i]);
		if (s.used[i])
			VP_ENSURES("entries in use keep their data", pool[i] == s.val[i]);
	}
	size_t out = any<size_t>("idx");
	VP_ENSURES("nothing beyond the pool is in use", imp(out >= N, !pool.is_used(out)) && pool.size() == N);
	for (size_t k = s.n; k <= N; k++) {
		auto q = pool.create();
		VP_ENSURES("create fails exactly when every entry is in use", q.has_value() == (k < N));
		if (q)
			VP_ENSURES("create never hands out an entry in use", *q < N && !s.used[*q % N]);
	}
}
template<typename T, size_t N>
void tcreate_step() {
	ThreadSafePool<T, N> pool;
	auto s = any_tpool<T, N>(pool);
	auto q = pool.create();
	VP_ENSURES("create succeeds exactly when an entry is free", q.has_value() == (s.n < N));
	if (q) {
		VP_ENSURES("create never hands out an entry in use", *q < N && !s.used[*q % N]);
		s.used[*q] = true;
		s.val[*q] = any<T>("written");
		pool[*q] = s.val[*q];
		s.n++;
	}
	same<T, N>(pool, s);
}
template<typename T, size_t N>
void tdestroy_step() {
	ThreadSafePool<T, N> pool;
	auto s = any_tpool<T, N>(pool);
	size_t k = any<size_t>("which");
	bool ok = pool.destroy(k);
	VP_ENSURES("destroy reports whether the index was in use", ok == (k < N && s.used[k < N ? k : 0]));
	if (ok) {
		s.used[k] = false;
		s.n--;
	}
	same<T, N>(pool, s);
}
template<typename T, size_t N>
void tclear_step() {
	ThreadSafePool<T, N> pool;
	auto s = any_tpool<T, N>(pool);
	pool.clear();
	for (size_t i = 0; i < N; i++) {
		VP_ENSURES("clear: default-constructed data", pool[i] == T{});
		s.used[i] = false;
	}
	s.n = 0;
	same<T, N>(pool, s);
}
VP_CONTRACT(ts_create_u32_3) { tcreate_step<uint32_t, 3>(); }
VP_CONTRACT(ts_create_pair_2) { tcreate_step<Pair, 2>(); }
VP_CONTRACT(ts_create_u8_1) { tcreate_step<uint8_t, 1>(); }
VP_CONTRACT(ts_destroy_u32_3) { tdestroy_step<uint32_t, 3>(); }
VP_CONTRACT(ts_destroy_pair_2) { tdestroy_step<Pair, 2>(); }
VP_CONTRACT(ts_clear_u32_3) { tclear_step<uint32_t, 3>(); }
VP_CONTRACT(ts_init) {
	ThreadSafePool<uint32_t, 3> pool;
	for (size_t i = 0; i < 3; i++)
		VP_ENSURES("a new pool is empty", !pool.is_used(i));
}
