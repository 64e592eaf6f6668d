// C03: the fixed-capacity vector is a sequence: every mutation has the effect of the same mutation on a list.
// vp-opt large_.* budget=60
#include "vp.hh"
#include <algorithm>
#include <array>
#include <span>
#include "util/fixed_vector.hh"

using namespace vp;

template<typename V, typename T, size_t N>
void any_vec(V &v) {
	for (size_t i = 0; i < N; i++)
		v[i] = any<T>("el");
	size_t n = any_in<size_t>(0, N, "size");
	v.resize_for_overwrite(n);
	VP_ENSURES("resize_for_overwrite sets the size", v.size() == n);
}

template<typename V, typename T, size_t N>
bool same(V const &a, V const &b) {
	bool ok = a.size() == b.size();
	for (size_t i = 0; i < N; i++)
		ok = ok & imp(i < a.size(), a[i] == b[i]);
	return ok;
}

template<typename T, size_t N>
void push() {
	using V = FixedVector<T, N>;
	V v;
	any_vec<V, T, N>(v);
	V old = v;
	size_t n = v.size();
	T x = any<T>("x");
	size_t k = any_in<size_t>(0, N - 1, "k");
	bool ok = v.push_back(x);
	VP_ENSURES("push_back succeeds exactly when there is room", ok == (n < N));
	VP_ENSURES("push_back: size", v.size() == (ok ? n + 1 : n) && v.available() == N - v.size() && v.max_size() == N);
	VP_ENSURES("push_back: earlier elements unchanged", imp(k < n, v[k] == old[k]));
	VP_ENSURES("push_back: element appended", imp(ok, v[n < N ? n : 0] == x));
	VP_ENSURES("push_back: back() is the last element", v.size() == 0 || v.back() == v[v.size() - 1]);
}

template<typename T, size_t N>
void push_over() {
	using V = FixedVector<T, N>;
	V v;
	any_vec<V, T, N>(v);
	V old = v;
	size_t n = v.size();
	size_t k = any_in<size_t>(0, N - 1, "k");
	auto i = v.push_back_for_overwrite();
	VP_ENSURES("push_back_for_overwrite returns the new index, or the capacity when full", i == n);
	VP_ENSURES("push_back_for_overwrite: size", v.size() == (n < N ? n + 1 : N));
	VP_ENSURES("push_back_for_overwrite: earlier elements unchanged", imp(k < n, v[k] == old[k]));
}

template<typename T, size_t N>
void pop() {
	using V = FixedVector<T, N>;
	V v;
	any_vec<V, T, N>(v);
	V old = v;
	size_t n = v.size();
	size_t k = any_in<size_t>(0, N - 1, "k");
	T b = v.back();
	T x = v.pop_back();
	VP_ENSURES("pop_back returns the last element, or a default one when empty", x == (n ? old[n - 1] : T{}) && b == x);
	VP_ENSURES("pop_back: size", v.size() == (n ? n - 1 : 0));
	VP_ENSURES("pop_back: the rest is unchanged", imp(k < v.size(), v[k] == old[k]));
}

template<typename T, size_t N>
void insert() {
	using V = FixedVector<T, N>;
	V v;
	any_vec<V, T, N>(v);
	V old = v;
	size_t n = v.size();
	T x = any<T>("x");
	unsigned at = any<unsigned>("index");
	size_t k = any_in<size_t>(0, N - 1, "k");
	v.insert(at, x);
	bool ok = n < N && at <= n;
	VP_ENSURES("insert: size grows exactly when there is room and the index is valid", v.size() == (ok ? n + 1 : n));
	VP_REQUIRES(k < v.size());
	if (ok)
		VP_ENSURES("insert: order is prefix, element, suffix", v[k] == (k < at ? old[k] : k == at ? x : old[k - 1]));
	else
		VP_ENSURES("insert: a refused insert changes nothing", v[k] == old[k]);
}

template<typename T, size_t N>
void erase() {
	using V = FixedVector<T, N>;
	V v;
	any_vec<V, T, N>(v);
	V old = v;
	size_t n = v.size();
	unsigned at = any<unsigned>("index");
	size_t k = any_in<size_t>(0, N - 1, "k");
	v.erase(at);
	bool ok = at < n;
	VP_ENSURES("erase: size shrinks exactly when the index is valid", v.size() == (ok ? n - 1 : n));
	VP_REQUIRES(k < v.size());
	VP_ENSURES("erase: exactly the element at the index is gone, order kept", v[k] == (ok && k >= at ? old[k + 1] : old[k]));
}

template<typename T, size_t N>
void erase_range() {
	using V = FixedVector<T, N>;
	V v;
	any_vec<V, T, N>(v);
	V old = v;
	size_t n = v.size();
	size_t a = any_in<size_t>(0, N, "first");
	size_t b = any_in<size_t>(0, N, "last");
	VP_REQUIRES(a <= n && b <= n);
	size_t k = any_in<size_t>(0, N - 1, "k");
	v.erase(v.begin() + a, v.begin() + b);
	size_t gone = b > a ? b - a : 0;
	VP_ENSURES("erase range: size shrinks by the length of the range", v.size() == n - gone);
	VP_REQUIRES(k < v.size());
	VP_ENSURES("erase range: exactly the range is gone, order kept", v[k] == (gone && k >= a ? old[k + gone] : old[k]));
}

template<typename T, size_t N>
void resize() {
	using V = FixedVector<T, N>;
	V v;
	any_vec<V, T, N>(v);
	V old = v;
	size_t n = v.size();
	size_t m = any<size_t>("new size");
	T x = any<T>("x");
	size_t k = any_in<size_t>(0, N - 1, "k");
	bool ok = v.resize(m, x);
	size_t want = m < N ? m : N;
	VP_ENSURES("resize: size is the request clipped to the capacity", v.size() == want);
	VP_ENSURES("resize reports whether the request was met", ok == (m <= N));
	VP_REQUIRES(k < v.size());
	VP_ENSURES("resize: kept elements unchanged, new ones are the fill value", v[k] == (k < n ? old[k] : x));
}

template<typename T, size_t N>
void resize_over() {
	using V = FixedVector<T, N>;
	V v;
	any_vec<V, T, N>(v);
	V old = v;
	size_t m = any<size_t>("new size");
	bool ok = v.resize_for_overwrite(m);
	size_t k = any_in<size_t>(0, N - 1, "k");
	VP_ENSURES("resize_for_overwrite: clipped to the capacity", v.size() == (m < N ? m : N) && ok == (m <= N));
	VP_ENSURES("resize_for_overwrite: kept elements unchanged", imp(k < v.size() && k < old.size(), v[k] == old[k]));
}

template<typename T, size_t N>
void views() {
	using V = FixedVector<T, N>;
	V v;
	any_vec<V, T, N>(v);
	size_t n = v.size();
	V const &c = v;
	VP_ENSURES("iteration covers exactly the elements", v.end() - v.begin() == ptrdiff_t(n) && c.end() - c.begin() == ptrdiff_t(n));
	VP_ENSURES("span covers exactly the elements", v.span().size() == n && c.span().size() == n);
	size_t k = any_in<size_t>(0, N - 1, "k");
	VP_REQUIRES(k < n);
	VP_ENSURES("iterators, span and index agree", *(v.begin() + k) == v[k] && *(c.begin() + k) == c[k] && v.span()[k] == c[k]);
	v.clear();
	VP_ENSURES("clear empties", v.size() == 0 && v.begin() == v.end() && v.available() == N);
}

VP_CONTRACT(construct) {
	FixedVector<int, 5> e;
	VP_ENSURES("default construction is empty", e.size() == 0);
	int a = any<int>("a"), b = any<int>("b"), c = any<int>("c");
	FixedVector<int, 5> v{a, b, c};
	VP_ENSURES("construction from values", v.size() == 3 && v[0] == a && v[1] == b && v[2] == c);
}

#define ALL(tag, T, N)                                                                                                 \
	VP_CONTRACT(push_##tag) { push<T, N>(); }                                                                          \
	VP_CONTRACT(push_over_##tag) { push_over<T, N>(); }                                                                \
	VP_CONTRACT(pop_##tag) { pop<T, N>(); }                                                                            \
	VP_CONTRACT(insert_##tag) { insert<T, N>(); }                                                                      \
	VP_CONTRACT(erase_##tag) { erase<T, N>(); }                                                                        \
	VP_CONTRACT(erase_range_##tag) { erase_range<T, N>(); }                                                            \
	VP_CONTRACT(resize_##tag) { resize<T, N>(); }                                                                      \
	VP_CONTRACT(resize_over_##tag) { resize_over<T, N>(); }                                                            \
	VP_CONTRACT(views_##tag) { views<T, N>(); }

ALL(u8_6, uint8_t, 6)
ALL(i32_5, int, 5)
ALL(pair_4, Pair, 4)
ALL(i16_1, int16_t, 1)

// ---- a capacity beyond 2^16: any size, any content, one arbitrary element observed
template<size_t N, int OP>
static void large() {
	using V = FixedVector<uint8_t, N>;
	V &v = *static_cast<V *>(vp_buffer(sizeof(V), "vector"));
	size_t n = any_in<size_t>(0, N, "size"), k = any_in<size_t>(0, N - 2, "k");
	v.resize_for_overwrite(n);
	VP_ENSURES("large: size, capacity and room", v.size() == n && v.max_size() == N && v.available() == N - n && v.end() - v.begin() == ptrdiff_t(n) && v.span().size() == n);
	uint8_t at_k = v[k], next = v[k + 1], before = v[k ? k - 1 : 0], last = v[n ? n - 1 : 0], x = any<uint8_t>("x");
	VP_ENSURES("large: back is the last element", v.back() == (n ? last : 0) && v.begin() + k == &v[k]);
	size_t want = n;
	if (OP == 0) {
		VP_ENSURES("large: push_back succeeds exactly when there is room", v.push_back(x) == (n < N));
		want = n < N ? n + 1 : N;
		if (n < N)
			VP_ENSURES("large: push_back: element appended", v[n] == x && v.back() == x);
	} else if (OP == 1) {
		VP_ENSURES("large: pop_back returns the last element, or a default one when empty", v.pop_back() == (n ? last : 0));
		want = n ? n - 1 : 0;
	} else if (OP == 2) {
		VP_ENSURES("large: push_back_for_overwrite returns the new index, or the capacity when full", v.push_back_for_overwrite() == n);
		want = n < N ? n + 1 : N;
	} else if (OP == 3) {
		size_t to = any_in<size_t>(0, 2 * N, "new size");
		VP_ENSURES("large: resize_for_overwrite tells whether it fits", v.resize_for_overwrite(to) == (to <= N));
		want = to < N ? to : N;
	} else {
		unsigned i = any<unsigned>("index");
		if (OP == 4) {
			bool ok = n < N && i <= n;
			v.insert(i, x);
			want = ok ? n + 1 : n;
			if (k < want)
				VP_ENSURES("large: insert: the element is at its place, those behind it one further", v[k] == (!ok || k < i ? at_k : k == i ? x : before));
		} else if (OP == 5) {
			bool ok = i < n;
			v.erase(i);
			want = ok ? n - 1 : n;
			if (k < want)
				VP_ENSURES("large: erase: those behind the element one closer", v[k] == (!ok || k < i ? at_k : next));
		} else {
			size_t b = any_in<size_t>(0, N, "first"), e = any_in<size_t>(0, N, "last");
			VP_REQUIRES(b <= e && e <= n);
			uint8_t moved = v[k + (e - b) < N ? k + (e - b) : 0];
			v.erase(v.begin() + b, v.begin() + e);
			want = n - (e - b);
			if (k < want)
				VP_ENSURES("large: erase of a range: those behind it move up", v[k] == (k < b ? at_k : moved));
		}
		k = N;
	}
	VP_ENSURES("large: size afterwards", v.size() == want);
	if (k < want && k < n)
		VP_ENSURES("large: earlier elements unchanged", v[k] == at_k);
	v.clear();
	VP_ENSURES("large: clear empties", v.size() == 0);
}
VP_CONTRACT(large_push) { large<1u << 17, 0>(); }
VP_CONTRACT(large_pop) { large<1u << 17, 1>(); }
VP_CONTRACT(large_push_over) { large<1u << 17, 2>(); }
VP_CONTRACT(large_resize_over) { large<1u << 17, 3>(); }
VP_CONTRACT(large_insert) { large<1u << 17, 4>(); }
VP_CONTRACT(large_erase) { large<1u << 17, 5>(); }
VP_CONTRACT(large_erase_range) { large<1u << 17, 6>(); }
