// C02: the bounded stack is LIFO and drops only its oldest element when it overflows.
#include "vp.hh"
#include <array>
#include <optional>
#include "util/circular_stack.hh"

using namespace vp;

template<typename S>
constexpr bool has_fields = requires(S &s) {
	s.data[0];
	s.top_idx;
	s.bottom_idx;
	s.full;
};

template<typename S, typename T, int N>
void any_stack(S &s) {
	if constexpr (has_fields<S>) {
		for (int i = 0; i < N; i++)
			s.data[i] = any<T>("el");
		s.top_idx = any_in<int>(0, N - 1, "top");
		s.bottom_idx = any_in<int>(0, N - 1, "bottom");
		s.full = any<bool>("full");
		VP_REQUIRES(imp(s.full, s.top_idx == s.bottom_idx));
	} else {
		int p = any_in<int>(0, 2 * N, "pushes");
		for (int i = 0; i < p; i++)
			s.push_back(any<T>("el"));
		int q = any_in<int>(0, N, "pops");
		for (int i = 0; i < q; i++)
			(void)s.pop_back();
	}
}
template<typename S, int N>
bool wf(S const &s) {
	if constexpr (has_fields<S>)
		return s.top_idx >= 0 & s.top_idx < N & s.bottom_idx >= 0 & s.bottom_idx < N & imp(s.full, s.top_idx == s.bottom_idx);
	else
		return true;
}
// k-th element from the top, seen by popping a copy
template<typename S>
auto from_top(S s, size_t k) {
	for (size_t i = 0; i < k; i++)
		(void)s.pop_back();
	return *s.back();
}

template<typename T, int N>
void init() {
	CircularStack<T, N> s;
	VP_REP("a new stack is well formed", wf<CircularStack<T, N>, N>(s));
	VP_ENSURES("a new stack is empty", s.empty() && s.size() == 0 && s.max_size() == N);
}

template<typename T, int N>
void push() {
	using S = CircularStack<T, N>;
	S s;
	any_stack<S, T, N>(s);
	S old = s;
	size_t n = s.size();
	T x = any<T>("x");
	size_t k = any_in<size_t>(1, N, "k");
	s.push_back(x);
	VP_REP("push keeps the representation well formed", wf<S, N>(s));
	VP_ENSURES("push: size grows by one up to the capacity", s.size() == (n < N ? n + 1 : N));
	VP_ENSURES("push: the new element is on top", s.back().has_value() && *s.back() == x);
	if (k < s.size())
		VP_ENSURES("push: the newest earlier elements stay in order", from_top(s, k) == from_top(old, k - 1));
}

template<typename T, int N>
void pop() {
	using S = CircularStack<T, N>;
	S s;
	any_stack<S, T, N>(s);
	S old = s, z = s;
	size_t n = s.size();
	VP_ENSURES("size is bounded by the capacity", n <= N);
	VP_ENSURES("empty iff size is zero", s.empty() == (n == 0));
	size_t k = any_in<size_t>(0, N, "k");
	auto peek = s.back();
	auto r = s.pop_back();
	auto rz = z.pop_back_or_zero();
	VP_REP("pop keeps the representation well formed", wf<S, N>(s) && wf<S, N>(z));
	VP_ENSURES("pop: nothing from an empty stack", r.has_value() == (n != 0) && peek.has_value() == (n != 0));
	VP_ENSURES("pop: size shrinks by one unless empty", s.size() == (n ? n - 1 : 0) && z.size() == s.size());
	if (n) {
		VP_ENSURES("pop: returns the top", *r == *peek && rz == *peek);
		if (k < n - 1)
			VP_ENSURES("pop: the rest is unchanged", from_top(s, k) == from_top(old, k + 1) && from_top(z, k) == from_top(s, k));
	} else
		VP_ENSURES("pop: zero from an empty stack", rz == T{});
}

template<typename T, int N>
void clear() {
	using S = CircularStack<T, N>;
	S s;
	any_stack<S, T, N>(s);
	s.clear();
	VP_REP("clear keeps the representation well formed", wf<S, N>(s));
	VP_ENSURES("clear: empty", s.empty() && s.size() == 0 && !s.pop_back().has_value());
}

#define ALL(tag, T, N)                                                                                                 \
	VP_CONTRACT(init_##tag) { init<T, N>(); }                                                                          \
	VP_CONTRACT(push_##tag) { push<T, N>(); }                                                                          \
	VP_CONTRACT(pop_##tag) { pop<T, N>(); }                                                                            \
	VP_CONTRACT(clear_##tag) { clear<T, N>(); }

ALL(u8_1, uint8_t, 1)
ALL(i32_3, int, 3)
ALL(pair_4, Pair, 4)
ALL(u16_7, uint16_t, 7)

// ---- a capacity beyond 2^16: any state, any content, one arbitrary element observed where it is stored
template<typename S, typename T, int N>
static T at(S const &s, size_t k) { // k-th element from the bottom
	return s.data[(size_t(s.bottom_idx) + k) % N];
}
template<typename T, int N>
static void large() {
	using S = CircularStack<T, N>;
	if constexpr (has_fields<S>) {
		S &s = *static_cast<S *>(vp_buffer(sizeof(S), "stack"));
		s.top_idx = any_in<int>(0, N - 1, "top");
		s.bottom_idx = any_in<int>(0, N - 1, "bottom");
		s.full = any<bool>("full");
		VP_REQUIRES(imp(s.full, s.top_idx == s.bottom_idx));
		size_t n = s.full ? N : (size_t(s.top_idx) + N - size_t(s.bottom_idx)) % N, k = any_in<size_t>(0, N - 1, "k");
		VP_ENSURES("large: size and empty tell the fill level", s.size() == n && s.empty() == (n == 0) && s.max_size() == N);
		T at_k = at<S, T, N>(s, k), next = at<S, T, N>(s, k + 1), top = at<S, T, N>(s, n - 1 + N), x = any<T>("x");
		auto peek = s.back();
		VP_ENSURES("large: back is the top", peek.has_value() == (n != 0) && (n == 0 || *peek == top));
		size_t want = n;
		switch (any_in<int>(0, 3, "operation")) {
			case 0:
				s.push_back(x);
				want = n < N ? n + 1 : N;
				VP_ENSURES("large: push: the new element is on top", at<S, T, N>(s, want - 1) == x);
				if (k + 1 < want)
					VP_ENSURES("large: push: the newest earlier elements stay in order", at<S, T, N>(s, k) == (n < N ? at_k : next));
				break;
			case 1: {
				auto r = s.pop_back();
				want = n ? n - 1 : 0;
				VP_ENSURES("large: pop: returns the top, nothing from an empty stack", r.has_value() == (n != 0) && (n == 0 || *r == top));
				break;
			}
			case 2:
				want = n ? n - 1 : 0;
				VP_ENSURES("large: pop_back_or_zero: returns the top, zero from an empty stack", s.pop_back_or_zero() == (n ? top : T{}));
				break;
			default:
				s.clear();
				want = 0;
		}
		VP_ENSURES("large: size afterwards", s.size() == want && s.empty() == (want == 0));
		if (k < want && want < n)
			VP_ENSURES("large: pop: the rest is unchanged", at<S, T, N>(s, k) == at_k);
		VP_REP("large: the representation stays well formed", wf<S, N>(s));
	}
}
VP_CONTRACT(large_u8) { large<uint8_t, 1u << 17>(); }
