// C21: StaticString.
#include "vp.hh"
#include "util/static_string.hh"

using namespace vp;

// text that a source of `n` readable characters denotes in a string of capacity `cap`: up to the first zero byte
static size_t text_len(const char *p, uint64_t n, size_t cap) {
	size_t k = 0;
	bool on = true;
	for (size_t i = 0; i < cap; i++) {
		on = on & (i < n) & (char(vp_byte(p, i)) != 0);
		k += on;
	}
	return k;
}
template<size_t C>
static bool holds(StaticString<C> const &s, const char *p, uint64_t n) {
	size_t len = text_len(p, n, C);
	bool ok = s._data[len] == 0;
	for (size_t i = 0; i < C; i++)
		ok = ok & imp(i < len, s._data[i] == char(vp_byte(p, i)));
	return ok & (s.length() == len) & (s.size() == len) & (s.available() == C - len) & (s.c_str() == s._data) & (s.data() == s._data);
}
template<size_t C>
static void any_string(StaticString<C> &s) {
	for (auto &c : s._data)
		c = any<char>("old");
	s._data[C] = 0;
}

template<size_t C>
static void from_view() {
	uint64_t n = any_in<uint64_t>(0, uint64_t(1) << 40, "length");
	char *p = static_cast<char *>(vp_buffer(n, "view"));
	std::string_view v{p, n};
	StaticString<C> s{v};
	VP_ENSURES("StaticString: constructed from a view: its text as far as it fits", s._data[C] == 0 || holds(s, p, n));
	VP_ENSURES("StaticString: constructed from a view: its text as far as it fits", holds(s, p, n));
	StaticString<C> t;
	VP_ENSURES("StaticString: starts empty", t.length() == 0 && t.available() == C);
	any_string(t);
	t.copy(v);
	VP_ENSURES("StaticString: copy of a view: its text as far as it fits", holds(t, p, n));
	std::string_view back = t;
	VP_ENSURES("StaticString: as view", back.data() == t.data() && back.size() == t.length());
	VP_ENSURES("StaticString: iteration covers the text", t.begin() == t.data() && size_t(t.end() - t.begin()) == t.length());
	t.clear();
	VP_ENSURES("StaticString: clear empties", t.length() == 0 && t.c_str()[0] == 0);
}
VP_CONTRACT(view_0) { from_view<0>(); }
VP_CONTRACT(view_1) { from_view<1>(); }
VP_CONTRACT(view_5) { from_view<5>(); }
VP_CONTRACT(view_8) { from_view<8>(); }

template<size_t C>
static void from_zstring() {
	uint64_t n = any_in<uint64_t>(0, uint64_t(1) << 40, "length");
	char *p = static_cast<char *>(vp_buffer(n + 1, "string"));
	VP_REQUIRES(vp_byte(p, n) == 0);
	StaticString<C> s{(const char *)p};
	VP_ENSURES("StaticString: constructed from a string: its text as far as it fits", holds(s, p, n));
	StaticString<C> t;
	any_string(t);
	t.copy((const char *)p);
	VP_ENSURES("StaticString: copy of a string: its text as far as it fits", holds(t, p, n));
	StaticString<C> volatile u{};
	u.copy((const char *)p);
	VP_ENSURES("StaticString: copy into a volatile string", holds(const_cast<StaticString<C> const &>(u), p, n));
}
VP_CONTRACT(zstring_0) { from_zstring<0>(); }
VP_CONTRACT(zstring_1) { from_zstring<1>(); }
VP_CONTRACT(zstring_5) { from_zstring<5>(); }
VP_CONTRACT(zstring_8) { from_zstring<8>(); }

template<size_t A, size_t B>
static void two() {
	StaticString<A> a;
	any_string(a);
	StaticString<B> b;
	any_string(b);
	// equal texts
	bool same = true, on = true;
	for (size_t i = 0; i <= (A < B ? B : A); i++) {
		char x = i <= A ? a._data[i] : 0, y = i <= B ? b._data[i] : 0;
		same = same & imp(on, x == y);
		on = on & (x != 0) & (y != 0);
	}
	VP_ENSURES("StaticString: == compares the texts", (a == b) == same);
	VP_ENSURES("StaticString: is_equal compares the texts", a.is_equal(b.c_str()) == same);
	StaticString<B> was = b;
	a.copy(b);
	VP_ENSURES("StaticString: copy of another one", holds(a, was._data, B + 1));
	StaticString<A> volatile v{};
	v.copy(b);
	VP_ENSURES("StaticString: copy into a volatile one", holds(const_cast<StaticString<A> const &>(v), was._data, B + 1));
	for (size_t i = 0; i <= B; i++)
		VP_ENSURES("StaticString: the source is unchanged", b._data[i] == was._data[i]);
}
VP_CONTRACT(two_4_4) { two<4, 4>(); }
VP_CONTRACT(two_2_5) { two<2, 5>(); }
VP_CONTRACT(two_5_2) { two<5, 2>(); }
VP_CONTRACT(two_3_0) { two<3, 0>(); }
VP_CONTRACT(two_0_3) { two<0, 3>(); }

// ---- any capacity up to 2^17, sources of any length: the copy loop by invariant, one arbitrary character observed
namespace big
{
static constexpr size_t C = 1u << 17;
static char *SRC, *DST;
static uint64_t N, L, J, K;
static uint8_t WAS;
// L is the length of the text: as far as it fits, and up to the first zero byte
static void text(uint64_t i) {
	vp_define(imp(i < L, vp_byte(SRC, i) != 0));
}
static bool inv(uint64_t i, uint64_t k) {
	text(i);
	if (k == 0)
		return i <= (N < C ? N : C);
	if (k == 1)
		return imp(J < i, vp_byte(DST, J) == vp_byte(SRC, J));
	if (k == 2)
		return imp(L < i, vp_byte(DST, L) == 0);
	if (k == 3)
		return i <= L;
	return vp_byte(SRC, K) == WAS;
}
template<int HOW>
static void copy() {
	N = any_in<uint64_t>(0, uint64_t(1) << 40, "length");
#ifdef VP_NATIVE
	N = N > 2 * C ? 2 * C : N; // for the witness search
#endif
	SRC = static_cast<char *>(vp_buffer(N + (HOW == 1), "source"));
#ifdef VP_NATIVE
	memset(SRC, 'x', N);
	if (HOW == 1)
		SRC[N] = 0;
#endif
	VP_REQUIRES(imp(HOW == 1, vp_byte(SRC, N) == 0));
	auto *s = static_cast<StaticString<C> *>(vp_buffer(sizeof(StaticString<C>), "string"));
	DST = s->_data;
	L = any_in<uint64_t>(0, N < C ? N : C, "text length");
	J = any_in<uint64_t>(0, C, "observed");
	K = any_in<uint64_t>(0, uint64_t(1) << 40, "elsewhere");
	WAS = vp_byte(SRC, K);
	// the fixed bound is reached, or the source ends, or has a zero byte
#ifdef VP_NATIVE
	if (L < C && L < N)
		SRC[L] = 0;
#endif
	VP_REQUIRES((L == C) | (L == N) | (vp_byte(SRC, L) == 0));
	text(J);
	loop_inv(inv, 5);
	if (HOW == 0)
		s->copy(std::string_view{SRC, N});
	else
		s->copy((const char *)SRC);
	no_loop();
	VP_ENSURES("StaticString, large: copies the text as far as it fits", imp(J < L, vp_byte(DST, J) == vp_byte(SRC, J)));
	VP_ENSURES("StaticString, large: the text ends where the copy ends", vp_byte(DST, L) == 0);
	VP_ENSURES("StaticString, large: the source is unchanged", vp_byte(SRC, K) == WAS);
}
} // namespace big
VP_CONTRACT(large_zstring) { big::copy<1>(); }
VP_CONTRACT(large_view) { big::copy<0>(); }
