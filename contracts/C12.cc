// C12: print() emits exactly the characters of its arguments.

// vp: divdef=1
#include "vp.hh"
#include "util/print.hh"

using namespace vp;

// what the sink has received: how many characters, the first few, and the one at an arbitrary position
static uint64_t sent;
static char head[24];
static uint64_t at;
static char seen;

static void sink(const char c) {
	if (sent < sizeof head)
		head[sent] = c;
	if (sent == at)
		seen = c;
	sent++;
}
static void start() {
	sent = 0;
	at = any<uint64_t>("at");
	seen = 0;
}

static constexpr uint64_t P10[12] = {1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull, 1000000000ull, 10000000000ull, 100000000000ull};

static unsigned digits(uint32_t m) {
	unsigned n = 1;
	for (unsigned k = 1; k < 10; k++)
		n += m >= P10[k];
	return n;
}
static bool all_digits(const char *p, unsigned n) {
	bool ok = true;
	for (unsigned i = 0; i < n; i++)
		ok = ok & (p[i] >= '0') & (p[i] <= '9');
	return ok;
}
static uint64_t number(const char *p, unsigned n) {
	uint64_t x = 0;
	for (unsigned i = 0; i < n; i++)
		x += uint64_t(p[i] - '0') * P10[n - 1 - i];
	return x;
}

template<unsigned D>
static void decimal_(bool neg) {
	int32_t v = any<int32_t>("value");
	uint32_t m = v < 0 ? 0u - uint32_t(v) : uint32_t(v);
	VP_REQUIRES((v < 0) == neg && digits(m) == D);
	start();
	printone<sink>(v);
	VP_ENSURES("print: a number takes its sign and digits", sent == D + neg);
	VP_ENSURES("print: sign", imp(neg, head[0] == '-'));
	VP_ENSURES("print: decimal digits", all_digits(head + neg, D));
	VP_ENSURES("print: the digits say the value", number(head + neg, D) == m);
}
template<unsigned D>
static void decimal() {
	if (any<bool>("negative"))
		decimal_<D>(true);
	else
		decimal_<D>(false);
}
VP_CONTRACT(decimal_1) { decimal<1>(); }
VP_CONTRACT(decimal_2) { decimal<2>(); }
VP_CONTRACT(decimal_3) { decimal<3>(); }
VP_CONTRACT(decimal_4) { decimal<4>(); }
VP_CONTRACT(decimal_5) { decimal<5>(); }
VP_CONTRACT(decimal_6) { decimal<6>(); }
VP_CONTRACT(decimal_7) { decimal<7>(); }
VP_CONTRACT(decimal_8) { decimal<8>(); }
VP_CONTRACT(decimal_9) { decimal<9>(); }
VP_CONTRACT(decimal_10) { decimal<10>(); }

VP_CONTRACT(hexadecimal) {
	uint32_t v = any<uint32_t>("value");
	start();
	printone<sink>(Hex{v});
	unsigned n = 1;
	for (unsigned k = 1; k < 8; k++)
		n += (v >> (4 * k)) != 0;
	VP_ENSURES("print: a hex number has no leading zeros", sent == n);
	for (unsigned i = 0; i < 8; i++)
		if (i < n) {
			unsigned d = (v >> (4 * (n - 1 - i))) & 15;
			VP_ENSURES("print: hex digits", head[i] == "0123456789ABCDEF"[d]);
		}
}

// ---- text: `A` is a zero-terminated string of LA characters, `B` a view of LB characters with anything behind it
static char *A, *B;
static uint64_t LA, LB, base;

static bool inv(uint64_t i, uint64_t k) {
	vp_define(imp(i < LA, vp_byte(A, i) != 0));
	if (k == 0)
		return sent == base + i;
	if (k == 1)
		return imp((at >= base) & (at < sent), seen == char(vp_byte(A, at - base)));
	return i <= LA;
}
static bool inv_b(uint64_t i, uint64_t k) {
	if (k == 0)
		return sent == base + i;
	if (k == 1)
		return imp((at >= base) & (at < sent), seen == char(vp_byte(B, at - base)));
	return i <= LB;
}
static uint64_t terms(uint64_t i, uint64_t k) {
	return k == 0 ? base + i : k == 1 ? LA - i : LB - i;
}
static const void *ptrs_a(uint64_t i, uint64_t) {
	return A + i;
}
static const void *ptrs_b(uint64_t i, uint64_t) {
	return B + i;
}

template<typename C>
static void zstring() {
	LA = any_in<uint64_t>(0, uint64_t(1) << 40, "length");
	A = static_cast<char *>(vp_buffer(LA + 1, "text"));
	VP_REQUIRES(vp_byte(A, LA) == 0);
#ifdef VP_NATIVE
	for (uint64_t i = 0; i < LA; i++)
		VP_REQUIRES(A[i] != 0);
#endif
	start();
	base = 0;
	VP_REQUIRES(imp(at < LA, vp_byte(A, at) != 0));
	loop_inv(inv, 3);
	loop_terms(terms, 3);
	loop_ptrs(ptrs_a, 1);
	printone<sink>((const C *)A);
	no_loop();
	VP_ENSURES("print: a string is sent up to its terminator", sent == LA);
	VP_ENSURES("print: a string's characters", imp(at < LA, seen == char(vp_byte(A, at))));
}
VP_CONTRACT(zstring_char) { zstring<char>(); }
VP_CONTRACT(zstring_uchar) { zstring<unsigned char>(); }

VP_CONTRACT(view) {
	LB = any_in<uint64_t>(0, uint64_t(1) << 40, "length");
	B = static_cast<char *>(vp_buffer(LB, "text"));
	start();
	base = 0;
	loop_inv(inv_b, 3);
	loop_terms(terms, 3);
	loop_ptrs(ptrs_b, 1);
	printone<sink>(std::string_view{B, LB});
	no_loop();
	VP_ENSURES("print: a view is sent to its end, zero bytes included", sent == LB);
	VP_ENSURES("print: a view's characters", imp(at < LB, seen == char(vp_byte(B, at))));
}

// ---- several arguments: one after the other
static void two(const char *a, int b, Hex c, std::string_view d) {
	print<sink>(a, b, c, d);
}
VP_CONTRACT(sequence) {
	char a[3] = {any<char>("a0"), any<char>("a1"), 0};
	char d[2] = {any<char>("d0"), any<char>("d1")};
	unsigned nd = any_in<unsigned>(0, 2, "nd");
	int b = any_in<int>(-9, 9, "b");
	unsigned c = any_in<unsigned>(0, 15, "c");
	start();
	two(a, b, Hex{c}, std::string_view{d, nd});
	unsigned k = 0;
	if (a[0]) {
		VP_ENSURES("print: first argument first", head[k++] == a[0]);
		if (a[1])
			VP_ENSURES("print: first argument first", head[k++] == a[1]);
	}
	if (b < 0)
		VP_ENSURES("print: second argument second", head[k++] == '-');
	VP_ENSURES("print: second argument second", head[k++] == '0' + (b < 0 ? -b : b));
	VP_ENSURES("print: third argument third", head[k++] == "0123456789ABCDEF"[c]);
	for (unsigned i = 0; i < nd; i++)
		VP_ENSURES("print: fourth argument fourth", head[k++] == d[i]);
	VP_ENSURES("print: nothing else is sent", sent == k);
}
