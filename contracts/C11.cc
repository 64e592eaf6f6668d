// C11: integers as decimal text.

// vp: divdef=1
#include "vp.hh"
#include "util/int_to_str.hh"
#include "util/int_to_str.cc"
#include <utility>

using namespace vp;

static constexpr uint64_t P10[12] = {1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull, 1000000000ull, 10000000000ull, 100000000000ull};

static uint32_t magnitude(int32_t v) {
	return v < 0 ? 0u - uint32_t(v) : uint32_t(v);
}
static unsigned digits(uint32_t m) {
	unsigned n = 1;
	for (unsigned k = 1; k < 10; k++)
		n += m >= P10[k];
	return n;
}

// what the text of `n` characters at `p` says, most significant digit first
static bool all_digits(const char *p, unsigned n) {
	bool ok = true;
	for (unsigned i = 0; i < n; i++)
		ok = ok && p[i] >= '0' && p[i] <= '9';
	return ok;
}
static uint64_t number(const char *p, unsigned n) {
	uint64_t x = 0;
	for (unsigned i = 0; i < n; i++)
		x += uint64_t(p[i] - '0') * P10[n - 1 - i];
	return x;
}

// magnitudes with `d` digits
static int32_t any_value(unsigned d, bool neg) {
	int32_t v = any<int32_t>("value");
	VP_REQUIRES((v < 0) == neg && digits(magnitude(v)) == d);
	return v;
}

template<unsigned D>
static void exact(bool neg) {
	int32_t v = any_value(D, neg);
	size_t n = any_in<size_t>(0, 1 << 20, "size");
	char *b = (char *)vp_buffer(n, "buf");
	size_t at = any<size_t>("at");
	uint8_t was = vp_byte(b, at);
	bool ok = int_to_str(v, std::span<char>{b, n});
	size_t need = D + neg + 1;
	VP_ENSURES("int_to_str: succeeds exactly when text and terminator fit", ok == (n >= need));
	VP_ENSURES("int_to_str: bytes behind the text are untouched", imp(at >= need, vp_byte(b, at) == was));
	if (ok) {
		VP_ENSURES("int_to_str: sign", imp(neg, b[0] == '-'));
		const char *t = b + neg;
		VP_ENSURES("int_to_str: terminated", t[D] == 0);
		VP_ENSURES("int_to_str: decimal digits", all_digits(t, D));
		VP_ENSURES("int_to_str: the digits say the value", number(t, D) == magnitude(v));
	}
}
template<unsigned D>
static void chop(bool neg, unsigned room) {
	// room: space for digits
	int32_t v = any_value(D, neg);
	size_t n = room >= D ? any_in<size_t>(D + neg + 1, 1 << 20, "size") : room + neg + 1;
	char *b = (char *)vp_buffer(n, "buf");
	size_t at = any<size_t>("at");
	uint8_t was = vp_byte(b, at);
	int_to_str_chop(v, std::span<char>{b, n});
	if (n < 2) {
		VP_ENSURES("chop: a buffer without room for text is left alone", vp_byte(b, at) == was);
		return;
	}
	unsigned k = room < D ? room : D;
	VP_ENSURES("chop: bytes behind the text are untouched", imp(at >= k + neg + 1, vp_byte(b, at) == was));
	VP_ENSURES("chop: sign", imp(neg, b[0] == '-'));
	const char *t = b + neg;
	VP_ENSURES("chop: terminated", t[k] == 0);
	VP_ENSURES("chop: decimal digits", all_digits(t, k));
	VP_ENSURES("chop: the digits are the last ones of the value", number(t, k) == magnitude(v) % P10[k]);
}
template<unsigned D>
static void chop_all() {
	bool neg = any<bool>("negative");
	unsigned room = any_in<unsigned>(0, D, "room");
	if (neg)
		for (unsigned r = 0; r <= D; r++) {
			if (r == room)
				chop<D>(true, r);
		}
	else
		for (unsigned r = 0; r <= D; r++)
			if (r == room)
				chop<D>(false, r);
}
template<unsigned D>
static void exact_all() {
	if (any<bool>("negative"))
		exact<D>(true);
	else
		exact<D>(false);
}

VP_CONTRACT(exact_1) { exact_all<1>(); }
VP_CONTRACT(exact_2) { exact_all<2>(); }
VP_CONTRACT(exact_3) { exact_all<3>(); }
VP_CONTRACT(exact_4) { exact_all<4>(); }
VP_CONTRACT(exact_5) { exact_all<5>(); }
VP_CONTRACT(exact_6) { exact_all<6>(); }
VP_CONTRACT(exact_7) { exact_all<7>(); }
VP_CONTRACT(exact_8) { exact_all<8>(); }
VP_CONTRACT(exact_9) { exact_all<9>(); }
VP_CONTRACT(exact_10) { exact_all<10>(); }
VP_CONTRACT(chop_1) { chop_all<1>(); }
VP_CONTRACT(chop_2) { chop_all<2>(); }
VP_CONTRACT(chop_3) { chop_all<3>(); }
VP_CONTRACT(chop_4) { chop_all<4>(); }
VP_CONTRACT(chop_5) { chop_all<5>(); }
VP_CONTRACT(chop_6) { chop_all<6>(); }
VP_CONTRACT(chop_7) { chop_all<7>(); }
VP_CONTRACT(chop_8) { chop_all<8>(); }
VP_CONTRACT(chop_9) { chop_all<9>(); }
VP_CONTRACT(chop_10) { chop_all<10>(); }

VP_CONTRACT(num_digits) {
	unsigned v = any<unsigned>("v");
	VP_ENSURES("num_digits: number of decimal digits", num_digits(v) == digits(v));
}
