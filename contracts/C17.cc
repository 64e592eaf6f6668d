// C17: integer arithmetic helpers.

// vp: divdef=1 stride=1
#include "vp.hh"
#include <cstdlib>
#include <cmath>
#include "util/math.hh"

using namespace vp;
using namespace MathTools;

// ---- powers of two
VP_CONTRACT(is_power_of_2_) {
	unsigned v = any<unsigned>("v");
	VP_ENSURES("is_power_of_2: exactly one bit set", is_power_of_2(v) == (std::popcount(v) == 1));
}
VP_CONTRACT(log2_floor_) {
	unsigned v = any<unsigned>("v");
	unsigned r = log2_floor(v);
	if (v == 0)
		VP_ENSURES("log2_floor: zero gives zero", r == 0);
	else
		VP_ENSURES("log2_floor: position of the highest bit", r < 32 && (v >> r) == 1);
}
template<typename T>
static void next_pow() {
	T v = any<T>("v");
	T r = next_power_of_2(v);
	constexpr T top = T(T(1) << (sizeof(T) * 8 - 1));
	if (v > top)
		VP_ENSURES("next_power_of_2: zero when it cannot be represented", r == 0);
	else {
		VP_ENSURES("next_power_of_2: a power of two", r != 0 && T(r & T(r - 1)) == 0);
		VP_ENSURES("next_power_of_2: not below the value", r >= v);
		VP_ENSURES("next_power_of_2: the smallest", r == 1 || T(r >> 1) < v);
	}
}
VP_CONTRACT(next_power_u8) { next_pow<uint8_t>(); }
VP_CONTRACT(next_power_u16) { next_pow<uint16_t>(); }
VP_CONTRACT(next_power_u32) { next_pow<uint32_t>(); }
VP_CONTRACT(next_power_u64) { next_pow<uint64_t>(); }

VP_CONTRACT(ipow_) {
	unsigned a = any<unsigned>("a");
	unsigned p = 1;
	for (unsigned b = 0; b <= 6; b++) {
		VP_ENSURES("ipow: product of b factors", ipow(a, b) == p);
		p *= a;
	}
	unsigned b = any_in<unsigned>(0, 40, "b");
	VP_ENSURES("ipow: powers of two", ipow(2, b) == (b < 32 ? 1u << b : 0u));
	VP_ENSURES("bipolar_type_range: largest signed value of that width",
			   bipolar_type_range(int8_t(a)) == 127 && bipolar_type_range(uint16_t(a)) == 32767 && bipolar_type_range(int32_t(a)) == 2147483647u);
}

// ---- wrapping
static uint64_t V0, STEP;
static int64_t LO, HI;
static bool winv(uint64_t i, uint64_t k) {
	if (k == 0)
		return (i <= (uint64_t(1) << 32)) & (i * STEP <= V0);
	// no more rounds than needed
	uint64_t d = uint64_t(k == 1 ? int64_t(V0) - HI : LO - int64_t(V0));
	return (i == 0) | ((int64_t(d) > 0) & (i <= (uint64_t(1) << 50)) & (i * STEP < d + STEP));
}
static uint64_t wterms(uint64_t i, uint64_t k) {
	return k == 0 ? V0 - STEP * i : V0 + STEP * i;
}
template<uint32_t Max, typename T>
static void wrap_() {
	T v = any<T>("v");
	V0 = v;
	STEP = Max;
	loop_inv(winv, 1);
	loop_terms(wterms, 1);
	T r = wrap<Max, T>(v);
	no_loop();
	VP_ENSURES("wrap<Max>: remainder", r == v % Max);
}
VP_CONTRACT(wrap_5) { wrap_<5, uint32_t>(); }
VP_CONTRACT(wrap_1) { wrap_<1, uint32_t>(); }
VP_CONTRACT(wrap_12) { wrap_<12, uint32_t>(); }
VP_CONTRACT(wrap_1000) { wrap_<1000, uint32_t>(); }
VP_CONTRACT(wrap_4096) { wrap_<4096, uint64_t>(); }
VP_CONTRACT(wrap_big) { wrap_<0x80000001, uint32_t>(); }

template<typename T, T Min, T Max>
static void wrap_range() {
	constexpr T lim = T(1) << (sizeof(T) == 8 ? 40 : sizeof(T) * 8 - 3);
	T v = any_in<T>(-lim, lim, "v");
	constexpr T range = Max - Min + 1;
	V0 = uint64_t(int64_t(v));
	STEP = range;
	LO = Min;
	HI = Max;
	loop_inv(winv, 3);
	loop_terms(wterms, 2);
	T r = wrap<T>(v, Min, Max);
	no_loop();
	VP_ENSURES("wrap(min, max): inside the range", r >= Min && r <= Max);
	VP_ENSURES("wrap(min, max): moved by whole ranges", (int64_t(v) - int64_t(r)) % range == 0);
	VP_ENSURES("wrap(min, max): values inside the range stay", imp(v >= Min && v <= Max, r == v));
}
VP_CONTRACT(wrap_range_1_2) { wrap_range<int, 1, 2>(); }
VP_CONTRACT(wrap_range_0_11) { wrap_range<int, 0, 11>(); }
VP_CONTRACT(wrap_range_m5_5) { wrap_range<int, -5, 5>(); }
VP_CONTRACT(wrap_range_0_0) { wrap_range<int, 0, 0>(); }
VP_CONTRACT(wrap_range_m1000) { wrap_range<int, -1000, -901>(); }
VP_CONTRACT(wrap_range_64) { wrap_range<int64_t, -24, 23>(); }

// ---- selection
template<typename T>
static void select() {
	T a = any<T>("a"), b = any<T>("b"), c = any<T>("c");
	VP_ENSURES("max: the larger", max(a, b) == (a > b ? a : b) && max(a, b) >= a && max(a, b) >= b);
	VP_ENSURES("min: the smaller", min(a, b) == (a < b ? a : b) && min(a, b) <= a && min(a, b) <= b);
	if (b <= c) {
		T r = constrain(a, b, c);
		VP_ENSURES("constrain: inside the limits", r >= b && r <= c);
		VP_ENSURES("constrain: values inside stay", imp(a >= b && a <= c, r == a));
		VP_ENSURES("constrain: values outside go to the near limit", imp(a < b, r == b) && imp(a > c, r == c));
	}
}
VP_CONTRACT(select_int) { select<int>(); }
VP_CONTRACT(select_u8) { select<uint8_t>(); }
VP_CONTRACT(select_i64) { select<int64_t>(); }
VP_CONTRACT(select_float) {
	float a = any<float>("a"), b = any<float>("b"), c = any<float>("c");
	VP_REQUIRES(a == a && b <= c);
	VP_ENSURES("max: the larger", max(a, b) >= a && max(a, b) >= b && (max(a, b) == a || max(a, b) == b));
	VP_ENSURES("min: the smaller", min(a, b) <= a && min(a, b) <= b && (min(a, b) == a || min(a, b) == b));
	float r = constrain(a, b, c);
	VP_ENSURES("constrain: inside the limits", r >= b && r <= c);
	VP_ENSURES("constrain: values inside stay", imp(a >= b && a <= c, r == a));
	VP_ENSURES("constrain: values outside go to the near limit", imp(a < b, r == b) && imp(a > c, r == c));
}
template<typename T>
static void between_() {
	T x = any<T>("x"), lo = any<T>("low"), hi = any<T>("high");
	VP_REQUIRES(x < 0 || lo >= 0 || x <= std::numeric_limits<T>::max() + lo); // the distance can be represented
	auto r = between(x, lo, hi);
	VP_ENSURES("between: a value exactly inside the limits", r.has_value() == (x >= lo && x <= hi));
	if (r.has_value())
		VP_ENSURES("between: distance from the lower limit", *r == T(x - lo));
}
VP_CONTRACT(between_int) { between_<int>(); }
VP_CONTRACT(between_u32) {
	uint32_t x = any<uint32_t>("x"), lo = any<uint32_t>("low"), hi = any<uint32_t>("high");
	auto r = between(x, lo, hi);
	VP_ENSURES("between: a value exactly inside the limits", r.has_value() == (x >= lo && x <= hi));
	if (r.has_value())
		VP_ENSURES("between: distance from the lower limit", *r == x - lo);
}

// ---- differences
VP_CONTRACT(differences) {
	uint32_t a = any<uint32_t>("a"), b = any<uint32_t>("b");
	uint64_t d = a > b ? uint64_t(a) - b : uint64_t(b) - a;
	VP_ENSURES("abs_diff: distance", abs_diff(a, b) == d);
	VP_ENSURES("diff: distance", diff(a, b) == d);
	int32_t x = any<int32_t>("x"), y = any<int32_t>("y");
	int64_t e = int64_t(x) - y;
	VP_REQUIRES(e <= INT32_MAX && -e <= INT32_MAX);
	VP_ENSURES("abs_diff: distance of signed values", abs_diff(x, y) == (e < 0 ? -e : e));
	VP_ENSURES("diff: distance of signed values", diff(x, y) == (e < 0 ? -e : e));
}
VP_CONTRACT(plateau_) {
	int32_t v = any_in<int32_t>(-(1 << 29), 1 << 29, "v"), c = any_in<int32_t>(-(1 << 29), 1 << 29, "center");
	uint32_t w = any_in<uint32_t>(0, 1 << 29, "width");
	int64_t lo = int64_t(c) - w / 2, hi = int64_t(c) + w / 2;
	int32_t r = plateau(v, w, c);
	VP_ENSURES("plateau: zero inside", imp(v >= lo && v <= hi, r == 0));
	VP_ENSURES("plateau: distance from the edge above", imp(v > hi, r == v - hi));
	VP_ENSURES("plateau: distance from the edge below", imp(v < lo, r == v - lo));
	VP_ENSURES("plateau<60>: width and center of the template", MathTools::plateau<60, 7>(v) == plateau(v, 60, 7));
}

// ---- mapping and interpolation
template<int InMin, int InMax, int OutMin, int OutMax>
static void map_int() {
	int x = any_in<int>(InMin, InMax, "x");
	int r = map_value<int, int, int>(x, InMin, InMax, OutMin, OutMax);
	int64_t exact = int64_t(x - InMin) * (OutMax - OutMin), off = int64_t(r - OutMin) * (InMax - InMin);
	int64_t d = exact - off;
	VP_ENSURES("map_value: the exact value rounded towards the start", (d < 0 ? -d : d) < InMax - InMin && imp(OutMax >= OutMin, d >= 0) && imp(OutMax <= OutMin, d <= 0));
	VP_ENSURES("map_value: ends map to ends", imp(x == InMin, r == OutMin) && imp(x == InMax, r == OutMax));
	VP_ENSURES("map_value: inside the output range", (r >= OutMin && r <= OutMax) || (r <= OutMin && r >= OutMax));
}
VP_CONTRACT(map_4095_127) { map_int<0, 4095, 0, 127>(); }
VP_CONTRACT(map_falling) { map_int<0, 4095, 1000, -1000>(); }
VP_CONTRACT(map_negative) { map_int<-300, 300, -7, 12345>(); }
VP_CONTRACT(map_up) { map_int<3, 10, -32768, 32767>(); }

static int32_t rnd;
extern "C" int rand() noexcept {
	return rnd;
}
template<typename T>
static void random_() {
	rnd = any_in<int>(0, RAND_MAX, "rand");
	T lo = any_in<T>(-1000, 1000, "min"), hi = any_in<T>(-1000, 1000, "max");
	VP_REQUIRES(lo <= hi);
	T r = randomNumber<T>(lo, hi);
	VP_ENSURES("randomNumber: inside the range whatever the generator yields", r >= lo && r <= hi);
	VP_ENSURES("randomNumber: both ends can come", imp(rnd == 0, r == lo) && imp(rnd == RAND_MAX, r == hi));
}
VP_CONTRACT(random_int) { random_<int>(); }

template<uint32_t Max>
static void interpolate_() {
	int32_t a = any<int32_t>("in1"), b = any<int32_t>("in2"), p = any_in<int32_t>(0, Max, "phase");
	int32_t r = interpolate<Max>(a, b, p);
	int64_t exact = int64_t(b) * p + int64_t(a) * (int64_t(Max) - p);
	VP_ENSURES("interpolate<Max>: exact value rounded towards zero", r == exact / int64_t(Max));
}
template<uint32_t Max, int P>
static void interpolate_at() {
	int32_t a = any<int32_t>("in1"), b = any<int32_t>("in2");
	int32_t r = interpolate<Max>(a, b, P);
	VP_ENSURES("interpolate<Max>: ends", imp(P == 0, r == a) && imp(P == Max, r == b));
	VP_ENSURES("interpolate<Max>: between the two values", (r >= a && r <= b) || (r <= a && r >= b));
}
VP_CONTRACT(interpolate_100) { interpolate_<100>(); }
VP_CONTRACT(interpolate_4096) { interpolate_<4096>(); }
VP_CONTRACT(interpolate_ends) {
	interpolate_at<100, 0>();
	interpolate_at<100, 1>();
	interpolate_at<100, 50>();
	interpolate_at<100, 99>();
	interpolate_at<100, 100>();
	interpolate_at<4096, 0>();
	interpolate_at<4096, 1365>();
	interpolate_at<4096, 4096>();
}

// ---- classification of floats
VP_CONTRACT(classify) {
	float f = any<float>("f");
	uint32_t b = std::bit_cast<uint32_t>(f);
	VP_ENSURES("is_finite_fastmath: neither infinite nor NaN", is_finite_fastmath(f) == ((b & 0x7fffffff) < 0x7f800000));
	VP_ENSURES("is_inf_fastmath: plus or minus infinity", is_inf_fastmath(f) == ((b & 0x7fffffff) == 0x7f800000));
	if (f == f)
		VP_ENSURES("f_abs: magnitude", f_abs(f) >= 0.f && (f_abs(f) == f || f_abs(f) == -f));
}
