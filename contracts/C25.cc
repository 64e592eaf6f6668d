// C25: tables and interpolation.
// vp: budget=400 hard_s=120
// vp-bounded grid.* the functions over the tables at evenly spaced arguments
// vp-opt (table|grid).* unroll=2100
// vp-opt (index|wrap|lookup|line|semi|pitch|pow|arr).* real=1
#include "vp.hh"
#include <cmath>
#include <cstdint>
#include <utility>
#include "util/interp_array.hh"
#include "util/lookup_table.hh"
#include "util/math.hh"
#include "util/math_tables.cc"

using namespace vp;

static float any_f(float lo, float hi, const char *n) {
	float f = any<float>(n);
	VP_REQUIRES((f >= lo) & (f <= hi));
	return f;
}
static constexpr float Lim = 1024.f;
template<unsigned N>
static InterpArray<float, N> any_table() {
	InterpArray<float, N> t{};
	for (unsigned i = 0; i < N; i++)
		t.data[i] = any_f(-Lim, Lim, "entry");
	return t;
}
// v lies between a and b, up to the rounding of values of that size
static bool between_(float v, float a, float b) {
	if (a <= b)
		return (v >= a - 0x1p-12f) & (v <= b + 0x1p-12f);
	return (v >= b - 0x1p-12f) & (v <= a + 0x1p-12f);
}

// --- InterpArray
template<unsigned N>
static void between_elements() {
	auto t = any_table<N>();
	for (unsigned i = 0; i < N; i++) {
		float at = t.interp_by_index(float(i)), atw = t.interp_by_index_wrap(float(i));
		VP_ENSURES("InterpArray: a whole index is that element", at == t.data[i]);
		VP_ENSURES("InterpArray: a whole index is that element, wrapping", atw == t.data[i]);
	}
	for (unsigned i = 0; i + 1 < N; i++) {
		float x = any_f(float(i), float(i + 1), "index");
		VP_REQUIRES(x < float(i + 1));
		float y = t.interp_by_index(x);
		VP_ENSURES("InterpArray: an index between two elements gives a value between them", between_(y, t.data[i], t.data[i + 1]));
	}
}
VP_CONTRACT(index_2) { between_elements<2>(); }
VP_CONTRACT_T(index_3) { between_elements<3>(); }

// Which elements make up the result?  The elements are the unit vectors, so that a result is the list of its weights.
template<unsigned N>
struct Mix {
	float w[N];
	friend Mix operator*(Mix a, float f) {
		for (auto &x : a.w)
			x = x * f;
		return a;
	}
	friend Mix operator*(float f, Mix a) { return a * f; }
	friend Mix operator+(Mix a, Mix b) {
		for (unsigned i = 0; i < N; i++)
			a.w[i] = a.w[i] + b.w[i];
		return a;
	}
	friend Mix operator-(Mix a, Mix b) { return a + b * -1.f; }
	Mix &operator+=(Mix b) { return *this = *this + b; }
	Mix &operator*=(float f) { return *this = *this * f; }
};
template<unsigned N>
static InterpArray<Mix<N>, N> units() {
	InterpArray<Mix<N>, N> t{};
	for (unsigned i = 0; i < N; i++)
		t.data[i].w[i] = 1.f;
	return t;
}
static bool near(float a, float b, float tol) { return (a >= b - tol) & (a <= b + tol); }

static uint32_t Steps, Round;
static uint64_t idx_at(uint64_t i, uint64_t) { return uint32_t(Steps - uint32_t(i) * Round); }
static bool turns(uint64_t i, uint64_t) { return (i <= Steps) & (i * Round <= Steps); }
// the index has no limit: element i of round r, counted from either side
template<unsigned N, bool Back>
static void wrap() {
	const auto t = units<N>();
	float d = any_f(Back ? 0x1p-30f : 0.f, 1 << 13, "distance"); // exact_*: 0
	unsigned rounds = any_in<unsigned>(0, 1 << 12, "rounds"), k = any_in<unsigned>(0, N - 1, "element");
	for (unsigned e = 0; e < N; e++)
		if (e == k) {
			unsigned steps = N * rounds + e;
			VP_REQUIRES(d >= float(steps));
			VP_REQUIRES(d < float(steps + 1));
			Steps = steps, Round = N;
			loop_inv(turns, 1);
			loop_terms(idx_at, 1);
			auto y = t.interp_by_index_wrap(Back ? -d : d);
			no_loop();
			float p = d - float(steps);
			unsigned a = Back ? (N - e) % N : e, b = Back ? (N - e + N - 1) % N : (e + 1) % N;
			for (unsigned i = 0; i < N; i++)
				VP_ENSURES("InterpArray: wrapping goes round and round, in both directions", near(y.w[i], i == a ? 1.f - p : i == b ? p : 0.f, 0x1p-22f));
		}
}
VP_CONTRACT_T(wrap_2) { wrap<2, false>(); }
VP_CONTRACT_T(wrap_2_back) { wrap<2, true>(); }
VP_CONTRACT(wrap_3) { wrap<3, false>(); }
VP_CONTRACT(wrap_3_back) { wrap<3, true>(); }

// by phase: 0 is the first element; 1 the last, or the first again when wrapping
static float tent(float at) {
	return at >= 0 ? (at <= 1 ? 1 - at : 0) : (at >= -1 ? 1 + at : 0);
}
template<unsigned N>
static void phases() {
	const auto t = units<N>();
	float p = any_f(0, 1, "phase");
	auto y = t.interp(p);
	for (unsigned i = 0; i < N; i++)
		VP_ENSURES("InterpArray: phase 0 to 1 goes from the first element to the last", near(y.w[i], tent(p * float(N - 1) - float(i)), 0x1p-18f));
}
VP_CONTRACT(semi_2) { phases<2>(); }
VP_CONTRACT(semi_3) { phases<3>(); }
VP_CONTRACT_T(semi_5) { phases<5>(); }
template<unsigned N, bool Back>
static void wrapped_phases() {
	const auto t = units<N>();
	float p = any_f(0, 1, "phase");
	auto w = t.interp_wrap(Back ? -p : p);
	float at = Back ? float(N) - p * float(N) : p * float(N);
	for (unsigned i = 1; i < N; i++)
		VP_ENSURES("InterpArray: wrapped phase 0 to 1 goes over all elements, in both directions", near(w.w[i], tent(at - float(i)), 0x1p-18f));
	VP_ENSURES("InterpArray: wrapped phase 0 and 1 are the first element", near(w.w[0], at <= 1 ? 1 - at : at >= float(N - 1) ? at - float(N - 1) : 0, 0x1p-18f));
}
VP_CONTRACT(semi_wrap_2) { wrapped_phases<2, false>(); }
VP_CONTRACT(semi_wrap_back_2) { wrapped_phases<2, true>(); }
VP_CONTRACT_T(semi_wrap_4) { wrapped_phases<4, false>(); }
VP_CONTRACT_T(semi_wrap_back_4) { wrapped_phases<4, true>(); }
template<unsigned N>
static void exact_phases() {
	auto t = any_table<N>();
	VP_ENSURES("InterpArray: phase 0 is the first element", t.interp(0.f) == t.data[0] && t.interp_wrap(0.f) == t.data[0] && t.closest(0.f) == t.data[0] && t.closest_wrap(0.f) == t.data[0]);
	VP_ENSURES("InterpArray: phase 1 is the last element", t.interp(1.f) == t.data[N - 1] && t.closest(1.f) == t.data[N - 1]);
	int r = any_in<int>(-65536, 65536, "rounds");
	Steps = N * (r < 0 ? -r : r), Round = N;
	loop_inv(turns, 1);
	loop_terms(idx_at, 1);
	float w = t.interp_wrap(float(r)), c = t.closest_wrap(float(r));
	no_loop();
	VP_ENSURES("InterpArray: a whole phase is the first element when wrapping", w == t.data[0] && c == t.data[0]);
	auto u = t;
	unsigned k = any_in<unsigned>(0, N - 1, "set"), j = any_in<unsigned>(0, N - 1, "read");
	float x = any_f(-Lim, Lim, "value");
	u.set(k, x);
	VP_ENSURES("InterpArray: set changes one element", u.get(j) == (j == k ? x : t.get(j)) && std::as_const(u)[j] == u.get(j) && u[j] == u.get(j));
}
VP_CONTRACT(exact_3) { exact_phases<3>(); }
VP_CONTRACT(exact_8) { exact_phases<8>(); }
// the element at or below the phase
template<unsigned N, bool Back>
static void closest() {
	InterpArray<unsigned, N> t{};
	for (unsigned i = 0; i < N; i++)
		t.data[i] = i;
	float p = any_f(0, 1, "phase");
	if constexpr (!Back) {
		unsigned c = t.closest(p);
		float x = p * float(N - 1);
		VP_ENSURES("InterpArray: closest is the element at or below the phase", float(c) <= x && x < float(c + 1) && c < N);
	}
	float d = any_f(0, 4096, "phase to wrap");
	float x = d * float(N);
	unsigned rounds = any_in<unsigned>(0, 4096, "rounds"), e = any_in<unsigned>(0, N - 1, "element");
	unsigned steps = N * rounds + e;
	if (Back) {
		VP_REQUIRES(x > float(steps) - 1);
		VP_REQUIRES(x <= float(steps));
	} else {
		VP_REQUIRES(x >= float(steps));
		VP_REQUIRES(x < float(steps + 1));
	}
	Steps = steps, Round = N;
	loop_inv(turns, 1);
	loop_terms(idx_at, 1);
	unsigned c = t.closest_wrap(Back ? -d : d);
	no_loop();
	VP_ENSURES("InterpArray: closest is the element at or below the phase when wrapping", c == (Back ? (e ? N - e : 0) : e));
}
VP_CONTRACT(arr_closest_4) { closest<4, false>(); }
VP_CONTRACT(arr_closest_3) { closest<3, false>(); }
VP_CONTRACT(arr_closest_back_3) { closest<3, true>(); }

// --- LookupTable
template<unsigned N>
static LookupTable<N, float> any_lookup(float lo, float hi) {
	std::array<float, N> p{};
	for (auto &x : p)
		x = any_f(-Lim, Lim, "point");
	return LookupTable<N, float>(lo, hi, p);
}
template<unsigned N>
static void lookup(const float lo, const float hi) {
	auto t = any_lookup<N>(lo, hi);
	float x = any_f(-1e6f, 1e6f, "value"), y = t.lookup(x);
	VP_ENSURES("LookupTable: at and below the range it is the first point", imp(x <= lo, y == t.points[0]));
	VP_ENSURES("LookupTable: at and above the range it is the last point", imp(x >= hi, y == t.points[N - 1]));
	VP_REQUIRES((x > lo) & (x < hi));
	float at = (x - lo) / (hi - lo) * (N - 1);
	unsigned k = any_in<unsigned>(0, N - 2, "point");
	for (unsigned i = 0; i + 1 < N; i++)
		if (i == k) {
			VP_REQUIRES(at >= float(i));
			VP_REQUIRES(at <= float(i + 1));
			VP_ENSURES("LookupTable: between two points it is between their values", between_(y, t.points[i], t.points[i + 1]));
			VP_ENSURES("LookupTable: calling it looks the value up", t(x) == y);
		}
}
VP_CONTRACT(lookup_2) { lookup<2>(0.f, 1.f); }
VP_CONTRACT(lookup_3) { lookup<3>(-0.2f, 0.2f); }
VP_CONTRACT(lookup_4) { lookup<4>(-5.f, 8.f); }
static float anything() {
	return any<float>("any value, also none");
}
VP_CONTRACT(any_value) {
	auto t = any_lookup<3>(-1.f, 3.f);
	float y = t.lookup(anything());
	VP_ENSURES("LookupTable: stays within the table, even for what is not a number", y == y);
}
// points in a row: what lies in between is on the line from one to the next
template<int... P>
static void polygon(const float lo, const float hi) {
	constexpr unsigned N = sizeof...(P);
	std::array<float, N> p{float(P)...};
	LookupTable<N, float> t(lo, hi, p);
	float x = any_f(lo, hi, "value");
	float at = (x - lo) / (hi - lo) * float(N - 1), y = t.lookup(x);
	for (unsigned i = 0; i + 1 < N; i++)
		VP_ENSURES("LookupTable: interpolates linearly", !((at >= float(i)) & (at <= float(i + 1))) || near(y, p[i] + (at - float(i)) * (p[i + 1] - p[i]), 0x1p-16f));
}
VP_CONTRACT(line_4) { polygon<1, 3, -4, 2>(0.f, 3.f); }
VP_CONTRACT(line_3) { polygon<0, 0, 5>(-0.5f, 0.5f); }
VP_CONTRACT(line_parts) {
	auto t = any_lookup<4>(-3.f, 0.f);
	for (int i = 0; i < 12; i++) {
		int k = i / 4, q = i % 4;
		float y = t.lookup(-3.f + 0.25f * i), want = t.points[k] * (1 - 0.25f * q) + t.points[k + 1] * (0.25f * q);
		VP_ENSURES("LookupTable: interpolates linearly", near(y, want, 0x1p-11f));
	}
}
struct Range {
	static constexpr float min = -3.f;
	static constexpr float max = 5.f;
};
VP_CONTRACT(generate) {
	static constinit auto sq = LookupTable<17>::generate<Range>([](auto x) { return x * x; });
	float worst = 0;
	for (unsigned i = 0; i < 17; i++)
		VP_ENSURES("LookupTable: generate evaluates the function at evenly spaced values", sq.points[i] == (-3.f + 0.5f * i) * (-3.f + 0.5f * i) && sq.lookup(-3.f + 0.5f * i) == sq.points[i]);
}

// --- the tables, entry by entry
static constexpr double Pi = 3.14159265358979323846;
VP_CONTRACT(table_sin) {
	for (unsigned i = 0; i < 2048; i++) {
		double want = std::sin(2 * Pi * i / 2048);
		double off = sinTable.data[i] - want;
		VP_ENSURES("sinTable: one period of the sine", off < 1e-6 && off > -1e-6);
	}
}
VP_CONTRACT(table_tan) {
	for (unsigned i = 0; i < 2048; i++)
		if (i != 1024) {
			double want = std::tan(Pi * i / 2048), off = tanTable.data[i] - want, tol = 1e-6 + 1e-7 * want * want;
			VP_ENSURES("tanTable: one period of the tangent", off < tol && off > -tol);
		}
}
VP_CONTRACT(table_exp5) {
	for (unsigned i = 0; i < 2048; i++) {
		double want = std::exp(std::log(2.) * 5 * i / 2047), off = exp5Table.data[i] - want, tol = 1e-6 * want;
		VP_ENSURES("exp5Table: five octaves", off < tol && off > -tol);
	}
}
VP_CONTRACT(table_exp10) {
	for (unsigned i = 0; i < 2048; i++) {
		double want = std::exp(std::log(2.) * 10 * i / 2047), off = exp10Table.data[i] - want, tol = 1e-6 * want;
		VP_ENSURES("exp10Table: ten octaves", off < tol && off > -tol);
	}
}
VP_CONTRACT(table_pow9) {
	for (unsigned i = 0; i < 2047; i++) {
		double x = i / 2047., x4 = x * x * x * x, hi = x4 * x4, v = pow9Table.data[i], w = pow9Table.data[i + 1];
		VP_ENSURES("pow9Table: rises from 0 to 1, below the eighth and above the ninth power", v <= w && v <= hi + 1e-6 && v >= hi * x - 1e-6);
	}
	VP_ENSURES("pow9Table: rises from 0 to 1, below the eighth and above the ninth power", pow9Table.data[0] == 0 && pow9Table.data[2047] == 1);
}
VP_CONTRACT(table_log) {
	for (unsigned i = 0; i < 2048; i++) {
		double want = std::log(20 + (20000. - 20) * i / 2047), off = logTable.data[i] - want;
		VP_ENSURES("logTable: the logarithm of 20 to 20000", off < 2e-6 && off > -2e-6);
	}
}

// --- functions over the tables, against the real function
static bool close(double got, double want, double tol) {
	double off = got - want;
	return off <= tol && off >= -tol;
}
VP_CONTRACT(grid_sin) {
	for (int i = -300; i <= 300; i++) {
		float x = i * 0.0625f;
		VP_ENSURES("sin: for any x", close(MathTools::sin(x), std::sin(double(x)), 2e-5));
		VP_ENSURES("cos: for any x", close(MathTools::cos(x), std::cos(double(x)), 2e-5));
		VP_ENSURES("sin01: one period from 0 to 1", close(MathTools::sin01(x), std::sin(2 * Pi * x), 2e-5));
		double c = MathTools::cos_close(x), want = std::cos(double(x));
		VP_ENSURES("cos_close: within one step of the table", close(c, want, 0.0032));
		double t = std::tan(double(x));
		if (t < 20 && t > -20) {
			VP_ENSURES("tan: for any x", close(MathTools::tan(x), t, 2e-5 + 2e-6 * (1 + t * t) * (1 + (t < 0 ? -t : t))));
			VP_ENSURES("tan_close: within one step of the table", close(MathTools::tan_close(x), t, 0.0017 * (1 + t * t) * 1.2));
		}
	}
}
VP_CONTRACT(grid_exp) {
	for (int i = -320; i <= 320; i++) {
		float x = i * 0.125f;
		double want = std::exp(std::log(2.) * x);
		VP_ENSURES("pow2: 2 to the x, for negative x as well", close(MathTools::pow2(x) / want, 1, 4e-6));
		float v = x / 32.f;
		double oct = v > 1 ? 5 : v < -1 ? -5 : 5. * v;
		VP_ENSURES("setPitchMultiple: 5 octaves up or down", close(MathTools::setPitchMultiple(v) / std::exp(std::log(2.) * oct), 1, 4e-6));
	}
}
VP_CONTRACT(grid_norm) {
	for (int i = 0; i <= 500; i++) {
		float f = i * 50.f;
		double g = f < 20 ? 20 : f > 20000 ? 20000 : f;
		VP_ENSURES("audioFreqToNorm: the place of a frequency between 20 and 20000 Hz, logarithmically", close(MathTools::audioFreqToNorm(f), std::log(g / 20) / std::log(1000.), f < 400 ? 0.01 : 1e-4));
	}
}
VP_CONTRACT(line_sine) {
	float x = any_f(0, 1, "phase"), y = MathTools::faster_sine(x);
	VP_ENSURES("faster_sine: stays between -1 and 1", y >= -1 && y <= 1);
	VP_ENSURES("faster_sine: first half below, second half above", x <= 0.5f ? y <= 0 : y >= 0);
	VP_ENSURES("faster_sine: 0, -1, 0, 1, 0", MathTools::faster_sine(0) == 0 && MathTools::faster_sine(0.25f) == -1 && MathTools::faster_sine(0.5f) == 0 && MathTools::faster_sine(0.75f) == 1 && MathTools::faster_sine(1) == 0);
}
VP_CONTRACT(index_interpolate) {
	float a = any_f(-Lim, Lim, "from"), b = any_f(-Lim, Lim, "to"), p = any_f(0, 1, "phase");
	float y = MathTools::interpolate(a, b, p);
	VP_ENSURES("interpolate: between both", between_(y, a, b));
	VP_ENSURES("interpolate: ends at both", MathTools::interpolate(a, b, 0) == a && MathTools::interpolate(a, b, 1) == b);
}
