// C38: calibration.
// vp: budget=400
// vp-opt (points|voct_f).* real=1
#include "vp.hh"
#include "util/calibrator.hh"
#include <type_traits>
#include <utility>
#include "util/voct_calibrator.hh"

using namespace vp;

// --- VoctCalibrator: an oscillator that is off by OFF at C0 and rises by SLOPE per octave
template<typename T>
struct Osc {
	T off, slope;
	T at(int octave) const { return off + slope * T(octave); }
};
template<typename T, int LIM>
static Osc<T> any_osc(const char *n) {
	int o = any_in<int>(-LIM, LIM, n), s = any_in<int>(-LIM, LIM, "slope");
	return {T(o), T(s)};
}
template<typename T>
static T any_small(int lim, const char *n) {
	return T(any_in<int>(-lim, lim, n));
}
template<typename T, int LIM, int A>
static void voct(const int b) {
	using V = VoctCalibrator<T>;
	using Note = typename V::Note;
	V v;
	VP_ENSURES("VoctCalibrator: starts without slope and offset", v.slope() == 0 && v.offset() == 0);
	// earlier measurements, not of C0; C0 only on request
	constexpr unsigned n = A % 3; // earlier measurements
	bool zero = any<bool>("C0 was measured");
	T c0 = any_small<T>(LIM, "C0");
	if (zero)
		v.record_measurement(Note::C0, c0);
	VP_ENSURES("VoctCalibrator: one measurement gives no slope", v.slope() == 0);
	VP_ENSURES("VoctCalibrator: a measurement of C0 is the offset", v.offset() == (zero ? c0 : T(0)));
	for (unsigned i = 0; i < n; i++) {
		v.record_measurement(Note(1 + (3 * A + 4 * i) % 10), any_small<T>(LIM, "measured before"));
	}
	if (zero)
		VP_ENSURES("VoctCalibrator: a measured C0 is kept as the offset", v.offset() == c0);
	T s0 = v.slope(), o0 = v.offset();
	v.record_measurement(Note::None, any_small<T>(LIM, "of nothing"));
	VP_ENSURES("VoctCalibrator: no note: no measurement", v.slope() == s0 && v.offset() == o0);
	// two measurements of one oscillator
	auto osc = any_osc<T, LIM>("offset");
	constexpr int a = A;
	VP_REQUIRES(osc.slope != 0);
	v.record_measurement(Note(a), osc.at(a));
	v.record_measurement(Note(b), osc.at(b));
	VP_ENSURES("VoctCalibrator: two notes of an oscillator give its slope, whatever was measured before", v.slope() == osc.slope);
	VP_ENSURES("VoctCalibrator: two notes of an oscillator give its offset unless C0 was measured", v.offset() == (zero ? c0 : osc.off));
	v.record_measurement(Note(b), osc.at(b));
	VP_ENSURES("VoctCalibrator: the same note again changes nothing", v.slope() == osc.slope && v.offset() == (zero ? c0 : osc.off));
	v.record_measurement(Note::C0, osc.at(0));
	VP_ENSURES("VoctCalibrator: with C0 measured the offset is what was measured", v.offset() == osc.off && v.slope() == osc.slope);
	v.reset();
	VP_ENSURES("VoctCalibrator: reset forgets", v.slope() == 0 && v.offset() == 0);
	T late = any_small<T>(LIM, "after reset");
	v.record_measurement(Note(a), late);
	VP_ENSURES("VoctCalibrator: reset forgets the measurements", v.slope() == 0 && v.offset() == 0);
	v.record_measurement(Note(b), late + T(b - a));
	VP_ENSURES("VoctCalibrator: after reset, C0 is extrapolated again", v.slope() == 1 && v.offset() == late - T(a));
}
// every pair of octaves, as constants
template<typename T, int LIM, int A>
static void voct_all() {
	int b = any_in<int>(1, 10, "other octave");
	VP_REQUIRES(b != A);
	for (int i = 1; i <= 10; i++)
		if (i != A && b == i)
			voct<T, LIM, A>(i);
}
VP_CONTRACT(voct_i32_1) { voct_all<int32_t, 1 << 20, 1>(); }
VP_CONTRACT(voct_f_1) { voct_all<float, 1 << 10, 1>(); }
VP_CONTRACT_T(voct_i32_2) { voct_all<int32_t, 1 << 20, 2>(); }
VP_CONTRACT_T(voct_f_2) { voct_all<float, 1 << 10, 2>(); }
VP_CONTRACT_T(voct_i32_3) { voct_all<int32_t, 1 << 20, 3>(); }
VP_CONTRACT_T(voct_f_3) { voct_all<float, 1 << 10, 3>(); }
VP_CONTRACT_T(voct_i32_4) { voct_all<int32_t, 1 << 20, 4>(); }
VP_CONTRACT_T(voct_f_4) { voct_all<float, 1 << 10, 4>(); }
VP_CONTRACT_T(voct_i32_5) { voct_all<int32_t, 1 << 20, 5>(); }
VP_CONTRACT_T(voct_f_5) { voct_all<float, 1 << 10, 5>(); }
VP_CONTRACT(voct_i32_6) { voct_all<int32_t, 1 << 20, 6>(); }
VP_CONTRACT(voct_f_6) { voct_all<float, 1 << 10, 6>(); }
VP_CONTRACT_T(voct_i32_7) { voct_all<int32_t, 1 << 20, 7>(); }
VP_CONTRACT_T(voct_f_7) { voct_all<float, 1 << 10, 7>(); }
VP_CONTRACT_T(voct_i32_8) { voct_all<int32_t, 1 << 20, 8>(); }
VP_CONTRACT_T(voct_f_8) { voct_all<float, 1 << 10, 8>(); }
VP_CONTRACT_T(voct_i32_9) { voct_all<int32_t, 1 << 20, 9>(); }
VP_CONTRACT_T(voct_f_9) { voct_all<float, 1 << 10, 9>(); }
VP_CONTRACT(voct_i32_10) { voct_all<int32_t, 1 << 20, 10>(); }
VP_CONTRACT_T(voct_f_10) { voct_all<float, 1 << 10, 10>(); }

// --- Calibrator
VP_CONTRACT(line) {
	float slope = any<float>("slope"), off = any<float>("offset"), x = any<float>("x");
	Calibrator unit;
	VP_REQUIRES(x == x);
	VP_ENSURES("Calibrator: leaves values alone until calibrated", unit.adjust(x) == x && unit.reverse_calibrate(x) == x && unit.slope() == 1.f && unit.offset() == 0.f);
	VP_REQUIRES(slope == slope && off == off);
	Calibrator c{slope, off}, d;
	d.set_slope_offset(slope, off);
	VP_ENSURES("Calibrator: holds slope and offset", c.slope() == slope && c.offset() == off && d.slope() == slope && d.offset() == off);
	VP_REQUIRES(off > -1e6f && off < 1e6f && slope > 1e-3f && slope < 1e3f && x > -1e6f && x < 1e6f);
	VP_ENSURES("Calibrator: the offset is adjusted to zero", c.adjust(off) == 0.f);
	VP_ENSURES("Calibrator: zero is reversed to the offset", c.reverse_calibrate(0.f) == off);
	VP_ENSURES("Calibrator: above the offset is positive, below is negative", imp(x > off && x - off > 1e-30f, c.adjust(x) > 0.f) && imp(x < off && off - x > 1e-30f, c.adjust(x) < 0.f));
}
// Values for which no float operation rounds: integers, and spans that are powers of two
template<int SPAN, int RISE>
static void points() {
	constexpr int LIM = 1 << 11;
	int t = any_in<int>(-LIM, LIM, "low target"), m = any_in<int>(-LIM, LIM, "low measurement"), k = any_in<int>(-LIM, LIM, "x");
	float tl = float(t), th = float(t + RISE), ml = float(m), mh = float(m + SPAN);
	Calibrator c{std::pair{tl, th}, std::pair{ml, mh}}, d;
	d.calibrate_chan(tl, th, ml, mh);
	VP_ENSURES("Calibrator: all ways to calibrate agree", c.slope() == d.slope() && c.offset() == d.offset());
	VP_ENSURES("Calibrator: the slope is rise over span", c.slope() == float(RISE) / float(SPAN));
	VP_ENSURES("Calibrator: the measurements are adjusted to their targets", c.adjust(ml) == tl && c.adjust(mh) == th);
	VP_ENSURES("Calibrator: the targets are reversed to their measurements", c.reverse_calibrate(tl) == ml && c.reverse_calibrate(th) == mh);
	VP_ENSURES("Calibrator: reverse undoes adjust", c.reverse_calibrate(c.adjust(float(k))) == float(k));
}
VP_CONTRACT(points_1_1) { points<1, 1>(); }
VP_CONTRACT(points_4_1) { points<4, 1>(); }
VP_CONTRACT(points_2_8) { points<2, 8>(); }
VP_CONTRACT(points_16_m4) { points<16, -4>(); }
VP_CONTRACT(points_m2_4) { points<-2, 4>(); }
