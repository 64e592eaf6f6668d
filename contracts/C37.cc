// C37: signal analysis.
#include "vp.hh"
#include "util/analyzed_signal.hh"

using namespace vp;

template<typename T>
static T any_num(const char *n) {
	T x = any<T>(n);
	VP_REQUIRES(x == x);
	if constexpr (std::is_floating_point_v<T>)
		VP_REQUIRES(x >= std::numeric_limits<T>::lowest() && x <= std::numeric_limits<T>::max());
	return x;
}
template<typename T>
static void peak() {
	PeakMeter<T> p;
	T a = any_num<T>("a"), b = any_num<T>("b"), c = any_num<T>("c");
	p.update(a);
	VP_ENSURES("PeakMeter: after one value both peaks are that value", p.min == a && p.max == a);
	p.update(b);
	p.update(c);
	T lo = a < b ? a : b, hi = a < b ? b : a;
	lo = lo < c ? lo : c;
	hi = hi < c ? c : hi;
	VP_ENSURES("PeakMeter: smallest and largest of all values", p.min == lo && p.max == hi);
	// one step from any state
	PeakMeter<T> q;
	q.min = any_num<T>("min"), q.max = any_num<T>("max");
	T m0 = q.min, m1 = q.max;
	q.update(a);
	VP_ENSURES("PeakMeter: one step", q.min == (a < m0 ? a : m0) && q.max == (a > m1 ? a : m1));
	q.reset();
	q.update(b);
	VP_ENSURES("PeakMeter: reset forgets", q.min == b && q.max == b);
}
VP_CONTRACT(peak_u8) { peak<uint8_t>(); }
VP_CONTRACT(peak_i16) { peak<int16_t>(); }
VP_CONTRACT(peak_i32) { peak<int32_t>(); }
VP_CONTRACT(peak_f) { peak<float>(); }

VP_CONTRACT(extremes) {
	AnalyzedSig s{any_between<float>(0.f, 1.f, "coef")};
	float a = any_within<float>(1e30f, "a"), b = any_within<float>(1e30f, "b");
	s.update(a);
	VP_ENSURES("AnalyzedSig: after one value both extremes are that value", s.min == a && s.max == a);
	s.min = any_within<float>(1e30f, "min"), s.max = any_within<float>(1e30f, "max");
	float m0 = s.min, m1 = s.max;
	s.update(b);
	VP_ENSURES("AnalyzedSig: smallest and largest of all values", s.min == (b < m0 ? b : m0) && s.max == (b > m1 ? b : m1));
	s.reset_to(a);
	VP_ENSURES("AnalyzedSig: reset starts from the given value", s.min == a && s.max == a && s.iir == a && s.avg == a);
	s.update(a);
	VP_ENSURES("AnalyzedSig: a constant signal stays constant", s.min == a && s.max == a && s.iir == a && s.avg == a);
}
template<uint32_t C>
static void iir() {
	AnalyzedSignal<C> s;
	float from = any_within<float>(1e6f, "from"), to = any_within<float>(1e6f, "to");
	s.reset_to(from);
	s.update(to);
	VP_ENSURES("AnalyzedSignal: the average moves towards the new value, never away from it", imp(to >= from, s.iir >= from) && imp(to <= from, s.iir <= from));
	VP_ENSURES("AnalyzedSignal: the average does not move beyond the new value", imp(to >= from, s.iir <= to) && imp(to <= from, s.iir >= to));
	VP_ENSURES("AnalyzedSignal: average and filter agree", s.avg == s.iir);
}
VP_CONTRACT(iir_4) { iir<4>(); }
VP_CONTRACT(iir_128) { iir<128>(); }
VP_CONTRACT(iir_100) { iir<100>(); }
