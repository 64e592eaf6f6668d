// C34: parameters that remember whether they changed.
#include "vp.hh"
#include "util/parameter.hh"
#include "util/rotary_motion.hh"

using namespace vp;

template<typename T>
static bool is_nan(T x) {
	return x != x;
}
// --- Parameter: any state is a value and a pending change
template<typename T>
static void parameter() {
	T v = any<T>("value"), a = any<T>("a"), b = any<T>("b");
	VP_REQUIRES(!is_nan(v) && !is_nan(a) && !is_nan(b));
	Parameter<T> d;
	VP_ENSURES("Parameter: starts at zero, as changed", d.getValue() == T(0) && d.isChanged() && !d.isChanged());
	Parameter<T> p{v};
	VP_ENSURES("Parameter: starts with its value, as changed", p.getValue() == v && T(p) == v);
	bool pending = any<bool>("pending");
	if (!pending)
		VP_ENSURES("Parameter: reports the first value once", p.isChanged());
	p.setValue(a);
	VP_ENSURES("Parameter: holds what was set", p.getValue() == a && T(p) == a);
	VP_ENSURES("Parameter: reports a change, once, exactly if a value was different", p.isChanged() == (pending || a != v) && !p.isChanged());
	p.setValue(b);
	p = a;
	VP_ENSURES("Parameter: remembers a change that was undone", p.getValue() == a && p.isChanged() == (b != a) && !p.isChanged());
}
VP_CONTRACT(parameter_u8) { parameter<uint8_t>(); }
VP_CONTRACT(parameter_i32) { parameter<int32_t>(); }
VP_CONTRACT(parameter_f) { parameter<float>(); }

// --- RefParameter
template<typename T>
static void ref() {
	T outside = any<T>("value"), a = any<T>("a"), b = any<T>("b");
	VP_REQUIRES(!is_nan(outside) && !is_nan(a) && !is_nan(b));
	T v = outside;
	RefParameter<T> p{outside};
	VP_ENSURES("RefParameter: reads the referenced value", p.getValue() == v && T(p) == v);
	VP_ENSURES("RefParameter: changed from zero, reported once", p.isChanged() == (v != T(0)) && !p.isChanged());
	outside = a;
	VP_ENSURES("RefParameter: sees changes from outside", p.getValue() == a && p.isChanged() == (a != v) && !p.isChanged());
	p.setValue(b);
	VP_ENSURES("RefParameter: writes the referenced value", outside == b);
	p = a;
	VP_ENSURES("RefParameter: a change that was undone is none", outside == a && !p.isChanged());
	p = b;
	VP_ENSURES("RefParameter: reports a change, once, exactly if the value differs from the last report", p.isChanged() == (a != b) && !p.isChanged());
}
VP_CONTRACT(ref_u16) { ref<uint16_t>(); }
VP_CONTRACT(ref_f) { ref<float>(); }

// --- LatchedParam
template<typename T, unsigned NUM, unsigned DEN>
static void latched(T lo, T hi) {
	LatchedParam<T, NUM, DEN> p;
	VP_ENSURES("LatchedParam: starts at zero, unchanged", T(p) == T(0) && !p.did_change());
	T v = any_in<T>(lo, hi, "value"), a = any_in<T>(lo, hi, "a");
	p = v;
	VP_ENSURES("LatchedParam: assigning a value is not a change", T(p) == v && !p.did_change());
	T min = T(NUM) / T(DEN), d = T(a > v ? a - v : v - a);
	bool stored = p.store_changed(a);
	VP_ENSURES("LatchedParam: stores a value exactly if it is far enough from the stored one", stored == (d >= min) && T(p) == (stored ? a : v));
	bool pending = any<bool>("pending");
	if (!pending)
		VP_ENSURES("LatchedParam: reports the change once", p.did_change() == stored && !p.did_change());
	LatchedParam<T, NUM, DEN> q;
	q = p;
	VP_ENSURES("LatchedParam: a copy has value and pending change", T(q) == T(p) && q.did_change() == (pending && stored));
	T now = T(p), b = any_in<T>(lo, hi, "b");
	bool again = p.store_changed(b);
	VP_ENSURES("LatchedParam: a pending change stays until reported", p.did_change() == ((pending && stored) || again) && !p.did_change() && T(p) == (again ? b : now));
}
VP_CONTRACT(latched_i32) { latched<int32_t, 10, 1>(-1000000000, 1000000000); }
VP_CONTRACT(latched_u8) { latched<uint8_t, 4, 1>(0, 255); }
VP_CONTRACT(latched_i32_any) { latched<int32_t, 0, 1>(-1000000000, 1000000000); }
VP_CONTRACT(latched_f) {
	LatchedParam<float, 1, 64> p;
	float v = any_within<float>(1e9f, "value"), a = any_within<float>(1e9f, "a");
	p = v;
	float d = a > v ? a - v : v - a;
	bool stored = p.store_changed(a);
	VP_ENSURES("LatchedParam: stores a value exactly if it is far enough from the stored one", stored == (d >= 0.015625f) && float(p) == (stored ? a : v));
	VP_ENSURES("LatchedParam: reports the change once", p.did_change() == stored && !p.did_change());
}

// --- RotaryMotion
VP_CONTRACT(rotary) {
	int32_t pos = any_in<int32_t>(-1000000000, 1000000000, "pos"), m = any_in<int32_t>(-500000000, 500000000, "motion"), o = any_in<int32_t>(-500000000, 500000000, "other"), opos = any<int32_t>("otherpos");
	RotaryMotion z;
	VP_ENSURES("RotaryMotion: starts at rest", z.abs_pos == 0 && z.motion == 0 && z.use_motion() == 0);
	RotaryMotion a{pos, m}, b{opos, o};
	a.add_motion(b);
	VP_ENSURES("RotaryMotion: adding leaves the source alone", b.motion == o && b.abs_pos == opos);
	VP_ENSURES("RotaryMotion: adds motion to the pending motion and the position", a.motion == m + o && a.abs_pos == pos + o);
	RotaryMotion c{pos, m};
	c.transfer_motion(b);
	VP_ENSURES("RotaryMotion: transfers each step once", c.motion == m + o && c.abs_pos == pos + o && b.motion == 0 && b.abs_pos == opos);
	c.transfer_motion(b);
	VP_ENSURES("RotaryMotion: nothing left to transfer", c.motion == m + o && c.abs_pos == pos + o);
	VP_ENSURES("RotaryMotion: motion is used once", c.use_motion() == m + o && c.use_motion() == 0 && c.abs_pos == pos + o);
}
