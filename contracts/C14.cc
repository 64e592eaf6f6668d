// C14: edge and change detectors, Schmitt triggers, hysteresis.
#include "vp.hh"
#include "util/change_detector.hh"
#include "util/edge_detector.hh"
#include "util/math.hh"
#include "util/schmitt_trigger.hh"

using namespace vp;

VP_CONTRACT(edge_state) {
	EdgeStateDetector d;
	bool s = false, l = false;
	for (int i = 0; i < 5; i++) {
		VP_ENSURES("EdgeStateDetector: changed", d.changed() == (s != l));
		VP_ENSURES("EdgeStateDetector: went_high", d.went_high() == (s & !l));
		VP_ENSURES("EdgeStateDetector: went_low", d.went_low() == (!s & l));
		VP_ENSURES("EdgeStateDetector: is_high", d.is_high() == s);
		VP_ENSURES("EdgeStateDetector: staying_high", d.staying_high() == (s & l));
		VP_ENSURES("EdgeStateDetector: staying_low", d.staying_low() == (!s & !l));
		if (any<bool>("reset")) {
			d.reset();
			s = l = false;
		} else {
			bool n = any<bool>("state");
			d.update(n);
			l = s;
			s = n;
		}
	}
}
VP_CONTRACT(edges) {
	RisingEdgeDetector r;
	FallingEdgeDetector f;
	bool l = false;
	for (int i = 0; i < 5; i++) {
		bool n = any<bool>("state");
		VP_ENSURES("RisingEdgeDetector: true exactly on a change to high", r.update(n) == (n & !l));
		VP_ENSURES("FallingEdgeDetector: true exactly on a change to low", f.update(n) == (!n & l));
		l = n;
	}
}
// one step from any state
VP_CONTRACT(edges_step) {
	bool l = any<bool>("before"), n = any<bool>("state"), s = any<bool>("between");
	RisingEdgeDetector r;
	FallingEdgeDetector f;
	EdgeStateDetector d;
	r.update(s), f.update(s), d.update(s);
	r.update(l), f.update(l), d.update(l);
	VP_ENSURES("RisingEdgeDetector: true exactly on a change to high", r.update(n) == (n & !l));
	VP_ENSURES("FallingEdgeDetector: true exactly on a change to low", f.update(n) == (!n & l));
	d.update(n);
	VP_ENSURES("EdgeStateDetector: compares the last two states",
			   d.changed() == (n != l) && d.went_high() == (n & !l) && d.went_low() == (!n & l) && d.is_high() == n);
}
VP_CONTRACT(change) {
	ChangeDetector d;
	bool l = false, pend = false;
	for (int i = 0; i < 6; i++) {
		unsigned k = any_in<unsigned>(0, 2, "step");
		if (k < 2) {
			d.update(k);
			pend |= k != l;
			l = k;
		} else {
			VP_ENSURES("ChangeDetector: reports whether there was a change since the last report", d.changed() == pend);
			pend = false;
		}
	}
	VP_ENSURES("ChangeDetector: reports whether there was a change since the last report", d.changed() == pend);
	VP_ENSURES("ChangeDetector: reports a change once", !d.changed());
}
VP_CONTRACT(change_step) {
	ChangeDetector d;
	bool l = any<bool>("level"), pend = any<bool>("pending");
	d.update(!l);
	d.update(l);
	if (!pend)
		d.changed();
	else
		d.update(!l), d.update(l);
	bool n = any<bool>("state");
	d.update(n);
	VP_ENSURES("ChangeDetector: any change since the last report is kept", d.changed() == (pend | (n != l)));
	d.update(n);
	VP_ENSURES("ChangeDetector: no change, no report", !d.changed());
}

// ---- Schmitt triggers: switch on above `high`, off below `low`, hold in between (and for values that are no number)
static bool schmitt(bool was, float lo, float hi, float v) {
	return was ? !(v < lo) : v > hi;
}
VP_CONTRACT(schmitt_default) {
	cpputil::SchmittTrigger t;
	cpputil::RisingSchmittTrigger r;
	bool high = false;
	for (int i = 0; i < 3; i++) {
		float v = any<float>("value");
		bool n = schmitt(high, 0.4f, 0.6f, v);
		t.process(v);
		VP_ENSURES("SchmittTrigger: on above high, off below low, else held", t.is_high() == n);
		VP_ENSURES("SchmittTrigger: rising event exactly when switched on", t.is_just_pressed() == (n & !high));
		VP_ENSURES("SchmittTrigger: falling event exactly when switched off", t.is_just_released() == (!n & high));
		VP_ENSURES("RisingSchmittTrigger: true exactly when switched on", r.update(v) == (n & !high));
		high = n;
	}
}
VP_CONTRACT(schmitt_any) {
	float lo = any<float>("low"), hi = any<float>("high");
	cpputil::SchmittTrigger t{lo, hi};
	cpputil::RisingSchmittTrigger r{lo, hi};
	bool high = false;
	for (int i = 0; i < 3; i++) {
		float v = any<float>("value");
		bool n = schmitt(high, lo, hi, v);
		t.process(v);
		VP_ENSURES("SchmittTrigger: on above high, off below low, else held", t.is_high() == n);
		VP_ENSURES("SchmittTrigger: rising event exactly when switched on", t.is_just_pressed() == (n & !high));
		VP_ENSURES("SchmittTrigger: falling event exactly when switched off", t.is_just_released() == (!n & high));
		VP_ENSURES("RisingSchmittTrigger: true exactly when switched on", r.update(v) == (n & !high));
		high = n;
	}
}
// from any state, events still pending
VP_CONTRACT(schmitt_step) {
	float lo = any<float>("low"), hi = any<float>("high"), v = any<float>("value");
	cpputil::SchmittTrigger t{lo, hi};
	bool high = any<bool>("is high");
	t.register_state(high);
	t.clear_events();
	bool pend = any<bool>("event pending");
	if (pend)
		high ? t.register_rising_edge() : t.register_falling_edge();
	bool n = schmitt(high, lo, hi, v);
	t.process(v);
	VP_ENSURES("SchmittTrigger: on above high, off below low, else held", t.is_high() == n);
	VP_ENSURES("SchmittTrigger: the last event is pending", t.is_just_pressed() == (n & (pend | !high)) && t.is_just_released() == (!n & (pend | high)));
}

VP_CONTRACT(hysteresis_gate) {
	float off = any<float>("turn off"), on = any<float>("turn on"), in = any<float>("input");
	VP_REQUIRES(off >= 0.f && on >= off && on <= 1.f && in >= 0.f && in <= 1.f);
	bool was = any<bool>("last output");
	float r = MathTools::hysteresis_gate(off, on, was ? 1.f : 0.f, in);
	VP_ENSURES("hysteresis_gate: the output is 0 or 1", r == 0.f || r == 1.f);
	VP_ENSURES("hysteresis_gate: switches on exactly above the turn-on threshold", imp(!was, (r == 1.f) == (in > on)));
	VP_ENSURES("hysteresis_gate: switches off exactly below the turn-off threshold", imp(was, (r == 0.f) == (in < off)));
}
VP_CONTRACT(hysteresis_feedback) {
	float fb = any<float>("feedback"), th = any<float>("threshold"), in = any<float>("input");
	VP_REQUIRES(fb >= 0.f && fb <= 1.f && th >= 0.f && th <= 1.f && in >= 0.f && in <= 1.f);
	bool was = any<bool>("last output");
	float r = MathTools::hysteresis_feedback(fb, th, was ? 1.f : 0.f, in);
	VP_ENSURES("hysteresis_feedback: the output is 0 or 1", r == 0.f || r == 1.f);
	VP_ENSURES("hysteresis_feedback: switches on above the threshold", imp(!was, (r == 1.f) == (in > th)));
	VP_ENSURES("hysteresis_feedback: an input above the threshold keeps it on", imp(was & (in > th), r == 1.f));
	VP_ENSURES("hysteresis_feedback: feedback lowers the threshold while on", imp(was, (r == 1.f) == (in + fb > th)));
}
