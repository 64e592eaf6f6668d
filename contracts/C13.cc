// C13: togglers and debouncers.
#include "vp.hh"
#include "util/debouncer.hh"
#include "util/debouncer_compact.hh"

using namespace vp;

// what a user can find out: level, and whether each of the two events is pending
struct Model {
	bool high = false, rise = false, fall = false;
	void level(bool n) {
		if (n == high)
			return;
		high = n;
		(n ? rise : fall) = true;
	}
};
template<typename T>
static bool same(T const &t, Model const &m) {
	T c(t);
	bool r = c.is_just_pressed(), f = c.is_just_released();
	return (c.is_high() == m.high) & (c.is_pressed() == m.high) & (bool(c) == m.high) & (r == m.rise) & (f == m.fall);
}
// every combination, made through the public interface
template<typename T>
static void any_state(T &t, Model &m) {
	m = {any<bool>("high"), any<bool>("rise"), any<bool>("fall")};
	using Base = std::conditional_t<std::is_base_of_v<Toggler, T>, Toggler, TogglerCompact>;
	Base &b = t;
	b.clear_events();
	if (m.rise) {
		b.set_state_no_events(0);
		b.register_state(true);
	}
	if (m.fall) {
		b.set_state_no_events(1);
		b.register_state(false);
	}
	b.set_state_no_events(m.high);
}

template<typename T>
static void toggler_steps() {
	T t;
	Model m;
	VP_ENSURES("toggler: starts low without events", same(t, m));
	any_state(t, m);
	VP_ENSURES("toggler: state set up", same(t, m));
	switch (any_in<int>(0, 12, "operation")) {
		case 0: {
			bool r = t.is_just_pressed();
			VP_ENSURES("is_just_pressed: reports the pending event", r == m.rise);
			m.rise = false;
			break;
		}
		case 1: {
			bool r = t.is_just_released();
			VP_ENSURES("is_just_released: reports the pending event", r == m.fall);
			m.fall = false;
			break;
		}
		case 2: {
			bool r = t.just_went_high();
			VP_ENSURES("just_went_high: reports the pending event", r == m.rise);
			m.rise = false;
			break;
		}
		case 3: {
			bool r = t.just_went_low();
			VP_ENSURES("just_went_low: reports the pending event", r == m.fall);
			m.fall = false;
			break;
		}
		case 4: {
			bool n = any<bool>("level");
			t.register_state(n);
			m.level(n);
			break;
		}
		case 5: {
			bool n = any<bool>("level");
			t.process(n);
			m.level(n);
			break;
		}
		case 6:
			t.register_rising_edge();
			m = {true, true, false};
			break;
		case 7:
			t.register_falling_edge();
			m = {false, false, true};
			break;
		case 8:
			t.clear_events();
			m.rise = m.fall = false;
			break;
		case 9:
			t.reset();
			m = {};
			break;
		case 10: {
			unsigned n = any<unsigned>("level");
			t.set_state_no_events(n);
			m.high = n != 0;
			break;
		}
		case 11: {
			T u;
			Model mu;
			any_state(u, mu);
			if (any<bool>("by assignment"))
				t = u;
			else
				t.copy_state(u);
			VP_ENSURES("copy: the source keeps its state", same(u, mu));
			m = mu;
			break;
		}
		default: {
			T u;
			Model mu;
			any_state(u, mu);
			bool move = any<bool>("transfer");
			if (move)
				t.transfer_events(u);
			else
				t.update_state(u);
			T c(t);
			bool r = c.is_just_pressed(), f = c.is_just_released();
			VP_ENSURES("update: level is taken over", t.is_high() == mu.high);
			VP_ENSURES("update: pending events stay pending", imp(m.rise, r) && imp(m.fall, f));
			VP_ENSURES("update: the other's event arrives", imp(mu.fall, f) && imp(mu.rise & !mu.fall, r));
			VP_ENSURES("update: no event is invented", imp(r, m.rise | mu.rise) && imp(f, m.fall | mu.fall));
			if (move)
				mu.rise = mu.fall = false;
			VP_ENSURES("update: the other loses its events only in a transfer", same(u, mu));
			return;
		}
	}
	VP_ENSURES("toggler: level and pending events afterwards", same(t, m));
}
VP_CONTRACT(toggler) { toggler_steps<Toggler>(); }
VP_CONTRACT(toggler_compact) { toggler_steps<TogglerCompact>(); }

// any sequence of level changes and readings is seen as by the model
template<typename T>
static void toggler_history() {
	T t;
	Model m;
	for (int i = 0; i < 4; i++) {
		unsigned k = any_in<unsigned>(0, 3, "step");
		if (k < 2) {
			t.register_state(k);
			m.level(k);
		} else if (k == 2) {
			VP_ENSURES("toggler history: rising event once", t.is_just_pressed() == m.rise);
			m.rise = false;
		} else {
			VP_ENSURES("toggler history: falling event once", t.is_just_released() == m.fall);
			m.fall = false;
		}
		VP_ENSURES("toggler history: level and events", same(t, m));
	}
}
VP_CONTRACT(history) { toggler_history<Toggler>(); }
VP_CONTRACT(history_compact) { toggler_history<TogglerCompact>(); }
VP_CONTRACT(history_counter) { toggler_history<TogglerCounter>(); }

VP_CONTRACT(counter) {
	TogglerCounter t;
	Model m;
	VP_ENSURES("TogglerCounter: starts at zero", t.steady_state_count() == 0 && same(t, m));
	any_state(t, m);
	unsigned n = 0;
	if constexpr (requires { t.steady_state_ctr = 1u; }) {
		n = any<unsigned>("count");
		t.steady_state_ctr = n;
	} else {
		n = any_in<unsigned>(0, 3, "count");
		for (unsigned i = 0; i < n; i++)
			t.register_state(m.high);
	}
	bool l = any<bool>("level");
	switch (any_in<int>(0, 2, "operation")) {
		case 0:
			t.register_state(l);
			n = l == m.high ? n + 1 : 0;
			m.level(l);
			break;
		case 1:
			t.process(l);
			n = l == m.high ? n + 1 : 0;
			m.level(l);
			break;
		default:
			t.reset_count();
			n = 0;
	}
	VP_ENSURES("TogglerCounter: counts the samples since the last change", t.steady_state_count() == n);
	VP_ENSURES("TogglerCounter: level and events", same(t, m));
}

// ---- debouncers: the last samples (as far as the mask reaches) decide
template<typename D, unsigned R, unsigned F, unsigned Mask, bool Raw, bool Counts>
static void sample(D &d, Model &m, unsigned &window, unsigned &count, bool s) {
	d.register_state(s);
	window = ((window << 1) | s) & Mask;
	count++;
	if (window == (R & Mask))
		m = {true, true, false}, count = 0;
	else if (window == (F & Mask))
		m = {false, false, true}, count = 0;
	else if (!Raw)
		m.high = s;
	VP_ENSURES("debouncer: events exactly when the last samples are the pattern", same(d, m));
	if constexpr (Counts)
		VP_ENSURES("debouncer: counts the samples since the last pattern", d.steady_state_ctr == count);
}
template<typename D, unsigned R, unsigned F, unsigned Mask, bool Raw, bool Counts = false>
static void debounce_step() {
	D d;
	Model m;
	unsigned w = 0, n = 0;
	VP_ENSURES("debouncer: starts low without events", same(d, m));
	any_state(d, m);
	if constexpr (requires { d.debounce_state_ = 1u; }) {
		w = any<unsigned>("window");
		VP_REQUIRES((w & ~Mask) == 0);
		d.debounce_state_ = w;
	}
	if constexpr (Counts)
		d.steady_state_ctr = n = any<unsigned>("count");
	sample<D, R, F, Mask, Raw, Counts>(d, m, w, n, any<bool>("sample"));
	if constexpr (requires { d.debounce_state_ = 1u; })
		VP_REP("the window holds the last samples", d.debounce_state_ == w);
}
template<typename D, unsigned R, unsigned F, unsigned Mask, bool Raw, unsigned N, bool Counts = false>
static void debounce_history() {
	D d;
	Model m;
	unsigned w = 0, n = 0;
	for (unsigned i = 0; i < N; i++)
		sample<D, R, F, Mask, Raw, Counts>(d, m, w, n, any<bool>("sample"));
}
VP_CONTRACT(debouncer) { debounce_step<Debouncer<>, 1, 0xFFFFFFFE, 0xFFF, false>(); }
VP_CONTRACT(debouncer_raw) { debounce_step<Debouncer<0xF, 0xFFFFFFF0, 0xFF, true>, 0xF, 0xFFFFFFF0, 0xFF, true>(); }
VP_CONTRACT(debouncer_wide) { debounce_step<Debouncer<1, 0xFFFFFFFE, 0xFFFFFFFF>, 1, 0xFFFFFFFE, 0xFFFFFFFF, false>(); }
VP_CONTRACT(debouncer_counter) { debounce_step<DebouncerCounter<>, 1, 0xFFFFFFFE, 0xFFF, false, true>(); }
VP_CONTRACT(debouncer_counter_raw) {
	debounce_step<DebouncerCounter<0xF, 0xFFFFFFF0, 0xFF, true>, 0xF, 0xFFFFFFF0, 0xFF, true, true>();
}
VP_CONTRACT(debouncer_history) {
	debounce_history<Debouncer<1, 0xE, 0xF>, 1, 0xE, 0xF, false, 6>();
}
VP_CONTRACT(debouncer_history_raw) {
	debounce_history<Debouncer<3, 0xC, 0xF, true>, 3, 0xC, 0xF, true, 7>();
}
VP_CONTRACT(debouncer_counter_history) {
	debounce_history<DebouncerCounter<1, 0xE, 0xF>, 1, 0xE, 0xF, false, 6, true>();
}
