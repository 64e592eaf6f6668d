// C16: periodic polling.
#include "vp.hh"
#include "util/poll_change.hh"
#include "util/poll_event.hh"

using namespace vp;

static unsigned acted;

// elapsed ticks since the last action, on a clock of T's width that may wrap
template<typename T>
static bool due(T now, T last, T period) {
	using U = std::make_unsigned_t<T>;
	return T(U(U(now) - U(last))) >= period;
}
template<typename T>
static void event_history() {
	T period = any<T>("period"), last = 0;
	VP_REQUIRES(period >= 0);
	PollEvent<T> p{period};
	for (int i = 0; i < 3; i++) {
		T now = any<T>("now");
		acted = 0;
		p.poll(now, [] { acted++; });
		bool d = due(now, last, period);
		VP_ENSURES("PollEvent: acts exactly when the period has passed since it last acted", acted == (d ? 1u : 0u));
		if (d)
			last = now;
	}
}
template<typename T>
static void event_step() {
	T period = any<T>("period"), last = any<T>("last"), now = any<T>("now");
	VP_REQUIRES(period >= 0);
	PollEvent<T> p{period};
	if constexpr (requires { p.last_poll = last; })
		p.last_poll = last;
	else {
		acted = 0;
		p.poll(last, [] { acted++; });
		VP_REQUIRES(acted == 1);
	}
	acted = 0;
	p.poll(now, [] { acted++; });
	bool d = due(now, last, period);
	VP_ENSURES("PollEvent: acts exactly when the period has passed since it last acted", acted == (d ? 1u : 0u));
	if constexpr (requires { p.last_poll = last; })
		VP_REP("time of the last action", p.last_poll == (d ? now : last));
}
VP_CONTRACT(event_u8) { event_history<uint8_t>(); }
VP_CONTRACT(event_u16) { event_history<uint16_t>(); }
VP_CONTRACT(event_u32) { event_history<uint32_t>(); }
VP_CONTRACT(event_u64) { event_history<uint64_t>(); }
VP_CONTRACT(event_long) { event_history<long>(); }
VP_CONTRACT(event_i32) { event_history<int32_t>(); }
VP_CONTRACT(step_u8) { event_step<uint8_t>(); }
VP_CONTRACT(step_u32) { event_step<uint32_t>(); }
VP_CONTRACT(step_long) { event_step<long>(); }
// polled often enough, the action comes once per period across the wrap of the clock
VP_CONTRACT(no_period_is_lost) {
	uint8_t period = any<uint8_t>("period"), start = any<uint8_t>("start");
	VP_REQUIRES(period >= 1);
	PollEvent<uint8_t> p{period};
	acted = 0;
	p.poll(start, [] { acted++; });
	VP_REQUIRES(acted == 1);
	uint8_t d1 = any<uint8_t>("first poll"), d2 = any<uint8_t>("second poll");
	VP_REQUIRES(d1 < period && d2 >= period);
	p.poll(uint8_t(start + d1), [] { acted++; });
	VP_ENSURES("PollEvent: not before the period has passed", acted == 1);
	p.poll(uint8_t(start + d2), [] { acted++; });
	VP_ENSURES("PollEvent: a late poll still acts", acted == 2);
}

// ---- PollChange
struct Model {
	bool state = false, change = false;
	unsigned last = 0, ticks;
	bool due(unsigned now) const {
		return now - last >= ticks;
	}
	void poll(unsigned now, bool s) {
		if (!due(now))
			return;
		last = now;
		change |= s != state;
		state = s;
	}
};
static unsigned asked;
static bool answer;

static void change_ops(PollChange &p, Model &m, int n) {
	for (int i = 0; i < n; i++) {
		unsigned now = any<unsigned>("now");
		bool s = any<bool>("state");
		switch (any_in<int>(0, 4, "operation")) {
			case 0:
				p.poll(now, s);
				m.poll(now, s);
				break;
			case 1:
				asked = 0;
				answer = s;
				p.poll(now, [] { return asked++, answer; });
				VP_ENSURES("PollChange: a state function is called exactly when the period has passed", asked == (m.due(now) ? 1u : 0u));
				m.poll(now, s);
				break;
			case 2:
				VP_ENSURES("PollChange: reports a change since the last report", p.take_change() == m.change);
				m.change = false;
				break;
			case 3:
				p.reset();
				m.change = true;
				break;
			default:
				p.force_next_poll();
				VP_REQUIRES(now >= m.ticks);
				p.poll(now, s);
				m.last = 0;
				m.poll(now, s);
		}
	}
	VP_ENSURES("PollChange: reports a change since the last report", p.take_change() == m.change);
	VP_ENSURES("PollChange: reports a change once", !p.take_change());
}
VP_CONTRACT(change_history) {
	Model m;
	m.ticks = any<unsigned>("ticks");
	PollChange p{m.ticks};
	change_ops(p, m, 3);
}
VP_CONTRACT(change_step) {
	Model m;
	m.ticks = any<unsigned>("ticks");
	PollChange p{m.ticks};
	if constexpr (requires {
					  p.current_state = true;
					  p.change_detected = true;
					  p.last_update_time = 1u;
				  }) {
		p.current_state = m.state = any<bool>("current");
		p.change_detected = m.change = any<bool>("pending");
		p.last_update_time = m.last = any<unsigned>("last");
	}
	change_ops(p, m, 2);
}
