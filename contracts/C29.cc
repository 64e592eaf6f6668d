// C29: oscillators, countdowns and the animated LED.
#include "vp.hh"
#include "util/oscs.hh"
#include "util/rgbled.hh"

using namespace vp;

static uint32_t triangle(uint32_t p) {
	uint64_t up = uint64_t(p) * 2, down = 0xFFFFFFFFull * 2 + 1 - uint64_t(p) * 2;
	return uint32_t(p < 0x80000000u ? up : down);
}
template<int R>
static uint32_t units(uint32_t f) {
	return f * (0xFFFFFFFFu / uint32_t(R));
}
// phase after i updates
static uint32_t P0, INC;
static uint64_t N;
static uint64_t inv_count(uint64_t i, uint64_t) {
	return i <= N;
}
static bool inv_n(uint64_t i, uint64_t) {
	return i <= N;
}
static uint64_t phase_at(uint64_t i, uint64_t) {
	return uint32_t(P0 + uint32_t(i) * INC);
}

// --- TriangleOscillator
template<int R>
static void tri() {
	auto p = any<uint32_t>("phase"), f = any<uint32_t>("freq");
	TriangleOscillator<R> o;
	VP_ENSURES("TriangleOscillator: starts at zero, standing still", o.val() == 0 && o.process() == 0);
	o.set_phase(p);
	VP_ENSURES("TriangleOscillator: up in the first half and down in the second", o.val() == triangle(p));
	o.set_frequency(f);
	VP_ENSURES("TriangleOscillator: setting the frequency keeps the phase", o.val() == triangle(p));
	VP_ENSURES("TriangleOscillator: one step", o.process() == triangle(p + units<R>(f)));
	o.set_frequency(int(f));
	o.update();
	VP_ENSURES("TriangleOscillator: frequency as int", o.val() == triangle(p + 2 * units<R>(f)));
	TriangleOscillator<R> c{f};
	VP_ENSURES("TriangleOscillator: constructed with a frequency", c.process() == triangle(units<R>(f)));
}
VP_CONTRACT(tri_1000) { tri<1000>(); }
VP_CONTRACT(tri_48000) { tri<48000>(); }
template<int R>
static void tri_n() {
	P0 = any<uint32_t>("phase");
	auto f = any<uint32_t>("freq");
	INC = units<R>(f);
	N = any_in<uint64_t>(0, uint64_t(1) << 40, "n");
	TriangleOscillator<R> o;
	o.set_phase(P0);
	o.set_frequency(f);
	loop_inv(inv_n, 1);
	loop_terms(phase_at, 1);
	for (uint64_t i = 0; i != N; i++)
		o.update();
	no_loop();
	VP_ENSURES("TriangleOscillator: after any number of updates", o.val() == triangle(P0 + uint32_t(N) * INC));
}
VP_CONTRACT(tri_n_1000) { tri_n<1000>(); }
VP_CONTRACT(tri_n_48000) { tri_n<48000>(); }
template<int R>
static void tri_ms() {
	auto ms = any_in<uint32_t>(1, ~0u, "ms");
	auto p = any<uint32_t>("phase");
	TriangleOscillator<R> o;
	o.set_phase(p);
	o.set_period_ms(ms);
	uint64_t u = 0xFFFFFFFFu / uint32_t(R), inc = u * 1000 / ms;
	VP_ENSURES("TriangleOscillator: period in milliseconds", o.process() == triangle(uint32_t(p + inc)));
	auto s = any_in<uint32_t>(1, ~0u, "sec");
	o.set_phase(p);
	o.set_period_sec(s);
	VP_ENSURES("TriangleOscillator: period in seconds", o.process() == triangle(uint32_t(p + u / s)));
}
VP_CONTRACT(tri_ms_1000) { tri_ms<1000>(); }
VP_CONTRACT(tri_ms_48000) { tri_ms<48000>(); }
VP_CONTRACT(tri_float) {
	auto p = any<uint32_t>("phase");
	TriangleOscillator<1000> o;
	o.set_phase(p);
	o.set_frequency(any_between<float>(0.f, 999.f, "freq"));
	float x = o.process_float();
	VP_ENSURES("TriangleOscillator: float value between 0 and 1", x >= 0.f && x <= 1.f);
	o.set_phase(p);
	o.set_frequency(0.25f);
	VP_ENSURES("TriangleOscillator: slow frequencies as float", o.process() == triangle(p + 0xFFFFFFFFu / 1000 / 4));
}

// --- PhaseAccum
template<int R>
static void ramp() {
	P0 = any<uint32_t>("phase");
	auto f = any<uint32_t>("freq");
	INC = units<R>(f);
	N = any_in<uint64_t>(0, uint64_t(1) << 40, "n");
	PhaseAccum<R> z;
	VP_ENSURES("PhaseAccum: starts at zero, standing still", z.val() == 0 && z.process() == 0);
	PhaseAccum<R> c{f};
	VP_ENSURES("PhaseAccum: constructed with a frequency", c.process() == INC);
	PhaseAccum<R> o;
	o.set_phase(P0);
	o.set_frequency(f);
	VP_ENSURES("PhaseAccum: holds its phase", o.val() == P0);
	loop_inv(inv_n, 1);
	loop_terms(phase_at, 1);
	for (uint64_t i = 0; i != N; i++)
		o.update();
	no_loop();
	uint32_t want = P0 + uint32_t(N) * INC;
	VP_ENSURES("PhaseAccum: after any number of updates", o.val() == want);
	VP_ENSURES("PhaseAccum: process steps once", o.process() == want + INC && o.Process() == want + 2 * INC);
	float x = o.process_float();
	VP_ENSURES("PhaseAccum: float value between 0 and 1", x >= 0.f && x <= 1.f && o.val() == want + 3 * INC);
}
VP_CONTRACT(ramp_1000) { ramp<1000>(); }
VP_CONTRACT(ramp_48000) { ramp<48000>(); }

// --- DownCounter
template<int R>
static void down() {
	DownCounter<R> d;
	VP_ENSURES("DownCounter: starts at the top", d.val() == 0xFFFFFFFFu);
	auto p = any<uint32_t>("phase"), f = any<uint32_t>("freq");
	d.set_phase(p);
	d.set_frequency(f);
	VP_ENSURES("DownCounter: holds its phase", d.val() == p);
	uint32_t inc = units<R>(f), want = inc && p > inc ? p - inc : 0;
	d.update();
	VP_ENSURES("DownCounter: one step down, never below zero; a step of nothing ends it", d.val() == want);
	d.set_phase(0);
	d.update();
	VP_ENSURES("DownCounter: stays at zero", d.val() == 0);
	d.reset();
	VP_ENSURES("DownCounter: reset starts over", d.val() == 0xFFFFFFFFu);
	d.set_phase(p);
	d.set_frequency(int(f));
	d.update();
	VP_ENSURES("DownCounter: frequency as int", d.val() == want);
}
VP_CONTRACT(down_1000) { down<1000>(); }
VP_CONTRACT(down_48000) { down<48000>(); }
// n times the increment, by repeated addition
static uint64_t used(uint64_t i) {
	return vp_uf(1, i, 0, 0);
}
static void unfold(uint64_t i) {
	vp_let(1, 0, 0);
	vp_let(1, i + 1, used(i) + INC);
}
static uint64_t down_at(uint64_t i, uint64_t) {
	uint64_t u = used(i), left = P0 - u;
	return u < P0 ? left : 0;
}
static bool inv_down(uint64_t i, uint64_t k) {
	unfold(i);
	unfold(i - 1);
	if (k == 0)
		return i <= N;
	return used(i) <= i << 32;
}
template<int R>
static void down_n() {
	P0 = any<uint32_t>("phase");
	auto f = any<uint32_t>("freq");
	INC = units<R>(f);
	VP_REQUIRES(INC > 0);
	N = any_in<uint64_t>(0, uint64_t(1) << 31, "n");
	vp_lazy(1, unfold, true);
	unfold(0);
	DownCounter<R> o;
	o.set_phase(P0);
	o.set_frequency(f);
	loop_inv(inv_down, 2);
	loop_terms(down_at, 1);
	for (uint64_t i = 0; i != N; i++)
		o.update();
	no_loop();
	uint64_t u = used(N), left = P0 - u;
	VP_ENSURES("DownCounter: counts down by the increment and stops at zero", o.val() == (u < P0 ? left : 0));
}
VP_CONTRACT(down_n_1000) { down_n<1000>(); }
VP_CONTRACT(down_n_48000) { down_n<48000>(); }
VP_CONTRACT(down_float) {
	float f = any_between<float>(0.f, 3.4e38f, "freq");
	auto p = any<uint32_t>("phase");
	DownCounter<1000> d;
	d.set_frequency(f);
	d.set_phase(p);
	d.update();
	VP_ENSURES("DownCounter: never counts up, whatever the frequency", d.val() <= p && imp(p > 0, d.val() < p));
	d.set_phase(~0u);
	d.update();
	VP_ENSURES("DownCounter: frequencies above the update rate end at once", imp(f > 1001.f, d.val() == 0));
	VP_ENSURES("DownCounter: frequencies below the update rate do not", imp(f < 999.f && f > 0.001f, d.val() > 0));
}
VP_CONTRACT(down_ms) {
	auto ms = any_in<uint32_t>(2, 1u << 31, "ms");
	DownCounter<1000> d;
	d.set_period_ms(ms);
	d.update();
	VP_ENSURES("DownCounter: a period of two or more updates is not over after one", imp(ms < 1000000000u, d.val() > 0));
}

// --- OneShot
VP_CONTRACT(oneshot) {
	float rate = any_between<float>(1.f, 200000.f, "rate");
	float w = any_between<float>(0.f, 100.f, "width");
	OneShot o{rate};
	VP_ENSURES("OneShot: idle until started", !o.update());
	o.start(w);
	VP_ENSURES("OneShot: active at once after start", o.update() == (w > 0.f));
	o.stop();
	VP_ENSURES("OneShot: idle after stop", !o.update() && !o.update());
	o.start(w);
	bool a = o.update(), b = o.update(), c = o.update();
	VP_ENSURES("OneShot: once over, stays over", imp(!a, !b) && imp(!b, !c));
	o.set_update_rate_hz(any_between<float>(-10.f, 0.f, "bad rate"));
	o.start(w);
	VP_ENSURES("OneShot: a meaningless rate is ignored", o.update() == a && o.update() == b && o.update() == c);
}
// 1/8 s steps: exact arithmetic
static bool inv_shot(uint64_t i, uint64_t) {
	return i <= N;
}
VP_CONTRACT(oneshot_exact) {
	auto n = any_in<uint32_t>(0, 6, "eighths");
	OneShot o;
	o.set_update_rate_hz(8.f);
	o.start(float(n) * 0.125f);
	for (uint32_t i = 0; i < 8; i++)
		VP_ENSURES("OneShot: active for exactly the pulse width", o.update() == (i < n));
}

// --- MixedRgbLed: what the three drivers were last given
struct Wire {
	uint8_t *at;
	void set(uint8_t x) const {
		*at = x;
	}
};
static uint8_t out_r, out_g, out_b;
static bool shows(Color c) {
	return out_r == c.red() && out_g == c.green() && out_b == c.blue();
}
static Color any_color(const char *n) {
	auto r = any<uint8_t>(n), g = any<uint8_t>(n), b = any<uint8_t>(n);
	return Color(r, g, b);
}
using Led = MixedRgbLed<Wire, Wire, Wire>;
static Led make() {
	return Led{Wire{&out_r}, Wire{&out_g}, Wire{&out_b}};
}
VP_CONTRACT(led_direct) {
	Led led = make();
	auto c = any_color("c");
	led.set_color(c);
	VP_ENSURES("LED: set_color shows the colour", shows(c));
	auto k = any<uint8_t>("brightness");
	led.set_color(c, k);
	VP_ENSURES("LED: brightness scales each channel by 256ths", out_r == c.red() * k / 256 && out_g == c.green() * k / 256 && out_b == c.blue() * k / 256);
	led.set_color(c, 0.f);
	VP_ENSURES("LED: brightness 0 is dark", shows(Colors::off));
	led.set_color(c, 1.f);
	VP_ENSURES("LED: brightness 1 is the colour", shows(c));
}
VP_CONTRACT(led_base) {
	Led led = make();
	auto a = any_color("a"), b = any_color("b");
	for (int i = 0; i < 3; i++) {
		led.update_animation();
		VP_ENSURES("LED: dark until told otherwise", shows(Colors::off));
	}
	led.set_base_color(a);
	led.update_animation();
	VP_ENSURES("LED: shows its base colour when nothing is animated", shows(a));
	led.blend_base_color(b);
	led.update_animation();
	VP_ENSURES("LED: blending the base colour", shows(a.blend(b)));
	led.set_base_color(a);
	led.add_base_color(b);
	led.update_animation();
	VP_ENSURES("LED: adding to the base colour", shows(a + b));
	Color::Adjustment adj{any<uint8_t>("ar"), any<uint8_t>("ag"), any<uint8_t>("ab")};
	led.set_base_color(a);
	led.set_color_calibration(adj);
	led.update_animation();
	VP_ENSURES("LED: the calibration is applied", shows(a.adjust(adj)));
}

// a flash of MS milliseconds at 1000 updates per second, observed after any number of updates
template<int MS>
static void flash() {
	Led led = make();
	auto base = any_color("base"), c = any_color("flash"), br = any_color("breathe");
	led.set_base_color(base);
	P0 = 0xFFFFFFFFu;
	DownCounter<1000> d;
	d.set_frequency(1000.f / float(MS));
	d.reset();
	d.update();
	INC = P0 - d.val();
	VP_ENSURES("LED: a flash advances by one period in its duration", uint64_t(INC) * MS / 1000 < (1ull << 32) / 999 && uint64_t(INC) * MS / 1000 > (1ull << 32) / 1001);
	N = any_in<uint64_t>(0, uint64_t(1) << 31, "n");
	vp_lazy(1, unfold, true);
	unfold(0);
	led.flash_once_ms(c, float(MS));
	loop_inv(inv_down, 2);
	loop_terms(down_at, 1);
	for (uint64_t i = 0; i != N; i++)
		led.update_oscillators();
	no_loop();
	unfold(N);
	led.update_animation();
	bool on = used(N + 1) < P0;
	VP_ENSURES("LED: shows the flash until its countdown ends and then the base colour", shows(on ? c : base));
}
VP_CONTRACT(flash_2) { flash<2>(); }
VP_CONTRACT(flash_100) { flash<100>(); }
VP_CONTRACT(flash_1000) { flash<1000>(); }
VP_CONTRACT(flash_1500) { flash<1500>(); }
VP_CONTRACT(flash_60000) { flash<60000>(); }

// the smooth fade and the slow blend, from any phase
VP_CONTRACT(fade) {
	Led led = make();
	auto base = any_color("base"), c = any_color("fade");
	float ms = any_between<float>(3.f, 60000.f, "ms");
	led.set_base_color(base);
	DownCounter<1000> d;
	d.set_frequency(1000.f / ms);
	d.reset();
	led.fade_once_ms(c, ms);
	for (int i = 0; i < 3; i++) {
		led.update_animation();
		d.update();
		Color want = base;
		if (d.val())
			want = base.blend(c, d.val());
		VP_ENSURES("LED: a fade blends from its colour down to the base colour", shows(want));
	}
	led.flash_once_ms(c, ms);
	led.update_animation();
	VP_ENSURES("LED: a flash after a fade is not blended", shows(c));
}
VP_CONTRACT(breathe) {
	Led led = make();
	auto base = any_color("base"), c = any_color("breathe");
	auto f = any_between<float>(0.f, 900.f, "freq");
	led.set_base_color(base);
	TriangleOscillator<1000> t;
	t.set_frequency(f);
	led.breathe(c, f);
	led.update_animation();
	t.update();
	for (int i = 0; i < 3; i++) {
		led.update_animation();
		t.update();
		VP_ENSURES("LED: breathing blends base and breathe colour by the triangle wave", shows(t.val() ? base.blend(c, t.val()) : base));
	}
	led.reset_breathe();
	led.update_animation();
	VP_ENSURES("LED: base colour after the end of breathing", shows(base));
}
