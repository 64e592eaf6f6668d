// C19: colours.
#include "vp.hh"
#include "util/colors.hh"
#include "util/colors_rgb565.hh"
#include "util/hsv.hh"

using namespace vp;

static Color any_color(const char *n) {
	auto r = any<uint8_t>(n), g = any<uint8_t>(n), b = any<uint8_t>(n);
	return Color(r, g, b);
}
static int lo(int a, int b) { return a < b ? a : b; }
static int hi(int a, int b) { return a < b ? b : a; }

VP_CONTRACT(parts) {
	auto r = any<uint8_t>("r"), g = any<uint8_t>("g"), b = any<uint8_t>("b");
	Color c(r, g, b);
	VP_ENSURES("Color: holds its channels", c.red() == r && c.green() == g && c.blue() == b);
	Color z;
	VP_ENSURES("Color: starts black", z.red() == 0 && z.green() == 0 && z.blue() == 0);
	auto d = any_color("other");
	bool same = d.red() == r && d.green() == g && d.blue() == b;
	VP_ENSURES("Color: equality", (c == d) == same && (c != d) == !same);
}
static bool each(Color a, Color b, Color out, bool (*f)(int, int, int)) {
	return f(a.red(), b.red(), out.red()) & f(a.green(), b.green(), out.green()) & f(a.blue(), b.blue(), out.blue());
}
VP_CONTRACT(sums) {
	auto a = any_color("a"), b = any_color("b");
	auto sat = [](int x, int y, int z) { return z == lo(x + y, 255); };
	VP_ENSURES("Color: sum saturates", each(a, b, a + b, sat));
	VP_ENSURES("Color: combine saturates", each(a, b, a.combine(b), sat));
	Color::Adjustment adj{any<uint8_t>("ar"), any<uint8_t>("ag"), any<uint8_t>("ab")};
	VP_ENSURES("Color: adjust scales by 128ths and saturates", each(a, Color(adj.r, adj.g, adj.b), a.adjust(adj), [](int x, int k, int z) { return z == lo(x * k / 128, 255); }));
	VP_ENSURES("Color: half blend is the mean, rounded down at most once", each(a, b, a.blend(b), [](int x, int y, int z) { return 2 * z <= x + y && 2 * z >= x + y - 2; }));
}
template<int CH>
static void blend8() {
	auto a = any_color("a"), b = any_color("b");
	uint8_t p = any<uint8_t>("phase");
	auto m = a.blend(b, p);
	auto mix = [&](int x, int y) { return y * p + x * (255 - p); };
	auto exact = [&](int x, int y, int z) { return (255 * z <= mix(x, y)) & (mix(x, y) < 255 * z + 255); };
	auto channel = [&](int x, int y, int z) {
		VP_ENSURES("Color: blend 0..255 is the exact value rounded down", exact(x, y, z));
		if (x <= y) {
			VP_REP("mean by difference", mix(x, y) == 255 * x + (y - x) * p);
			VP_ENSURES("Color: blend 0..255 stays between its ends", z >= x && z <= y);
		} else {
			VP_REP("mean by difference", mix(x, y) == 255 * y + (x - y) * (255 - p));
			VP_ENSURES("Color: blend 0..255 stays between its ends", z >= y && z <= x);
		}
	};
	if constexpr (CH == 0)
		channel(a.red(), b.red(), m.red());
	if constexpr (CH == 1)
		channel(a.green(), b.green(), m.green());
	if constexpr (CH == 2)
		channel(a.blue(), b.blue(), m.blue());
}
VP_CONTRACT(blend8_red) { blend8<0>(); }
VP_CONTRACT(blend8_green) { blend8<1>(); }
VP_CONTRACT(blend8_blue) { blend8<2>(); }
VP_CONTRACT(blend8_ends) {
	auto a = any_color("a"), b = any_color("b");
	VP_ENSURES("Color: blend 0 is the first colour", a.blend(b, uint8_t(0)) == a);
	VP_ENSURES("Color: blend 255 is the second colour", a.blend(b, uint8_t(255)) == b);
}
VP_CONTRACT(blend32) {
	auto a = any_color("a"), b = any_color("b");
	uint32_t p = any<uint32_t>("phase");
	auto m = a.blend(b, p);
	static int ph;
	ph = int(p >> 24);
	VP_ENSURES("Color: blend 0..2^32-1 stays between its ends", each(a, b, m, [](int x, int y, int z) { return z >= lo(x, y) && z <= hi(x, y); }));
	VP_ENSURES("Color: blend 0..2^32-1 is the exact value of its top 8 bits in 256ths rounded down", each(a, b, m, [](int x, int y, int z) {
		int e = y * ph + x * (256 - ph) - 256 * z;
		return e >= 0 && e < 256;
	}));
	VP_ENSURES("Color: blend 0 of 2^32 is the first colour", imp(ph == 0, m == a));
}
VP_CONTRACT(blend_float_ends) {
	auto a = any_color("a"), b = any_color("b");
	VP_ENSURES("Color: float blend 0 is the first colour", a.blend(b, 0.f) == a);
	VP_ENSURES("Color: float blend 1 is the second colour", a.blend(b, 1.f) == b);
	VP_ENSURES("Color: scaled by 0 is black", a * 0.f == Color(0, 0, 0));
	VP_ENSURES("Color: scaled by 1 is unchanged", a * 1.f == a);
}
VP_CONTRACT(rgb565_color) {
	auto raw = any<uint16_t>("raw");
	Color c{raw};
	VP_ENSURES("Color: from 565: channels in the top bits", c.red() == ((raw >> 11) << 3) && c.green() == (((raw >> 5) & 63) << 2) && c.blue() == ((raw & 31) << 3));
	VP_ENSURES("Color: 565 there and back", c.Rgb565() == raw);
	auto d = any_color("d");
	VP_ENSURES("Color: to 565: keeps the top bits", d.Rgb565() == (d.red() >> 3) * 2048 + (d.green() >> 2) * 32 + (d.blue() >> 3));
}
VP_CONTRACT(rgb565_struct) {
	auto raw = any<uint16_t>("raw");
	RGB565 c;
	VP_ENSURES("RGB565: starts black", c.raw() == 0);
	c = raw;
	VP_ENSURES("RGB565: raw there and back", c.raw() == raw && uint16_t(c) == raw);
	VP_ENSURES("RGB565: channels scaled to 0..255", c.red() == ((raw >> 11) << 3) && c.green() == (((raw >> 5) & 63) << 2) && c.blue() == ((raw & 31) << 3));
	auto r = any<uint8_t>("r"), g = any<uint8_t>("g"), b = any<uint8_t>("b");
	RGB565 d{r, g, b};
	VP_ENSURES("RGB565: from bytes: top bits", d.r == r >> 3 && d.g == g >> 2 && d.b == b >> 3);
	VP_ENSURES("RGB565: agrees with Color", d.raw() == Color(r, g, b).Rgb565());
	auto x = any<uint32_t>("rgb888");
	RGB565 e{x};
	VP_ENSURES("RGB565: from 24 bits", e.raw() == RGB565(uint8_t(x >> 16), uint8_t(x >> 8), uint8_t(x)).raw());
}
static bool chan(unsigned got, float x, unsigned n) {
	// the step of size 1/n that x lies in, the nearest end outside of 0..1
	float y = x * float(n);
	return y < 1.f ? got == 0 : y >= float(n - 1) ? got == n - 1 : (float(got) <= y) & (y < float(got + 1));
}
static float number() {
	float x = any<float>("x");
	VP_REQUIRES(x == x);
	return x;
}
VP_CONTRACT(rgb565_float_r) {
	float x = number();
	RGB565 c{x, 0.25f, 0.75f};
	VP_ENSURES("RGB565: from floats: red", chan(c.r, x, 32) && c.g == 16 && c.b == 24);
}
VP_CONTRACT(rgb565_float_g) {
	float x = number();
	RGB565 c{0.25f, x, 0.75f};
	VP_ENSURES("RGB565: from floats: green", chan(c.g, x, 64) && c.r == 8 && c.b == 24);
}
VP_CONTRACT(rgb565_float_b) {
	float x = number();
	RGB565 c{0.25f, 0.75f, x};
	VP_ENSURES("RGB565: from floats: blue", chan(c.b, x, 32) && c.r == 8 && c.g == 48);
}
VP_CONTRACT(blend565) {
	auto a = any<uint16_t>("a"), b = any<uint16_t>("b");
	auto p = any<uint8_t>("alpha");
	uint16_t m = Color::blend(a, b, p);
	auto chk = [&](unsigned sh, unsigned mask) {
		int x = (a >> sh) & mask, y = (b >> sh) & mask, z = (m >> sh) & mask;
		return z >= lo(x, y) - 1 && z <= hi(x, y);
	};
	VP_ENSURES("Color: 565 blend: every channel between its ends, less one for rounding", chk(11, 31) && chk(5, 63) && chk(0, 31));
	VP_ENSURES("Color: 565 blend 0 is the first colour", imp(p == 0, m == a));
	VP_ENSURES("Color: 565 blend 255 is the second colour", imp(p == 255, m == b));
	auto near = [&](unsigned sh, unsigned mask) {
		int x = (a >> sh) & mask, y = (b >> sh) & mask, z = (m >> sh) & mask;
		int k = (p + 4) / 8;
		int e = x * (32 - k) + y * k - 32 * z;
		return e >= 0 && e < 64;
	};
	VP_ENSURES("Color: 565 blend: every channel the exact value in 32nds, less than two below", near(11, 31) && near(5, 63) && near(0, 31));
	VP_ENSURES("Color: 565 blend by float 0 and 1 are the ends", Color::blend(a, b, 0.f) == a && Color::blend(a, b, 1.f) == b);
	VP_ENSURES("Color: slow blend by 0 and 1 are the ends", Color::slow_blend(a, b, 0.f) == a && Color::slow_blend(a, b, 1.f) == b);
}
VP_CONTRACT(hsv) {
	HSVColor c{any<uint8_t>("h"), any<uint8_t>("s"), any<uint8_t>("v")};
	Color out = c;
	int r = out.red(), g = out.green(), b = out.blue();
	int top = hi(r, hi(g, b)), bottom = lo(r, lo(g, b));
	VP_ENSURES("HSV: no saturation is grey", imp(c.s == 0, r == c.v && g == c.v && b == c.v));
	VP_ENSURES("HSV: the brightest channel is the value", top == c.v);
	VP_ENSURES("HSV: the darkest channel is the value less the saturation", imp(c.s > 0, bottom == (c.v * (255 - c.s)) / 256));
	unsigned sector = c.h / 43u;
	int mx = sector == 0 || sector == 5 ? r : sector < 3 ? g : b;
	int mn = sector < 2 ? b : sector < 4 ? r : g;
	VP_ENSURES("HSV: the hue decides which channel is brightest and which darkest", imp(c.s > 0, mx == top && mn == bottom));
	// one step of hue within a sector
	HSVColor d{uint8_t(c.h + 1), c.s, c.v};
	Color next = d;
	int mid = sector == 0 || sector == 3 ? g : sector == 1 || sector == 4 ? r : b;
	int mid2 = sector == 0 || sector == 3 ? next.green() : sector == 1 || sector == 4 ? next.red() : next.blue();
	bool same = c.h < 255 && d.h / 43u == sector;
	VP_ENSURES("HSV: the third channel rises in even sectors and falls in odd ones", imp(same && c.s > 0, sector % 2 == 0 ? mid2 >= mid : mid2 <= mid));
}
