// C35: rectangles and polygons.
// vp: urem1=1 mulabs=1 budget=500 unroll=1000
// vp-bounded concave_(quarter|tiny|large) all quadrilaterals through the middle of a 3 by 3 grid, at one scale each
#include "vp.hh"
#include "util/geometry.hh"

using namespace vp;

constexpr int32_t LIM = 1 << 30;
static RectC any_rect(const char *n) {
	int32_t l = any_in<int32_t>(-LIM, LIM - 1, n), t = any_in<int32_t>(-LIM, LIM - 1, n);
	int32_t r = any_in<int32_t>(-LIM, LIM - 1, n), b = any_in<int32_t>(-LIM, LIM - 1, n);
	return {l, t, r, b};
}
VP_CONTRACT(corners) {
	auto r = any_rect("r");
	VP_ENSURES("RectC: width and height", r.width() == r.right - r.left && r.height() == r.bottom - r.top);
	VP_ENSURES("RectC: centre", r.center_x() == (r.left + r.right) / 2 && r.center_y() == (r.top + r.bottom) / 2);
	Rect q{r.left, r.top, any_in<int32_t>(0, LIM, "w"), any_in<int32_t>(0, LIM, "h")};
	VP_ENSURES("Rect: right and bottom", q.right() == q.left + q.width && q.bottom() == q.top + q.height);
	VP_ENSURES("Rect: centre lies within", q.center_x() >= q.left && q.center_x() <= q.right() && q.center_y() >= q.top && q.center_y() <= q.bottom());
	int64_t off_x = 2 * int64_t(q.center_x()) - q.left - q.right(), off_y = 2 * int64_t(q.center_y()) - q.top - q.bottom();
	VP_ENSURES("Rect: centre is half way", off_x <= 0 && off_x >= -1 && off_y <= 0 && off_y >= -1);
}
VP_CONTRACT(intersections) {
	RectC a{any<int32_t>("al"), any<int32_t>("at"), any<int32_t>("ar"), any<int32_t>("ab")};
	RectC b{any<int32_t>("bl"), any<int32_t>("bt"), any<int32_t>("br"), any<int32_t>("bb")};
	VP_REQUIRES(a.left <= a.right && a.top <= a.bottom && b.left <= b.right && b.top <= b.bottom);
	bool x = a.x_intersects(b), y = a.y_intersects(b);
	int32_t px = any<int32_t>("x"), py = any<int32_t>("y");
	bool in_x = (px >= a.left) & (px <= a.right) & (px >= b.left) & (px <= b.right);
	bool in_y = (py >= a.top) & (py <= a.bottom) & (py >= b.top) & (py <= b.bottom);
	VP_ENSURES("RectC: a shared column means intersection", imp(in_x, x));
	VP_ENSURES("RectC: a shared row means intersection", imp(in_y, y));
	int32_t l = a.left > b.left ? a.left : b.left, t = a.top > b.top ? a.top : b.top;
	VP_ENSURES("RectC: intersection means a shared column", imp(x, l <= a.right && l <= b.right));
	VP_ENSURES("RectC: intersection means a shared row", imp(y, t <= a.bottom && t <= b.bottom));
	VP_ENSURES("RectC: rectangles intersect exactly if they share rows and columns", a.is_intersecting(b) == (x && y));
	VP_ENSURES("RectC: intersection is symmetric", b.is_intersecting(a) == a.is_intersecting(b) && b.x_intersects(a) == x && b.y_intersects(a) == y);
	VP_ENSURES("RectC: intersects itself", a.is_intersecting(a));
}

// --- polygons of any number of corners: concave exactly if it turns both ways
struct Pt {
	int8_t x, y;
};
static Pt *PTS;
static uint64_t N;
static int coord(uint64_t i, unsigned c) {
	uint64_t k = i < N ? i : i - N;
	return int8_t(vp_byte(PTS, 2 * k + c));
}
static int turn(uint64_t i) {
	int ox = coord(i, 0), oy = coord(i, 1), ax = coord(i + 1, 0), ay = coord(i + 1, 1), bx = coord(i + 2, 0), by = coord(i + 2, 1);
	return (ax - ox) * (by - oy) - (ay - oy) * (bx - ox);
}
// some corner before i turns left (right)
static uint64_t left(uint64_t i) {
	return vp_uf(1, i, 0, 0) & 1;
}
static uint64_t right(uint64_t i) {
	return vp_uf(2, i, 0, 0) & 1;
}
static void unfold(uint64_t i) {
	vp_let(1, 0, 0);
	vp_let(2, 0, 0);
	int t = turn(i);
	uint64_t l = left(i), r = right(i);
	vp_let(1, i + 1, l | (t > 0));
	vp_let(2, i + 1, r | (t < 0));
}
static bool inv(uint64_t i, uint64_t k) {
	unfold(i);
	unfold(i - 1);
	if (k == 0)
		return i <= N;
	return (left(i) & right(i)) == 0;
}
static uint64_t terms(uint64_t i, uint64_t k) {
	uint64_t l = left(i), r = right(i);
	return k == 0 ? i : l ? 1 : r ? uint32_t(-1) : 0;
}
static uint64_t flags(uint64_t i, uint64_t k) {
	return k == 0 ? left(i) : right(i);
}
VP_CONTRACT(concave_any) {
	N = any_in<uint64_t>(0, 1u << 31, "corners");
	PTS = static_cast<Pt *>(vp_buffer(N * sizeof(Pt), "points"));
	VP_REQUIRES(N > 0);
	vp_lazy(1, unfold, true);
	vp_lazy(2, unfold, true);
	unfold(0);
	loop_inv(inv, 2);
	loop_terms(terms, 2);
	loop_flags(flags, 2);
	bool c = is_poly_concave<Pt>(std::span<const Pt>{PTS, N});
	no_loop();
	VP_ENSURES("is_poly_concave: fewer than three corners are not concave", imp(N < 3, !c));
	if (N >= 3 && !c)
		VP_ENSURES("is_poly_concave: a polygon that turns both ways is concave", (left(N) & right(N)) == 0);
	if (N >= 3 && c) {
		uint64_t i = vp_iter();
		unfold(i);
		VP_ENSURES("is_poly_concave: a concave polygon has turned both ways", i < N ? (left(i + 1) & right(i + 1)) : (i == N) & (left(N) & right(N)));
	}
}
VP_CONTRACT(concave_empty) {
	Pt p[2]{};
	VP_ENSURES("is_poly_concave: nothing, a point and a line are not concave", !is_poly_concave<Pt>(std::span<const Pt>{p, 0}) && !is_poly_concave<Pt>(std::span<const Pt>{p, 1}) && !is_poly_concave<Pt>(std::span<const Pt>{p, 2}));
}
// fractions and large coordinates count: every quadrilateral from the origin over a 3 by 3 grid, at other scales
template<typename T>
static bool grid(T scale) {
	struct P {
		T x, y;
	};
	bool ok = true;
	for (int k = 0; k < 729; k++) {
		int x[4] = {1, k % 3, k / 3 % 3, k / 9 % 3}, y[4] = {1, k / 27 % 3, k / 81 % 3, k / 243 % 3};
		bool l = false, r = false;
		P p[4];
		for (int i = 0; i < 4; i++) {
			int a = (i + 1) % 4, b = (i + 2) % 4;
			int t = (x[a] - x[i]) * (y[b] - y[i]) - (y[a] - y[i]) * (x[b] - x[i]);
			l = l | (t > 0);
			r = r | (t < 0);
			p[i].x = T(x[i]) * scale;
			p[i].y = T(y[i]) * scale;
		}
		ok = ok & (is_poly_concave<P>(std::span<const P>{p, 4}) == (l & r));
	}
	return ok;
}
VP_CONTRACT(concave_quarter) {
	VP_ENSURES("is_poly_concave: fractional coordinates", grid<float>(0.25f));
}
VP_CONTRACT(concave_tiny) {
	VP_ENSURES("is_poly_concave: fractional coordinates", grid<double>(1.0 / 1024));
}
VP_CONTRACT(concave_large) {
	VP_ENSURES("is_poly_concave: coordinates whose products need 64 bits", grid<int64_t>(1 << 20));
}
