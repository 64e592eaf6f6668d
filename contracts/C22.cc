// C22: case-insensitive comparison.
#include "vp.hh"
#include "util/string_compare.hh"

// vp-bounded laws texts of at most two characters (the laws follow from the proved dictionary order)

using namespace vp;

// the C locale
extern "C" int tolower(int c) noexcept {
	return c >= 'A' && c <= 'Z' ? c + 32 : c;
}
static uint64_t LA, LB;
static const char *A, *B;

static int fold(const char *p, uint64_t i) {
	int c = vp_byte(p, i);
	return c + ((c >= 'A') & (c <= 'Z')) * 32;
}
// equal(i): the texts agree in the first i places;  less(i): the rest from place i on is less
static bool equal(uint64_t i) {
	return vp_uf(1, i, 0, 0) & 1;
}
static bool less(uint64_t i) {
	return vp_uf(2, i, 0, 0) & 1;
}
static bool after(bool ended_a, bool ended_b, uint64_t i) {
#ifdef VP_NATIVE
	if (ended_a || ended_b)
		return false;
#endif
	return less(i);
}
static void unfold(uint64_t i) {
	vp_let(1, 0, 1);
	vp_let(1, i + 1, equal(i) & (fold(A, i) == fold(B, i)));
	bool ended_b = i >= LB, ended_a = i >= LA;
	int a = fold(A, i), b = fold(B, i);
	vp_let(2, i, (!ended_b & (ended_a | (a < b) | ((a == b) & after(ended_a, ended_b, i + 1)))));
}
static bool inv(uint64_t i, uint64_t k) {
	unfold(i - 1);
	unfold(i);
	if (k == 0)
		return i <= LA;
	if (k == 1)
		return i <= LB;
	if (k == 2)
		return equal(i);
	if (k == 3)
		return less(0) == less(i);
	// once the texts differ somewhere they are not equal as a whole
	return true;
}
static uint64_t terms(uint64_t i, uint64_t k) {
	return k == 0 ? LA - i : LB - i;
}
static const void *ptrs(uint64_t i, uint64_t k) {
	return (k == 0 ? A : B) + i;
}
static void texts() {
	LA = any_in<uint64_t>(0, uint64_t(1) << 40, "length of a");
	LB = any_in<uint64_t>(0, uint64_t(1) << 40, "length of b");
	A = static_cast<char *>(vp_buffer(LA, "a"));
	B = static_cast<char *>(vp_buffer(LB, "b"));
	vp_lazy(1, unfold, true);
	vp_lazy(2, unfold, false);
	unfold(0);
	loop_inv(inv, 4);
	loop_terms(terms, 2);
	loop_ptrs(ptrs, 2);
}
VP_CONTRACT(less_) {
	texts();
	bool r = less_ci({A, LA}, {B, LB});
	no_loop();
	VP_ENSURES("less_ci: dictionary order of the folded texts", r == less(0));
}
VP_CONTRACT(equal_) {
	texts();
	uint64_t at = any<uint64_t>("at");
	bool r = equal_ci({A, LA}, {B, LB});
	no_loop();
	// equal as a whole: same length and no place where they differ
	VP_ENSURES("equal_ci: equal texts have equal lengths", imp(r, LA == LB));
	VP_ENSURES("equal_ci: equal texts agree everywhere", imp(r, equal(LA)));
}
// a text with one difference is not equal
static uint64_t AT;
static bool inv_ne(uint64_t i, uint64_t k) {
	return k == 0 ? i <= LA : i <= AT;
}
VP_CONTRACT(not_equal) {
	LA = any_in<uint64_t>(1, uint64_t(1) << 40, "length");
	LB = LA;
	A = static_cast<char *>(vp_buffer(LA, "a"));
	B = static_cast<char *>(vp_buffer(LB, "b"));
	AT = any_in<uint64_t>(0, LA - 1, "place");
	VP_REQUIRES(fold(A, AT) != fold(B, AT));
	loop_inv(inv_ne, 2);
	loop_terms(terms, 2);
	loop_ptrs(ptrs, 2);
	bool r = equal_ci({A, LA}, {B, LB});
	no_loop();
	VP_ENSURES("equal_ci: texts that differ somewhere are not equal", !r);
}
VP_CONTRACT(all_equal) {
	LA = any_in<uint64_t>(0, uint64_t(1) << 40, "length");
	LB = LA;
	A = static_cast<char *>(vp_buffer(LA, "a"));
	B = static_cast<char *>(vp_buffer(LB, "b"));
	loop_inv([](uint64_t i, uint64_t k) {
		// precondition, at the place the loop is at: the texts agree
		vp_define(imp(i < LA, fold(A, i) == fold(B, i)));
		return k == 0 && i <= LA;
	}, 1);
	loop_terms(terms, 2);
	loop_ptrs(ptrs, 2);
	vp_define(imp(0 < LA, fold(A, 0) == fold(B, 0)));
#ifdef VP_NATIVE
	for (uint64_t i = 0; i < LA; i++)
		VP_REQUIRES(fold(A, i) == fold(B, i));
#endif
	bool r = equal_ci({A, LA}, {B, LB});
	no_loop();
	VP_ENSURES("equal_ci: texts that agree everywhere are equal", r);
}
// order laws on short texts, any characters
VP_CONTRACT(laws) {
	char x[2], y[2], z[2];
	for (int i = 0; i < 2; i++) {
		x[i] = any<char>("x");
		y[i] = any<char>("y");
		z[i] = any<char>("z");
	}
	std::string_view a{x, any_in<size_t>(0, 2, "nx")}, b{y, any_in<size_t>(0, 2, "ny")};
	bool ab = less_ci(a, b), ba = less_ci(b, a), eq = equal_ci(a, b);
	VP_ENSURES("less_ci and equal_ci: exactly one of less, equal, greater", ab + ba + eq == 1);
	std::string_view c{z, any_in<size_t>(0, 1, "nz")};
	VP_ENSURES("less_ci: transitive", imp(ab && less_ci(b, c), less_ci(a, c)));
}
