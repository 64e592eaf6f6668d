// C24: version numbers.
#include "vp.hh"
#include "util/version_tools.hh"

using namespace vp;
using VersionUtil::Version;

// vp-bounded text_.* texts of at most 4 arbitrary characters, and of the listed shapes up to 16 characters

static Version any_version(const char *n) {
	Version v{any<uint8_t>(n), any<uint8_t>(n), any<uint8_t>(n)};
	v.is_normal = any<bool>(n);
	return v;
}
// position of a version in the order: the numbers, then pre-releases before the release itself
static uint32_t rank(Version const &v) {
	return (uint32_t(v.major) << 17) | (uint32_t(v.minor) << 9) | (uint32_t(v.revision) << 1) | uint32_t(v.is_normal);
}

VP_CONTRACT(order) {
	auto a = any_version("a"), b = any_version("b");
	VP_ENSURES("Version: less is the order of the numbers, pre-releases before the release", (a < b) == (rank(a) < rank(b)));
	VP_ENSURES("Version: greater is the order of the numbers, pre-releases before the release", (a > b) == (rank(a) > rank(b)));
	VP_ENSURES("Version: at most", (a <= b) == (rank(a) <= rank(b)));
	VP_ENSURES("Version: at least", (a >= b) == (rank(a) >= rank(b)));
	VP_ENSURES("Version: equality", (a == b) == (rank(a) == rank(b)) && (a != b) == (rank(a) != rank(b)));
	VP_ENSURES("Version: is_later", a.is_later(b) == (rank(a) > rank(b)));
	VP_ENSURES("Version: can host the same major with at most its minor", a.can_host_version(b) == (a.major == b.major && b.minor <= a.minor));
}
VP_CONTRACT(numbers) {
	auto x = any<uint8_t>("major"), y = any<uint8_t>("minor"), z = any<uint8_t>("revision");
	Version v{x, y, z};
	VP_ENSURES("Version: made of three numbers", v.major == x && v.minor == y && v.revision == z && v.is_normal);
	Version d;
	VP_ENSURES("Version: default is 0.0.0", d == Version(0, 0, 0));
}

static bool space(char c) {
	return (c == ' ') | (c >= '\t' && c <= '\r');
}
static bool digit(char c) {
	return c >= '0' && c <= '9';
}
// what a text says, read left to right one character at a time
struct Reading {
	unsigned field[3]{};
	unsigned at = 0;
	unsigned val = 0;
	bool begun = false, neg = false, over = false, dash = false;
	void end() {
		for (unsigned i = 0; i < 3; i++)
			if (i == at && val <= 255 && !(neg && val > 0))
				field[i] = val;
	}
	void see(char c) {
		if (c == '.') {
			end();
			at++;
			val = 0;
			begun = neg = over = dash = false;
			return;
		}
		dash = dash | (c == '-');
		bool d = digit(c) & !over;
		bool blank = !begun & !over & space(c);
		bool sign = !begun & !over & ((c == '-') | (c == '+'));
		unsigned next = val * 10 + unsigned(c - '0');
		val = d ? (next > 256 ? 256 : next) : val;
		neg = neg | (sign & (c == '-'));
		begun = begun | d | sign;
		over = over | !(d | blank | sign);
	}
};
static void check(const char *p, unsigned n) {
	Reading r;
	for (unsigned i = 0; i < n; i++)
		r.see(p[i]);
	r.end();
	Version v{std::string_view{p, n}};
	VP_ENSURES("Version: text: major", v.major == r.field[0]);
	VP_ENSURES("Version: text: minor", v.minor == r.field[1]);
	VP_ENSURES("Version: text: revision", v.revision == r.field[2]);
	VP_ENSURES("Version: text: pre-release exactly if there is a dash after the last dot", v.is_normal == !r.dash);
}
template<unsigned N>
static void arbitrary() {
	char *p = static_cast<char *>(vp_buffer(N, "text"));
	for (unsigned i = 0; i < N; i++)
		p[i] = any<char>("c");
	check(p, N);
}
VP_CONTRACT(text_0) { arbitrary<0>(); }
VP_CONTRACT(text_1) { arbitrary<1>(); }
VP_CONTRACT(text_2) { arbitrary<2>(); }
VP_CONTRACT(text_3) { arbitrary<3>(); }
VP_CONTRACT(text_4) { arbitrary<4>(); }

// shapes: d = any digit, other characters stand for themselves
template<size_t N>
static void shape(const char (&s)[N]) {
	char *p = static_cast<char *>(vp_buffer(N - 1, "text"));
	for (size_t i = 0; i < N - 1; i++)
		p[i] = s[i] == 'd' ? any_in<char>('0', '9', "digit") : s[i] == '?' ? any<char>("c") : s[i];
	check(p, N - 1);
}
VP_CONTRACT(text_short) { shape("d.d.d"); }
VP_CONTRACT(text_long) { shape("dd.ddd.ddd"); }
VP_CONTRACT(text_v) { shape("vd.d"); }
VP_CONTRACT(text_two) { shape("ddd.dd"); }
VP_CONTRACT(text_pre) { shape("d.d.d-?d"); }
VP_CONTRACT(text_pre2) { shape("d.d-dev.d"); }
VP_CONTRACT(text_huge) { shape("dddddddddd.d.d"); }
VP_CONTRACT(text_huge2) { shape("d.ddddddddddddd"); }
VP_CONTRACT(text_four) { shape("d.d.d.d"); }
VP_CONTRACT(text_blank) { shape(" d. d"); }
