// C23: text helpers.  The loops of std::string and std::vector are unrolled, so every contract here is for given sizes.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "vp.hh"
#include "util/string_util.hh"
#include "util/contains_word.hh"

// vp-bounded .* all texts of the listed lengths (see the instances), any characters

using namespace vp;

// the C locale
extern "C" int tolower(int c) noexcept {
	VP_ENSURES("tolower: asked for a character code", c >= -1 && c <= 255);
	return c >= 'A' && c <= 'Z' ? c + 32 : c;
}

template<size_t N>
static std::string any_text(const char *name) {
	std::string s(N, 'x');
	for (auto &c : s)
		c = any<char>(name);
	return s;
}
static bool same(std::string const &s, const char *p, size_t n) {
	bool ok = s.size() == n;
	for (size_t i = 0; i < n && ok; i++)
		ok = s[i] == p[i];
	return ok;
}

template<size_t N, size_t M, size_t R>
static void replace() {
	auto text = any_text<N>("text"), find = any_text<M>("find"), repl = any_text<R>("replacement");
	char out[N * (R + 1) + 1];
	size_t n = 0;
	for (size_t i = 0; i < N;) {
		bool match = M > 0 && i + M <= N;
		for (size_t k = 0; k < M && i + k < N; k++)
			match = match & (text[i + k] == find[k]);
		if (match) {
			for (size_t k = 0; k < R; k++)
				out[n++] = repl[k];
			i += M;
		} else
			out[n++] = text[i++];
	}
	ReplaceString r{text};
	VP_ENSURES("replace_all: starts with the given text", r.str == text);
	auto &ret = r.replace_all(find, repl);
	VP_ENSURES("replace_all: every occurrence, from the left, once", same(r.str, out, n));
	VP_ENSURES("replace_all: can be chained", &ret == &r);
}
VP_CONTRACT(replace_0_0_1) { replace<0, 0, 1>(); }
VP_CONTRACT(replace_0_1_1) { replace<0, 1, 1>(); }
VP_CONTRACT(replace_2_0_1) { replace<2, 0, 1>(); }
VP_CONTRACT(replace_3_1_0) { replace<3, 1, 0>(); }
VP_CONTRACT(replace_3_1_1) { replace<3, 1, 1>(); }
VP_CONTRACT(replace_3_1_2) { replace<3, 1, 2>(); }
VP_CONTRACT(replace_5_1_2) { replace<5, 1, 2>(); }
VP_CONTRACT(replace_4_2_0) { replace<4, 2, 0>(); }
VP_CONTRACT(replace_4_2_1) { replace<4, 2, 1>(); }
VP_CONTRACT(replace_5_2_2) { replace<5, 2, 2>(); }
VP_CONTRACT(replace_5_2_3) { replace<5, 2, 3>(); }
VP_CONTRACT(replace_6_3_1) { replace<6, 3, 1>(); }
VP_CONTRACT(replace_4_1_6) { replace<4, 1, 6>(); } // outgrows the short buffer of std::string
VP_CONTRACT(replace_1_2_1) { replace<1, 2, 1>(); }

template<size_t N, size_t M>
static void word() {
	auto text = any_text<N>("text"), word = any_text<M>("word");
	auto fold = [](char c) { return char(c + ((c >= 'A') & (c <= 'Z')) * 32); };
	bool found = false;
	for (size_t i = 0; i + M <= N; i++) {
		bool here = (i == 0 || text[i - 1] == ' ') & (i + M == N || text[i + M] == ' ');
		for (size_t k = 0; k < M; k++)
			here = here & (fold(text[i + k]) == fold(word[k]));
		found = found | here;
	}
	VP_ENSURES("contains_word: the word occurs between spaces or ends, in any case", contains_word(text, word) == found);
}
VP_CONTRACT(word_0_0) { word<0, 0>(); }
VP_CONTRACT(word_0_1) { word<0, 1>(); }
VP_CONTRACT(word_1_0) { word<1, 0>(); }
VP_CONTRACT(word_1_1) { word<1, 1>(); }
VP_CONTRACT(word_2_1) { word<2, 1>(); }
VP_CONTRACT(word_3_1) { word<3, 1>(); }
VP_CONTRACT(word_2_2) { word<2, 2>(); }
VP_CONTRACT(word_3_2) { word<3, 2>(); }
VP_CONTRACT(word_4_2) { word<4, 2>(); }
VP_CONTRACT(word_5_2) { word<5, 2>(); }
VP_CONTRACT(word_2_0) { word<2, 0>(); }
VP_CONTRACT(word_1_2) { word<1, 2>(); }

template<size_t N, size_t D, bool DEFAULT = false>
static void tokens() {
	auto text = any_text<N>("text"), delims = any_text<D>("delimiters");
	if (DEFAULT)
		delims = ",";
	bool isd[N + 1]{};
	for (size_t i = 0; i < N; i++)
		for (size_t k = 0; k < delims.size(); k++)
			isd[i] = isd[i] | (text[i] == delims[k]);
	std::vector<std::string> got;
	got.push_back("before");
	if constexpr (DEFAULT)
		tokenize_string(text, got);
	else
		tokenize_string(text, got, delims);
	VP_ENSURES("tokenize_string: keeps what was there", got.size() >= 1 && got[0] == "before");
	size_t n = 1;
	for (size_t i = 0; i < N;) {
		if (isd[i]) {
			i++;
			continue;
		}
		size_t e = i;
		while (e < N && !isd[e])
			e++;
		VP_ENSURES("tokenize_string: the stretches between delimiters, in order", n < got.size() && same(got[n], text.data() + i, e - i));
		n++;
		i = e;
	}
	VP_ENSURES("tokenize_string: nothing but the stretches between delimiters", got.size() == n);
}
VP_CONTRACT(tokens_0_1) { tokens<0, 1>(); }
VP_CONTRACT(tokens_1_1) { tokens<1, 1>(); }
VP_CONTRACT(tokens_2_1) { tokens<2, 1>(); }
VP_CONTRACT(tokens_3_1) { tokens<3, 1>(); }
VP_CONTRACT(tokens_3_2) { tokens<3, 2>(); }
VP_CONTRACT(tokens_5_1) { tokens<5, 1>(); }
VP_CONTRACT(tokens_4_2) { tokens<4, 2>(); }
VP_CONTRACT(tokens_3_0) { tokens<3, 0>(); }
VP_CONTRACT(tokens_4_default) { tokens<4, 0, true>(); }
