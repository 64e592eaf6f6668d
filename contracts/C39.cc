// C39: the memory test.
// vp: unroll=40
// vp-bounded broken_.* memories of at most five words, misbehaving in any way at any access
#include "vp.hh"
#include "util/mem_test.hh"

using namespace vp;

static uint32_t *RAM;
static uint64_t N, J;
static uint32_t pattern(uint64_t i) { return uint32_t(vp_uf(1, i, 0, 0)); }

// --- working memory of any size
static uint64_t seed_at(uint64_t i, uint64_t k) {
	return vp_uf(1, i, 0, 0);
}
static void unfold(uint64_t i) {
	vp_let(1, 0, 0x1234FEDCu);
	vp_let(1, i + 1, uint32_t(pattern(i) * 0x55555555u + 0x00700707u));
}
static uint32_t word(uint64_t i) {
	return vp_byte(RAM, i * 4) | uint32_t(vp_byte(RAM, i * 4 + 1)) << 8 | uint32_t(vp_byte(RAM, i * 4 + 2)) << 16 | uint32_t(vp_byte(RAM, i * 4 + 3)) << 24;
}
static const void *at(uint64_t i, uint64_t) {
	return RAM + i;
}
static bool inv(uint64_t i, uint64_t k) {
	unfold(i);
	unfold(i - 1);
	if (k == 0)
		return i <= N;
	return imp(J < i, word(J) == pattern(J));
}
VP_CONTRACT(works) {
	N = any_in<uint64_t>(0, 1u << 24, "words");
	J = any_in<uint64_t>(0, 1u << 24, "one of them");
	VP_REQUIRES(J < N);
	RAM = static_cast<uint32_t *>(vp_buffer(N * 4, "memory"));
	loop_inv(inv, 2);
	loop_terms(seed_at, 1);
	loop_ptrs(at, 1);
	bool ok = MemTest::check(RAM, RAM + N);
	no_loop();
	// J stands for every word: were any word k found wrong, the clause would fail for J == k
#ifdef VP_NATIVE
	VP_ENSURES("MemTest: working memory passes", ok);
#else
	VP_ENSURES("MemTest: working memory passes", ok | (J != vp_iter()));
	VP_ENSURES("MemTest: gives up at a word of the range only", ok | (vp_iter() < N));
#endif
}
// --- memory of any size that misbehaves at any reads; J is any one of its words
static bool GOT;	 // word J was read since it was last written
static uint32_t W, X; // what it held then; what the read yielded
static void strike(void *p, uint64_t, int write, int, int) {
	uint32_t *w = static_cast<uint32_t *>(p);
	if (write) {
		if (w == RAM + J)
			GOT = false;
		return;
	}
	uint32_t x = any<uint32_t>("what the memory yields");
	if (w == RAM + J) {
		if (!GOT)
			W = *w;
		GOT = true;
		X = x;
	}
	*w = x;
}
static bool fault_inv(uint64_t i, uint64_t k) {
	unfold(i);
	unfold(i - 1);
	if (k == 0)
		return i <= N;
	if (k == 1)
		return !GOT & imp(J < i, word(J) == pattern(J)); // writing
	if (k == 2)
		return imp(J >= i, !GOT & (word(J) == pattern(J))); // reading
	return imp(J < i, GOT & (W == X));
}
VP_CONTRACT(fault) {
	N = any_in<uint64_t>(0, 1u << 24, "words");
	J = any_in<uint64_t>(0, 1u << 24, "one of them");
	VP_REQUIRES(J < N);
	RAM = static_cast<uint32_t *>(vp_ram(N * 4, "memory"));
	GOT = false, W = 0, X = 0;
	loop_inv(fault_inv, 4);
	loop_terms(seed_at, 1);
	loop_ptrs(at, 1);
	vp_watch(RAM);
	vp_hook((const void *)&strike, nullptr);
	bool ok = MemTest::check(RAM, RAM + N);
	vp_hook(nullptr, nullptr);
	no_loop();
	VP_ENSURES("MemTest: passes only if every word was read and yielded what was written last", imp(ok, GOT & (W == X)));
#ifndef VP_NATIVE
	VP_ENSURES("MemTest: fails only where a word did not yield what was written last", ok | (J != vp_iter()) | (GOT & (W != X)));
#endif
}
// No two words of a range of up to 2^24 hold the same: after 2^k steps a word x has become a x + c with the a and c below,
// which differs from x by 2^k modulo 2^(k+1).  Two words are an odd multiple of some 2^k, k < 24, apart, so they differ by 2^k
// modulo 2^(k+1), too.
VP_CONTRACT(distinct) {
	uint32_t a = 0x55555555u, c = 0x00700707u, x = any<uint32_t>("word");
	bool apart = true;
	for (unsigned k = 0; k < 24; k++) {
		apart = apart & (((a * x + c - x) & ((2u << k) - 1)) == 1u << k);
		c = a * c + c;
		a = a * a;
	}
	VP_ENSURES("MemTest: no two words hold the same when they are read", apart);
}
VP_CONTRACT(nothing) {
	uint32_t w[3], old[3];
	for (int i = 0; i < 3; i++)
		w[i] = old[i] = any<uint32_t>("word");
	size_t from = any_in<size_t>(0, 3, "from"), to = any_in<size_t>(0, 3, "to");
	bool ok = true, same = true;
	for (size_t i = 0; i <= 3; i++)
		for (size_t j = 0; j <= 3; j++)
			if (from == i && to == j)
				ok = MemTest::check(w + i, w + j);
	for (size_t i = 0; i < 3; i++) {
		bool in = i >= from && i < to, eq = w[i] == old[i];
		same = same & (in | eq);
	}
	VP_ENSURES("MemTest: touches nothing outside of the range", same);
	VP_ENSURES("MemTest: working memory passes, however short", ok);
	uint32_t a = any<uint32_t>("address"), b = any<uint32_t>("below");
	VP_REQUIRES(a > b);
	VP_ENSURES("MemTest: a reversed range of addresses is refused", !MemTest::check(a, b));
	VP_ENSURES("MemTest: an empty range of addresses passes", MemTest::check(a, a));
}

// --- memory that misbehaves: every read yields anything
static unsigned LEN;
static uint32_t held[8];  // what each word was given last
static bool given[8], seen[8]; // written; read
static bool honest;		  // every read so far yielded what was written last
static bool early;		  // something was read before it was written
static bool alike;		  // two words held the same when the first was read
static bool reading;
static int last;		  // word written by the previous access
static void settle() {
	for (unsigned i = 0; i < LEN; i++)
		if (last == int(i))
			held[i] = RAM[i];
	last = -1;
}
static void pre(void *p, uint64_t, int write, int, int) {
	settle();
	uint64_t i = uint64_t(static_cast<uint32_t *>(p) - RAM);
	if (write) {
		for (unsigned k = 0; k < LEN; k++)
			given[k] = given[k] | (i == k);
		last = int(i);
		return;
	}
	if (!reading)
		for (unsigned a = 0; a < LEN; a++)
			for (unsigned b = a + 1; b < LEN; b++)
				alike = alike | (held[a] == held[b]);
	reading = true;
	uint32_t x = any<uint32_t>("what the memory yields");
	for (unsigned k = 0; k < LEN; k++)
		if (i == k) {
			early = early | !given[k];
			honest = honest & (x == held[k]);
			seen[k] = true;
			RAM[k] = x;
		}
}
static void broken(unsigned n) {
	LEN = n;
	RAM = static_cast<uint32_t *>(vp_ram(n * 4, "memory"));
	honest = true, early = false, alike = false, reading = false, last = -1;
	for (unsigned i = 0; i < n; i++)
		given[i] = seen[i] = false;
	vp_watch(RAM);
	vp_hook((const void *)&pre, nullptr);
	bool ok = MemTest::check(RAM, RAM + n);
	vp_hook(nullptr, nullptr);
	bool all = true;
	for (unsigned i = 0; i < n; i++)
		all = all & given[i] & seen[i];
	VP_ENSURES("MemTest: no word is read before it is written", !early);
	VP_ENSURES("MemTest: passes only if every word was written and read", imp(ok, all));
	VP_ENSURES("MemTest: passes exactly if every read yields what was written last", ok == honest);
	VP_ENSURES("MemTest: all words hold different values when they are read, so that no two can be one", !alike);
}
VP_CONTRACT(broken_1) { broken(1); }
VP_CONTRACT(broken_2) { broken(2); }
VP_CONTRACT(broken_3) { broken(3); }
VP_CONTRACT(broken_5) { broken(5); }
