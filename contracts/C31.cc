// C31: callables stored in place.
#include "vp.hh"
#include "util/callable.hh"

using namespace vp;

// A callable that knows where it lives, and counts how many of its kind live.
static unsigned live;
static unsigned moved; // times a member was used on an object that was not constructed where it is
struct Tracked {
	const Tracked *self;
	int32_t state;
	Tracked(int32_t s)
		: self{this}
		, state{s} {
		live++;
	}
	Tracked(Tracked const &o)
		: self{this}
		, state{o.state} {
		moved += o.self != &o;
		live++;
	}
	Tracked &operator=(Tracked const &) = delete;
	~Tracked() {
		moved += self != this;
		self = nullptr;
		live--;
	}
	int operator()(int a, int b) {
		moved += self != this;
		auto was = uint32_t(state);
		state = int(was + 1);
		return int(was ^ (uint32_t(a) * 3 + uint32_t(b)));
	}
};
// a smaller one with another behaviour
struct Plain {
	uint8_t k;
	int operator()(int a, int b) const {
		return int(uint32_t(a) - uint32_t(b) * k);
	}
};
using F = Function<int(int, int)>;

// what a slot should hold
struct Model {
	int kind = 0; // 0 empty, 1 Tracked, 2 Plain
	int32_t v = 0;
};
static int expect(Model &m, int a, int b) {
	if (m.kind == 1) {
		auto was = uint32_t(m.v);
		m.v = int(was + 1);
		return int(was ^ (uint32_t(a) * 3 + uint32_t(b)));
	}
	return int(uint32_t(a) - uint32_t(b) * uint8_t(m.v));
}
static void fill(F &f, Model &m) {
	m.kind = any_in<int>(0, 2, "kind");
	m.v = any<int32_t>("v");
	if (m.kind == 0)
		f = F{};
	else if (m.kind == 1)
		f = Tracked{m.v};
	else
		f = Plain{uint8_t(m.v)};
}
static void check(F &f, Model &m) {
	VP_ENSURES("Function: true exactly if it holds something", bool(f) == (m.kind != 0));
	if (m.kind) {
		int a = any<int>("a"), b = any<int>("b");
		VP_ENSURES("Function: calls what it holds and returns its result", f(a, b) == expect(m, a, b));
		VP_ENSURES("Function: keeps the state of what it holds", f.call(b, a) == expect(m, b, a));
	}
}
static void no_leak(Model const *m, unsigned n) {
	unsigned want = 0;
	for (unsigned i = 0; i < n; i++)
		want += m[i].kind == 1;
	VP_ENSURES("Function: what it held before is destroyed, what it holds is not", live == want);
	VP_ENSURES("Function: objects are only used where they were constructed", moved == 0);
}
VP_CONTRACT(fresh) {
	{
		F f;
		VP_ENSURES("Function: starts empty", !f);
		Model m;
		fill(f, m);
		no_leak(&m, 1);
		check(f, m);
	}
	VP_ENSURES("Function: destroys what it holds", live == 0 && moved == 0);
}
VP_CONTRACT(constructed) {
	{
		int32_t v = any<int32_t>("v");
		F f{Tracked{v}};
		Model m{1, v};
		no_leak(&m, 1);
		check(f, m);
	}
	VP_ENSURES("Function: destroys what it holds", live == 0 && moved == 0);
}
VP_CONTRACT(copied) {
	{
		F f;
		Model m[2];
		fill(f, m[0]);
		m[1] = m[0];
		F g{f};
		no_leak(m, 2);
		check(g, m[1]); // calling the copy does not disturb the original
		check(f, m[0]);
		check(g, m[1]);
		no_leak(m, 2);
	}
	VP_ENSURES("Function: copies are destroyed once each", live == 0 && moved == 0);
}
VP_CONTRACT(assigned) {
	{
		F f, g;
		Model m[2];
		fill(f, m[0]);
		fill(g, m[1]);
		g = f;
		m[1] = m[0];
		no_leak(m, 2);
		check(f, m[0]);
		check(g, m[1]);
		fill(f, m[0]);
		no_leak(m, 2);
		check(g, m[1]);
		check(f, m[0]);
	}
	VP_ENSURES("Function: assigned copies are destroyed once each", live == 0 && moved == 0);
}
VP_CONTRACT(self_assigned) {
	{
		F f;
		Model m;
		fill(f, m);
		F &same = f;
		f = same;
		no_leak(&m, 1);
		check(f, m);
	}
	VP_ENSURES("Function: self-assignment destroys nothing", live == 0 && moved == 0);
}
VP_CONTRACT(moved_from) {
	{
		F f;
		Model m[2];
		fill(f, m[0]);
		F g{static_cast<F &&>(f)};
		m[1] = m[0];
		check(g, m[1]);
		F h;
		h = static_cast<F &&>(g);
		check(h, m[1]);
	}
	VP_ENSURES("Function: nothing is left behind", live == 0 && moved == 0);
}

// --- arguments by reference and by value, no result, captured pointers
VP_CONTRACT(references) {
	int x = any<int>("x"), seen = 0;
	Function<void(int &)> f = [&seen](int &r) {
		seen = r;
		r = int(uint32_t(r) + 1);
	};
	int x0 = x;
	f(x);
	VP_ENSURES("Function: passes references on", seen == x0 && x == int(uint32_t(x0) + 1));
	Function<int *(int *, char)> g = [](int *p, char c) { return c ? p : nullptr; };
	char c = any<char>("c");
	VP_ENSURES("Function: passes pointers and small values", g(&x, c) == (c ? &x : nullptr));
}
static unsigned owners;
struct Owner {
	int v;
	Owner(int x)
		: v{x} {
		owners++;
	}
	Owner(Owner &&o)
		: v{o.v} {
		o.v = 0;
		owners++;
	}
	Owner(Owner const &) = delete;
	~Owner() {
		owners--;
	}
};
VP_CONTRACT(movable) {
	{
		int v = any<int>("v");
		Function<int(Owner)> f = [](Owner o) { return o.v; };
		VP_ENSURES("Function: arguments that can only be moved", f(Owner{v}) == v);
	}
	VP_ENSURES("Function: moved arguments are destroyed", owners == 0);
}
VP_CONTRACT(callback) {
	{
		Callback none;
		VP_ENSURES("Callback: starts empty", !none);
		unsigned calls = 0;
		Callback cb{[&calls] { calls++; }};
		VP_ENSURES("Callback: does not call before it is called", calls == 0 && cb);
		unsigned n = any_in<unsigned>(0, 3, "n");
		for (unsigned i = 0; i < n; i++)
			cb();
		VP_ENSURES("Callback: calls once per call", calls == n);
		none = cb;
		none.call();
		VP_ENSURES("Callback: a copy calls the same", calls == n + 1 && none);
		struct Big {
			Tracked t;
			uint64_t more[3];
			void operator()() {
				more[2]++;
			}
		};
		CallbackSized<48> big{Big{Tracked{1}, {}}};
		CallbackSized<48> copy{big};
		big();
		VP_ENSURES("CallbackSized: holds larger objects", live == 2 && moved == 0);
	}
	VP_ENSURES("Callback: destroys what it holds", live == 0 && moved == 0);
}
