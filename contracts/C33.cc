// C33: the double-buffered transmitter.
// vp: unroll=40
#include "vp.hh"
#include "util/doublebuf_stream.hh"

using namespace vp;

constexpr size_t SZ = 4;
using Stream = DoubleBufferStream<uint8_t, SZ>;

// the hardware: what it was given, byte for byte, and where from
struct Hw {
	unsigned starts = 0;
	std::span<uint8_t> at;
	uint8_t copy[SZ];
	bool fits = true;
	bool accept(std::span<uint8_t> s) {
		starts++;
		at = s;
		fits = fits && s.size() <= SZ;
		for (size_t i = 0; i < s.size() && i < SZ; i++)
			copy[i] = s[i];
		return true;
	}
	// the data in transmission must not change
	bool intact() const {
		bool ok = true;
		for (size_t i = 0; i < at.size() && i < SZ; i++)
			ok = ok & (at[i] == copy[i]);
		return ok;
	}
};
static Hw hw;
struct Words {
	uint8_t b[SZ + 2];
	size_t n;
};
static Words any_words(size_t most) {
	Words w;
	for (auto &x : w.b)
		x = any<uint8_t>("data");
	w.n = any_in<size_t>(0, most, "n");
	for (size_t k = 0; k <= SZ + 2; k++)
		if (w.n == k)
			w.n = k;
	return w;
}
// brings the stream to any of its states: idle, or sending buffer 0 or 1, with any content, and any content waiting
struct State {
	int busy;
	Words sending, waiting;
};
static State reach(Stream &s) {
	State st;
	st.busy = any_in<int>(0, 2, "busy");
	st.sending.n = st.waiting.n = 0;
	if (st.busy == 0)
		return st;
	if (st.busy == 2) {
		auto first = any_words(1);
		first.n = 1;
		s.transmit({first.b, first.n});
		st.sending = any_words(SZ);
		VP_REQUIRES(st.sending.n > 0);
		s.transmit({st.sending.b, st.sending.n});
		s.tx_done_callback();
	} else {
		st.sending = any_words(SZ);
		VP_REQUIRES(st.sending.n > 0);
		s.transmit({st.sending.b, st.sending.n});
	}
	st.waiting = any_words(SZ);
	if (st.waiting.n)
		s.transmit({st.waiting.b, st.waiting.n});
	return st;
}
static bool sent(Words const &w) {
	bool ok = hw.at.size() == w.n;
	for (size_t i = 0; i < w.n && i < SZ; i++)
		ok = ok & (hw.copy[i] == w.b[i]);
	return ok;
}
static Stream make() {
	hw = Hw{};
	return Stream{[](std::span<uint8_t> x) { return hw.accept(x); }};
}
VP_CONTRACT(start) {
	Stream s = make();
	VP_ENSURES("DoubleBufferStream: starts idle and sends nothing", hw.starts == 0);
	s.tx_done_callback();
	VP_ENSURES("DoubleBufferStream: a stray completion is ignored", hw.starts == 0);
	auto w = any_words(SZ + 2);
	VP_REQUIRES(w.n > 0);
	bool ok = s.transmit({w.b, w.n});
	VP_ENSURES("DoubleBufferStream: accepts what fits", ok == (w.n <= SZ));
	VP_ENSURES("DoubleBufferStream: sends at once when idle", imp(ok, hw.starts == 1 && sent(w)));
	VP_ENSURES("DoubleBufferStream: refuses what does not fit as a whole", imp(!ok, hw.starts == 0));
}
VP_CONTRACT(reached) {
	Stream s = make();
	auto st = reach(s);
	VP_ENSURES("DoubleBufferStream: sends what it was given first", st.busy == 0 || sent(st.sending));
	VP_ENSURES("DoubleBufferStream: one transmission at a time", hw.starts == unsigned(st.busy) && hw.fits && hw.intact());
}
VP_CONTRACT(transmit_any) {
	Stream s = make();
	auto st = reach(s);
	auto before = hw.starts;
	auto w = any_words(SZ + 2);
	VP_REQUIRES(w.n > 0);
	bool ok = s.transmit({w.b, w.n});
	VP_ENSURES("DoubleBufferStream: accepts exactly what fits into the waiting buffer", ok == (w.n <= SZ - st.waiting.n));
	if (st.busy) {
		VP_ENSURES("DoubleBufferStream: does not start while a transmission is in progress", hw.starts == before);
		VP_ENSURES("DoubleBufferStream: data in transmission is not touched", hw.intact() && sent(st.sending));
		s.tx_done_callback();
		Words want = st.waiting;
		if (ok) {
			for (size_t i = 0; i < w.n; i++)
				want.b[want.n + i] = w.b[i];
			want.n += w.n;
		}
		VP_ENSURES("DoubleBufferStream: then sends everything that waited, in order", imp(want.n > 0, hw.starts == before + 1 && sent(want)));
		VP_ENSURES("DoubleBufferStream: sends nothing if nothing waited", imp(want.n == 0, hw.starts == before));
	} else
		VP_ENSURES("DoubleBufferStream: sends at once when idle", imp(ok, hw.starts == before + 1 && sent(w)));
}
VP_CONTRACT(done_any) {
	Stream s = make();
	auto st = reach(s);
	auto before = hw.starts;
	s.tx_done_callback();
	VP_ENSURES("DoubleBufferStream: completion starts what waited", hw.starts == before + (st.waiting.n > 0) && imp(st.waiting.n > 0, sent(st.waiting)));
	bool idle = st.waiting.n == 0;
	before = hw.starts;
	auto w = any_words(SZ);
	VP_REQUIRES(w.n > 0);
	VP_ENSURES("DoubleBufferStream: a full buffer is free after completion", s.transmit({w.b, w.n}));
	VP_ENSURES("DoubleBufferStream: idle after completion exactly if nothing waited", hw.starts == before + idle && imp(idle, sent(w)) && hw.intact());
	s.tx_done_callback();
	VP_ENSURES("DoubleBufferStream: nothing is sent twice", hw.starts == before + 1 && sent(w));
	s.tx_done_callback();
	s.tx_done_callback();
	VP_ENSURES("DoubleBufferStream: idle in the end", hw.starts == before + 1);
}
