// C15: quadrature decoding reports one motion per complete detent.
#include "vp.hh"
#include "util/quadrature_encoder.hh"

using namespace vp;

// the last four distinct contact states, oldest first in the high bits
template<bool Inv>
struct Model {
	unsigned h = 0;
	int step(bool a, bool b) {
		unsigned s = unsigned(a) | (unsigned(b) << 1);
		if ((h & 3) == s)
			return 0;
		h = ((h << 2) | s) & 0xff;
		unsigned p = Inv ? h ^ 0xff : h;
		return p == 0b01'00'10'11 ? 1 : p == 0b10'00'01'11 ? -1 : 0;
	}
};
template<bool Inv>
static void history(int n) {
	QuadratureEncoder<Inv> e;
	Model<Inv> m;
	for (int i = 0; i < n; i++) {
		bool a = any<bool>("a"), b = any<bool>("b");
		int r = e.get_motion(a, b), w = m.step(a, b);
		VP_ENSURES("quadrature: a motion is reported exactly at the end of a complete valid cycle", r == w);
	}
}
template<bool Inv>
static void step() {
	QuadratureEncoder<Inv> e;
	Model<Inv> m;
	if constexpr (requires { e.prev_state = uint8_t(1); }) {
		m.h = any<uint8_t>("last four states");
		e.prev_state = m.h;
	} else {
		for (int i = 0; i < 4; i++) {
			bool a = any<bool>("a"), b = any<bool>("b");
			e.get_motion(a, b);
			m.step(a, b);
		}
	}
	for (int i = 0; i < 2; i++) {
		bool a = any<bool>("a"), b = any<bool>("b");
		int r = e.get_motion(a, b), w = m.step(a, b);
		VP_ENSURES("quadrature: a motion is reported exactly at the end of a complete valid cycle", r == w);
	}
}
// turning the shaft: the four contact states of one detent, each bouncing any number of times (up to 2) with its
// predecessor, count as exactly one motion when started from rest
VP_CONTRACT(step_plain) { step<false>(); }
VP_CONTRACT(step_inverted) { step<true>(); }
VP_CONTRACT(history_plain) { history<false>(5); }
VP_CONTRACT(history_inverted) { history<true>(5); }

template<bool Inv>
static void detent() {
	QuadratureEncoder<Inv> e;
	Model<Inv> m;
	for (int i = 0; i < 4; i++) { // whatever happened before
		bool a = any<bool>("a"), b = any<bool>("b");
		e.get_motion(a, b);
	}
	constexpr unsigned inv = Inv ? 3 : 0;
	bool cw = any<bool>("clockwise");
	static constexpr unsigned path_cw[4] = {0b01, 0b00, 0b10, 0b11}, path_ccw[4] = {0b10, 0b00, 0b01, 0b11};
	e.get_motion((0b11 ^ inv) & 1, (0b11 ^ inv) >> 1); // at rest
	for (int turn = 0; turn < 2; turn++) {
		int sum = 0;
		for (int i = 0; i < 4; i++) {
			unsigned s = (cw ? path_cw[i] : path_ccw[i]) ^ inv;
			int r = e.get_motion(s & 1, s >> 1);
			sum += r;
			if (any<bool>("polled again"))
				sum += e.get_motion(s & 1, s >> 1);
		}
		VP_ENSURES("quadrature: each detent counts once in its direction", sum == (cw ? 1 : -1));
	}
}
VP_CONTRACT(detents) { detent<false>(); }
VP_CONTRACT(detents_inverted) { detent<true>(); }
