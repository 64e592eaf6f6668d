// C36: audio frames.
#include "vp.hh"
#include "util/audio_frame.hh"

using namespace vp;

template<typename S, int U>
static void signed_frame() {
	using F = AudioFrame<S, U>;
	constexpr int64_t top = int64_t(1) << (U - 1);
	S raw = any<S>("raw");
	// the value of the low U bits
	int64_t low = int64_t(uint64_t(int64_t(raw)) << (64 - U)) >> (64 - U);
	VP_ENSURES("AudioFrame: sign extension takes the low bits as a signed number", F::sign_extend(raw) == low);
	float f = F::scaleInput(raw);
	VP_ENSURES("AudioFrame: input is scaled to [-1, 1)", U > 24 || f * float(top) == float(low));
	VP_ENSURES("AudioFrame: input range", f >= -1.f && f <= 1.f && imp(U <= 24, f < 1.f));
	if (U <= 24)
		VP_ENSURES("AudioFrame: a sample survives scaling in and out", F::scaleOutput(f) == low);
	float x = any<float>("x");
	VP_REQUIRES(x == x);
	int64_t y = F::scaleOutput(x);
	VP_ENSURES("AudioFrame: output stays in the range of the used bits", y >= -top && y < top);
	VP_ENSURES("AudioFrame: too loud saturates", imp(x >= 1.f, y == top - 1) && imp(x <= -1.f, y == -top));
	// |y - x * top| < 1, towards zero
	if (x > -1.f && x < 1.f) {
		float exact = x * float(top);
		VP_ENSURES("AudioFrame: output is the scaled value rounded towards zero", y == int64_t(exact));
	}
	float x2 = any<float>("x2");
	VP_REQUIRES(x2 == x2 && x <= x2);
	VP_ENSURES("AudioFrame: louder is never quieter", y <= int64_t(F::scaleOutput(x2)));
}
VP_CONTRACT(signed_16) { signed_frame<int16_t, 16>(); }
VP_CONTRACT(signed_8) { signed_frame<int8_t, 8>(); }
VP_CONTRACT(signed_32_24) { signed_frame<int32_t, 24>(); }
VP_CONTRACT(signed_32_20) { signed_frame<int32_t, 20>(); }
VP_CONTRACT(signed_32_16) { signed_frame<int32_t, 16>(); }
VP_CONTRACT(signed_16_12) { signed_frame<int16_t, 12>(); }
VP_CONTRACT(signed_32_32) { signed_frame<int32_t, 32>(); }

template<typename S, int U>
static void unsigned_frame() {
	using F = AudioFrame<S, U>;
	constexpr int64_t top = (int64_t(1) << U) - 1;
	S raw = any<S>("raw");
	uint64_t want = uint64_t(int64_t(uint64_t(raw) << (64 - U)) >> (64 - U));
	VP_ENSURES("AudioFrame: sign extension of an unsigned sample type", sizeof(S) * 8 == U ? F::sign_extend(raw) == raw : F::sign_extend(raw) == S(want));
	float x = any<float>("x");
	VP_REQUIRES(x == x);
	int64_t y = F::scaleOutput(x);
	VP_ENSURES("AudioFrame: unsigned output stays in the range of the used bits", y >= 0 && y <= top);
	VP_ENSURES("AudioFrame: unsigned too loud saturates", imp(x >= 1.f, y == top) && imp(x <= -1.f, y == 0));
	VP_ENSURES("AudioFrame: unsigned silence is half way", F::scaleOutput(0.f) == top / 2);
	float x2 = any<float>("x2");
	VP_REQUIRES(x2 == x2 && x <= x2);
	if constexpr (U == 8)
		VP_ENSURES("AudioFrame: unsigned louder is never quieter", y <= int64_t(F::scaleOutput(x2)));
}
VP_CONTRACT(unsigned_16) { unsigned_frame<uint16_t, 16>(); }
VP_CONTRACT(unsigned_8) { unsigned_frame<uint8_t, 8>(); }
VP_CONTRACT(unsigned_32_24) { unsigned_frame<uint32_t, 24>(); }

template<typename S, int U, int C>
static void channels() {
	AudioFrame<S, U, C> f;
	S old[C];
	for (int i = 0; i < C; i++)
		f.chan[i] = old[i] = any<S>("old");
	unsigned at = any_in<unsigned>(0, C - 1, "channel");
	VP_ENSURES("AudioFrame: sign extension per channel", f.sign_extend_chan(at) == AudioFrame<S, U, C>::sign_extend(old[at]));
	VP_ENSURES("AudioFrame: scaled input per channel", f.scale_input_chan(at) == AudioFrame<S, U, C>::scaleInput(old[at]));
	float x = any_between<float>(-2.f, 2.f, "x");
	f.set_scaled_output(at, x);
	bool ok = true;
	for (unsigned i = 0; i < C; i++)
		ok = ok & (f.chan[i] == (i == at ? AudioFrame<S, U, C>::scaleOutput(x) : old[i]));
	VP_ENSURES("AudioFrame: scaled output goes to one channel", ok);
}
VP_CONTRACT(channels_16_2) { channels<int16_t, 16, 2>(); }
VP_CONTRACT(channels_24_4) { channels<int32_t, 24, 4>(); }
