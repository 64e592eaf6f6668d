// C18: saturation, byte order, bit fields, byte blocks, vector lanes.
// vp-bounded block three prints from the empty block, raw prints up to three bytes
#include "vp.hh"
#include <concepts>
#include <cstdint>
#include "util/bitfield.hh"
#include "util/byte_block.hh"
#include "util/cortex_math.hh"
#include "util/math.hh"
#include "util/overloaded.hh"
#include "util/soft_neon.hh"

using namespace vp;
using namespace MathTools;

VP_CONTRACT(signed_saturate_) {
	int32_t v = any<int32_t>("v");
	uint32_t n = any_in<uint32_t>(1, 32, "bits");
	int64_t hi = (int64_t(1) << (n - 1)) - 1, lo = -hi - 1;
	int64_t want = v > hi ? hi : v < lo ? lo : v;
	VP_ENSURES("signed_saturate: nearest value of that many bits", signed_saturate(v, n) == want);
}
VP_CONTRACT(unsigned_saturate_) {
	int32_t v = any<int32_t>("v");
	uint32_t n = any_in<uint32_t>(0, 31, "bits");
	int64_t hi = (int64_t(1) << n) - 1;
	int64_t want = v > hi ? hi : v < 0 ? 0 : v;
	VP_ENSURES("unsigned_saturate: nearest value of that many bits", unsigned_saturate(v, n) == want);
}
VP_CONTRACT(swap) {
	uint32_t w = any<uint32_t>("w");
	uint16_t h = any<uint16_t>("h"), g = any<uint16_t>("g");
	auto wb = std::bit_cast<std::array<uint8_t, 4>>(w), rb = std::bit_cast<std::array<uint8_t, 4>>(swap_bytes32(w));
	auto hb = std::bit_cast<std::array<uint8_t, 2>>(h), sb = std::bit_cast<std::array<uint8_t, 2>>(swap_bytes16(h));
	VP_ENSURES("swap_bytes32: reversed bytes", rb[0] == wb[3] && rb[1] == wb[2] && rb[2] == wb[1] && rb[3] == wb[0]);
	VP_ENSURES("swap_bytes32: own inverse", swap_bytes32(swap_bytes32(w)) == w);
	VP_ENSURES("swap_bytes16: reversed bytes", sb[0] == hb[1] && sb[1] == hb[0]);
	VP_ENSURES("swap_bytes16: own inverse", swap_bytes16(swap_bytes16(h)) == h);
	VP_ENSURES("swap_bytes_and_combine: swapped halves, first one on top",
			   swap_bytes_and_combine(h, g) == ((uint32_t(swap_bytes16(h)) << 16) | swap_bytes16(g)));
}

enum class E8 : uint8_t { A = 1 };
enum class E32 : uint32_t { A = 1 };
enum Plain : unsigned { PA };
template<typename E>
static void fields() {
	using U = std::underlying_type_t<E>;
	U a = any<U>("a"), b = any<U>("b"), c = any<U>("c");
	VP_ENSURES("bitfield: value of one", U(bitfield(E(a))) == a);
	VP_ENSURES("bitfield: or of all", U(bitfield(E(a), E(b), E(c))) == U(a | b | c));
	VP_ENSURES("bitfield: or of integers", U(bitfield(a, b)) == U(a | b));
	VP_ENSURES("val: value", val(E(a)) == a);
	VP_ENSURES("OR: or of all", OR<E>({E(a), E(b), E(c)}) == U(a | b | c));
	VP_ENSURES("OR: of one", OR<E>({E(b)}) == b);
}
VP_CONTRACT(fields_u8) { fields<E8>(); }
VP_CONTRACT(fields_u32) { fields<E32>(); }
VP_CONTRACT(fields_plain) { fields<Plain>(); }

// bytes are appended, little end first
VP_CONTRACT(block) {
	ByteBlock b;
	std::array<uint8_t, 16> want{};
	size_t n = 0;
	for (int i = 0; i < 3; i++) {
		switch (any_in<int>(0, 3, "width")) {
			case 0: {
				uint8_t x = any<uint8_t>("x");
				b.print(x);
				want[n++] = x;
				break;
			}
			case 1: {
				uint16_t x = any<uint16_t>("x");
				b.print(x);
				want[n++] = x & 255;
				want[n++] = x >> 8;
				break;
			}
			case 2: {
				uint32_t x = any<uint32_t>("x");
				b.print(x);
				for (int k = 0; k < 4; k++)
					want[n++] = (x >> (8 * k)) & 255;
				break;
			}
			default: {
				unsigned char raw[3];
				for (auto &r : raw)
					r = any<uint8_t>("raw");
				size_t m = any_in<size_t>(0, 3, "size");
				b.printRaw(raw, m);
				for (size_t k = 0; k < m; k++)
					want[n++] = raw[k];
			}
		}
	}
	VP_ENSURES("ByteBlock: as many bytes as were printed", b.data.size() == n);
	for (size_t i = 0; i < n; i++)
		VP_ENSURES("ByteBlock: the bytes in order, low byte first", b.data[i] == want[i]);
}

// ---- soft NEON: every operation works lane by lane
static bool eq(float a, float b) {
	return std::bit_cast<uint32_t>(a) == std::bit_cast<uint32_t>(b) || (a != a && b != b);
}
VP_CONTRACT(neon) {
	float a[4], b[4], d[4];
	for (int i = 0; i < 4; i++) {
		a[i] = any<float>("a");
		b[i] = any<float>("b");
		d[i] = any<float>("d");
	}
	auto A = vld1q_f32(a), B = vld1q_f32(b), D = vld1q_f32(d);
	auto dup = vdupq_n_f32(a[0]), mul = vmulq_f32(A, B), sub = vsubq_f32(A, B), mx = vmaxq_f32(A, B);
	auto mla = vmlaq_f32(D, A, B);
	auto lo = vget_low_f32(A), hi = vget_high_f32(A);
	auto pad = vpadd_f32(lo, hi);
	for (unsigned i = 0; i < 4; i++) {
		VP_ENSURES("neon: load", eq(A[i], a[i]));
		VP_ENSURES("neon: dup", eq(dup[i], a[0]));
		VP_ENSURES("neon: mul", eq(mul[i], a[i] * b[i]));
		VP_ENSURES("neon: sub", eq(sub[i], a[i] - b[i]));
		VP_ENSURES("neon: max", eq(mx[i], a[i] > b[i] ? a[i] : b[i]));
		VP_ENSURES("neon: multiply-accumulate", eq(mla[i], d[i] + a[i] * b[i]) && eq(D[i], mla[i]));
	}
	VP_ENSURES("neon: halves", eq(lo[0], a[0]) && eq(lo[1], a[1]) && eq(hi[0], a[2]) && eq(hi[1], a[3]));
	VP_ENSURES("neon: lane", eq(vget_lane_f32(lo, 0), a[0]) && eq(vget_lane_f32(hi, 1), a[3]));
	VP_ENSURES("neon: pairwise add", eq(pad[0], a[0] + a[1]) && eq(pad[1], a[2] + a[3]));
}
