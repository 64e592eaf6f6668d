// C20: averaging filters.
// vp: unroll=40
// vp-opt resizing budget=300
#include "vp.hh"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include "util/filter.hh"

using namespace vp;

// --- MovingAverage: the state after any history is its last SIZE values (zeros before the first), whatever the rotation
template<unsigned SIZE, class T, unsigned BITS>
static void moving() {
	MovingAverage<SIZE, T, BITS> f;
	constexpr unsigned LIM = BITS == 32 ? ~0u : (1u << BITS) - 1;
	VP_ENSURES("MovingAverage: starts at zero", f.val() == 0);
	T last[SIZE]{};
	unsigned n = any_in<unsigned>(0, 2 * SIZE, "values so far");
	for (unsigned i = 0; i < 2 * SIZE; i++) {
		if (i >= n)
			break;
		last[i % SIZE] = T(any_in<unsigned>(0, LIM, "value"));
		f.add_val(last[i % SIZE]);
	}
	T x = T(any_in<unsigned>(0, LIM, "newest"));
	T got = f.add_val(x);
	for (unsigned i = 0; i < SIZE; i++)
		last[i] = n % SIZE == i ? x : last[i];
	uint64_t sum = 0;
	for (unsigned i = 0; i < SIZE; i++)
		sum += last[i];
	VP_ENSURES("MovingAverage: the mean of the last values, rounded down", got == sum / SIZE);
	VP_ENSURES("MovingAverage: reading yields the last result", f.val() == got && f.val() == got);
}
VP_CONTRACT(moving_1_u16) { moving<1, uint16_t, 16>(); }
VP_CONTRACT(moving_2_u32) { moving<2, unsigned, 12>(); }
VP_CONTRACT(moving_4_u16) { moving<4, uint16_t, 16>(); }
VP_CONTRACT(moving_8_u32) { moving<8, unsigned, 29>(); }
VP_CONTRACT_T(moving_16_u32) { moving<16, unsigned, 12>(); }

// --- Oversampler
template<unsigned SIZE, class T, unsigned BITS>
static void over() {
	constexpr unsigned LIM = (1u << BITS) - 1;
	Oversampler<SIZE, T, BITS> f;
	VP_ENSURES("Oversampler: starts at zero", f.val() == 0);
	T prev = 0;
	bool ok = true;
	// rounds do not depend on each other: the first ends in the state of a fresh one, apart from the value shown
	for (int round = 0; round < 2; round++) {
		uint64_t sum = 0;
		for (unsigned i = 0; i < SIZE; i++) {
			T x = T(any_in<unsigned>(0, LIM, "value"));
			sum += x;
			T got = f.add_val(x);
			T want = i + 1 == SIZE ? T(sum / SIZE) : prev;
			ok = ok & (got == want) & (f.val() == want);
		}
		prev = T(sum / SIZE);
	}
	VP_ENSURES("Oversampler: the mean of each group of values, rounded down, shown until the next group is complete", ok);
}
VP_CONTRACT(over_1_u32) { over<1, unsigned, 12>(); }
VP_CONTRACT(over_2_u32) { over<2, unsigned, 31>(); }
VP_CONTRACT(over_4_u16) { over<4, uint16_t, 16>(); }
VP_CONTRACT(over_8_u32) { over<8, unsigned, 12>(); }
VP_CONTRACT(over_32_u32) { over<32, unsigned, 12>(); }

// --- SmoothOversampler
template<unsigned SIZE, class T, unsigned BITS>
static void smooth() {
	constexpr unsigned LIM = (1u << BITS) - 1;
	SmoothOversampler<SIZE, T, BITS> f;
	VP_ENSURES("SmoothOversampler: starts at zero", f.val() == 0);
	float prev = 0;
	bool ok = true;
	for (int round = 0; round < 2; round++) {
		uint32_t sum = 0;
		for (unsigned i = 0; i < SIZE; i++) {
			T x = T(any_in<unsigned>(0, LIM, "value"));
			sum += x;
			float got = f.add_val(x);
			float mean = float(sum) / float(SIZE);
			float want = i + 1 == SIZE ? mean : prev;
			ok = ok & (got == want) & (f.val() == want);
		}
		prev = float(sum) / float(SIZE);
	}
	VP_ENSURES("SmoothOversampler: the mean of each group of values, shown until the next group is complete", ok);
}
VP_CONTRACT(smooth_1) { smooth<1, unsigned, 12>(); }
VP_CONTRACT(smooth_3) { smooth<3, unsigned, 12>(); }
VP_CONTRACT(smooth_10) { smooth<10, uint16_t, 16>(); }

// --- ResizingOversampler: any group size up to 4, any values
static bool same(float a, float b) {
	return (a == b) | ((a != a) & (b != b));
}
static void resizing(const unsigned size, const unsigned size2, const unsigned given, const bool by_ctor, const bool reset) {
	unsigned n = given;
	ResizingOversampler f{by_ctor ? size : 1};
	if (!by_ctor)
		f.set_size(size);
	VP_ENSURES("ResizingOversampler: starts at zero", f.val() == 0);
	float sum = 0, prev = 0;
	// one complete group, so that there is something to show
	for (unsigned i = 0; i < size; i++) {
		float x = any<float>("value");
		sum += x;
		float got = f.add_val(x);
		if (i + 1 == size)
			prev = sum / float(size);
		VP_ENSURES("ResizingOversampler: the mean of each group of values, shown until the next group is complete", same(got, prev) & same(f.val(), prev));
	}
	sum = 0;
	for (unsigned i = 0; i < n; i++) {
		float x = any<float>("more");
		sum += x;
		f.add_val(x);
	}
	ResizingOversampler copy;
	copy = f;
	if (reset) {
		f.reset();
		VP_ENSURES("ResizingOversampler: reset shows zero", f.val() == 0);
		VP_ENSURES("ResizingOversampler: a copy is independent", same(copy.val(), prev));
		sum = 0, prev = 0, n = 0;
	} else
		f = copy; // assignment carries the whole state over
	f.set_size(size2);
	if (n >= size2) {
		prev = sum / float(n);
		sum = 0, n = 0;
	}
	VP_ENSURES("ResizingOversampler: a size already reached completes the group at once", same(f.val(), prev));
	for (unsigned i = 0; n + i < size2; i++) {
		float x = any<float>("then");
		sum += x;
		float got = f.add_val(x);
		if (n + i + 1 == size2)
			prev = sum / float(size2);
		VP_ENSURES("ResizingOversampler: the group is completed at the new size", same(got, prev) & same(f.val(), prev));
	}
	float y = any<float>("next group");
	float got = f.add_val(y);
	float first = size2 == 1 ? (0.f + y) / 1.f : prev;
	VP_ENSURES("ResizingOversampler: the next group starts afresh", same(got, first));
}
VP_CONTRACT(resizing) {
	unsigned size = any_in<unsigned>(1, 4, "size"), size2 = any_in<unsigned>(1, 4, "new size"), n = any_in<unsigned>(0, 3, "values in the group");
	bool by_ctor = any<bool>("size given at construction");
	VP_REQUIRES(n < size);
	for (unsigned i = 1; i <= 4; i++)
		for (unsigned j = 1; j <= 4; j++)
			for (unsigned k = 0; k < i; k++)
				for (int c = 0; c < 2; c++)
					if (size == i && size2 == j && n == k && by_ctor == c) {
						resizing(i, j, k, c, !c);
						return;
					}
}

// --- NoFilter, CascadingFilter
template<typename T>
static void none() {
	NoFilter<T> f;
	VP_ENSURES("NoFilter: starts at zero", f.val() == T(0));
	T x = any<T>("x");
	if constexpr (std::is_floating_point_v<T>)
		VP_REQUIRES(x == x);
	f.add_val(any<T>("before"));
	T got = f.add_val(x);
	VP_ENSURES("NoFilter: the value itself", got == x && f.val() == x);
}
VP_CONTRACT(none_u) { none<unsigned>(); }
VP_CONTRACT(none_f) { none<float>(); }
VP_CONTRACT(cascade) {
	CascadingFilter<unsigned, Oversampler<2, unsigned, 12>, MovingAverage<2, unsigned, 12>> f;
	unsigned v[4];
	for (auto &x : v)
		x = any_in<unsigned>(0, 4095, "value");
	unsigned a = f.add_val(v[0]);
	VP_ENSURES("CascadingFilter: adding yields the first filter's value", a == 0);
	unsigned b = f.add_val(v[1]);
	unsigned m1 = (v[0] + v[1]) / 2, m2 = (v[2] + v[3]) / 2;
	VP_ENSURES("CascadingFilter: adding yields the first filter's value", b == m1);
	VP_ENSURES("CascadingFilter: reading feeds the first filter's value to the second", f.val() == m1 / 2);
	f.add_val(v[2]);
	VP_ENSURES("CascadingFilter: reading feeds the first filter's value to the second", f.val() == m1);
	f.add_val(v[3]);
	VP_ENSURES("CascadingFilter: reading feeds the first filter's value to the second", f.val() == (m1 + m2) / 2);
	VP_ENSURES("CascadingFilter: reading feeds the first filter's value to the second", f.val() == m2);
}

// --- NonLinearOnePoleLp
template<size_t NUM, size_t DIV>
static void hysteresis() {
	constexpr float flat = float(NUM) / float(DIV);
	HysteresisFilter<NUM, DIV> z;
	VP_ENSURES("HysteresisFilter: starts at zero", z.val() == 0.f);
	float s = any_within<float>(1e6f, "state"), b = any_within<float>(1e6f, "to");
	NonLinearOnePoleLp<float, TransferHysteresis<NUM, DIV>> f{s};
	VP_ENSURES("HysteresisFilter: starts where it is told", f.val() == s);
	float got = f.add_val(b), d = b - s;
	VP_ENSURES("HysteresisFilter: values within the band change nothing", imp(d >= -flat && d <= flat, got == s));
	VP_ENSURES("HysteresisFilter: never moves away from the new value", imp(b >= s, got >= s) && imp(b <= s, got <= s));
	VP_ENSURES("HysteresisFilter: rising, never moves beyond the new value", imp(b >= s, got <= b));
	VP_ENSURES("HysteresisFilter: falling, never moves beyond the new value", imp(b <= s, got >= b));
	VP_ENSURES("HysteresisFilter: reading yields the last result", f.val() == got);
}
VP_CONTRACT(hysteresis_1_4) { hysteresis<1, 4>(); }
VP_CONTRACT(hysteresis_2_1) { hysteresis<2, 1>(); }
template<size_t DIV>
static void quadratic(float lo) {
	float s = any_between<float>(lo, 1.f, "state"), b = any_between<float>(lo, 1.f, "to");
	NonLinearOnePoleLp<float, TransferQuadratic<DIV>> f{s};
	float got = f.add_val(b);
	VP_ENSURES("QuadraticOnePoleLp: never moves away from the new value", imp(b >= s, got >= s) && imp(b <= s, got <= s));
	VP_ENSURES("QuadraticOnePoleLp: never moves beyond the new value", imp(b >= s, got <= b) && imp(b <= s, got >= b));
	VP_ENSURES("QuadraticOnePoleLp: reading yields the last result", f.val() == got);
	QuadraticOnePoleLp<DIV> g;
	VP_ENSURES("QuadraticOnePoleLp: starts at zero", g.val() == 0.f);
}
VP_CONTRACT(quadratic_2) { quadratic<2>(0.f); }
VP_CONTRACT(quadratic_4) { quadratic<4>(-1.f); }

// --- averages over more than 2^16 values: any history
template<typename F>
constexpr bool moving_fields = requires(F &f) {
	f.sum_;
	f.buff_[0];
	f.idx_;
};
template<typename F, unsigned SIZE>
static void moving_large() {
	if constexpr (moving_fields<F>) {
		F &f = *static_cast<F *>(vp_buffer(sizeof(F), "filter"));
		size_t idx = any_in<size_t>(0, SIZE - 1, "oldest"), k = any_in<size_t>(0, SIZE - 1, "k");
		f.idx_ = idx;
		uint8_t oldest = f.buff_[idx], at_k = f.buff_[k], x = any<uint8_t>("newest");
		unsigned sum = any_in<unsigned>(0, SIZE * 255, "sum of the last values");
		VP_REQUIRES(sum >= oldest && sum - oldest <= (SIZE - 1) * 255);
		f.sum_ = sum;
		VP_ENSURES("MovingAverage, large: the mean of the last values, rounded down", f.val() == sum / SIZE);
		uint8_t got = f.add_val(x);
		VP_ENSURES("MovingAverage, large: the newest value counts, the oldest does not any more", got == (sum - oldest + x) / SIZE && f.val() == got && f.sum_ == sum - oldest + x);
		VP_ENSURES("MovingAverage, large: the newest value takes the place of the oldest, the next one is the oldest now", f.buff_[k] == (k == idx ? x : at_k) && f.idx_ == (idx + 1) % SIZE);
	}
}
VP_CONTRACT(moving_large_u8) { moving_large<MovingAverage<1u << 17, uint8_t, 8>, 1u << 17>(); }
template<typename F>
constexpr bool over_fields = requires(F &f) {
	f.buff_;
	f.val_;
	f.idx_;
};
template<typename F, unsigned SIZE>
static void over_large() {
	if constexpr (over_fields<F>) {
		F f;
		unsigned idx = any_in<unsigned>(0, SIZE - 1, "values so far"), sum = any_in<unsigned>(0, (SIZE - 1) * 255, "their sum");
		VP_REQUIRES(sum <= idx * 255);
		f.idx_ = idx;
		f.buff_ = sum;
		auto shown = f.val_ = decltype(f.val_)(any<uint8_t>("shown"));
		uint8_t x = any<uint8_t>("value");
		auto got = f.add_val(x);
		bool done = idx + 1 == SIZE;
		VP_ENSURES("Oversampler, large: the next group starts when one is complete", f.idx_ == (done ? 0 : idx + 1) && f.buff_ == (done ? 0 : sum + x));
		auto mean = decltype(shown)((sum + x) / decltype(shown)(1));
		if constexpr (std::is_integral_v<decltype(shown)>)
			mean = decltype(shown)((sum + x) / SIZE);
		else
			mean = float(sum + x) / float(SIZE);
		VP_ENSURES("Oversampler, large: the mean of each group, shown until the next one is complete", got == (done ? mean : shown) && f.val() == got);
	}
}
VP_CONTRACT(over_large_u8) { over_large<Oversampler<1u << 17, uint8_t, 8>, 1u << 17>(); }
VP_CONTRACT(smooth_large) { over_large<SmoothOversampler<100000, uint8_t, 8>, 100000>(); }
