// C40: the input and output buffers.
#include "vp.hh"
#include "util/input_output_buffer.hh"

using namespace vp;

// --- InputBuffer: any state is what was put since the last reset, and what earlier rounds left behind it
template<typename T, size_t N>
static void input() {
	InputBuffer<T, N> b;
	T have[N];
	for (size_t i = 0; i < N; i++)
		have[i] = b.data()[i] = any<T>("left from earlier rounds");
	size_t n = any_in<size_t>(0, N + 2, "puts so far");
	for (size_t i = 0; i < N + 2; i++) {
		if (i >= n)
			break;
		VP_ENSURES("InputBuffer: full exactly if its capacity was put since the last reset", b.full() == (i >= N));
		T x = any<T>("put");
		b.put(x);
		if (i < N)
			have[i] = x;
	}
	bool ok = true;
	for (size_t i = 0; i < N; i++)
		ok = ok & (b.data()[i] == have[i]);
	VP_ENSURES("InputBuffer: holds what was put, in order; what does not fit is dropped", ok);
	VP_ENSURES("InputBuffer: full exactly if its capacity was put since the last reset", b.full() == (n >= N));
	VP_ENSURES("InputBuffer: size", b.size() == N && b.begin() == b.data() && b.end() == b.data() + N);
	b.reset();
	VP_ENSURES("InputBuffer: not full after reset", !b.full());
	ok = true;
	for (size_t i = 0; i < N; i++)
		ok = ok & (b.data()[i] == have[i]);
	VP_ENSURES("InputBuffer: reset keeps the data to be read", ok);
	T y = any<T>("next");
	b.put(y);
	ok = b.data()[0] == y;
	for (size_t i = 1; i < N; i++)
		ok = ok & (b.data()[i] == have[i]);
	VP_ENSURES("InputBuffer: after reset the next round starts at the front", ok);
}
VP_CONTRACT(in_u8_1) { input<uint8_t, 1>(); }
VP_CONTRACT(in_u32_4) { input<uint32_t, 4>(); }
VP_CONTRACT(in_pair_3) { input<Pair, 3>(); }

template<typename T, size_t N>
static void output() {
	OutputBuffer<T, N> b;
	bool blank = true;
	for (size_t i = 0; i < N; i++)
		blank = blank & (b.data()[i] == T{});
	VP_ENSURES("OutputBuffer: starts with default values", blank);
	for (int round = 0; round < 2; round++) {
		T have[N];
		for (size_t i = 0; i < N; i++)
			have[i] = b.begin()[i] = any<T>("filled in");
		size_t n = any_in<size_t>(0, N + 2, "gets");
		bool ok = true, full = true;
		for (size_t i = 0; i < N + 2; i++) {
			if (i >= n)
				break;
			full = full & (b.full() == (i >= N));
			T want{};
			if (i < N)
				want = have[i];
			ok = ok & (b.get() == want);
		}
		VP_ENSURES("OutputBuffer: hands out its data in order, then default values", ok);
		VP_ENSURES("OutputBuffer: depleted exactly if everything was taken since the last reset", full && b.full() == (n >= N));
		ok = true;
		for (size_t i = 0; i < N; i++)
			ok = ok & (b.data()[i] == have[i]);
		VP_ENSURES("OutputBuffer: taking leaves the data alone", ok);
		b.reset();
	}
	VP_ENSURES("OutputBuffer: reset starts over", !b.full());
	VP_ENSURES("OutputBuffer: size", b.size() == N && b.begin() == b.data() && b.end() == b.data() + N);
}
VP_CONTRACT(out_u8_1) { output<uint8_t, 1>(); }
VP_CONTRACT(out_u32_4) { output<uint32_t, 4>(); }
VP_CONTRACT(out_pair_3) { output<Pair, 3>(); }

// --- a capacity beyond 2^16: any position, any content
template<typename B>
constexpr bool has_fields = requires(B &b) {
	b.buf_[0];
	b.head_;
};
template<typename T, size_t N>
static void large_in() {
	using B = InputBuffer<T, N>;
	if constexpr (has_fields<B>) {
		B &b = *static_cast<B *>(vp_buffer(sizeof(B), "buffer"));
		size_t n = any_in<size_t>(0, N, "puts so far"), k = any_in<size_t>(0, N - 1, "k");
		b.head_ = n;
		T was = b.data()[k], x = any<T>("put");
		VP_ENSURES("InputBuffer, large: full exactly if its capacity was put since the last reset", b.full() == (n == N));
		b.put(x);
		VP_ENSURES("InputBuffer, large: what is put goes behind what was put before; what does not fit is dropped", b.data()[k] == (k == n ? x : was));
		VP_ENSURES("InputBuffer, large: the next one goes behind it", b.head_ == (n < N ? n + 1 : N) && b.full() == (n + 1 >= N) && b.size() == N);
		b.reset();
		VP_ENSURES("InputBuffer, large: reset starts over", !b.full() && b.head_ == 0);
	}
}
VP_CONTRACT(in_large_u8) { large_in<uint8_t, 70001>(); }
template<typename T, size_t N>
static void large_out() {
	using B = OutputBuffer<T, N>;
	if constexpr (has_fields<B>) {
		B &b = *static_cast<B *>(vp_buffer(sizeof(B), "buffer"));
		size_t n = any_in<size_t>(0, N, "gets so far"), k = any_in<size_t>(0, N - 1, "k");
		b.head_ = n;
		T was = b.data()[k], next = b.data()[n < N ? n : 0];
		VP_ENSURES("OutputBuffer, large: depleted exactly if everything was taken", b.full() == (n == N));
		VP_ENSURES("OutputBuffer, large: hands out the next element, then default values", b.get() == (n < N ? next : T{}));
		VP_ENSURES("OutputBuffer, large: the one behind it is next", b.head_ == (n < N ? n + 1 : N) && b.full() == (n + 1 >= N) && b.size() == N);
		VP_ENSURES("OutputBuffer, large: taking leaves the data alone", b.data()[k] == was);
		b.reset();
		VP_ENSURES("OutputBuffer, large: reset starts over", !b.full() && b.head_ == 0);
	}
}
VP_CONTRACT(out_large_u8) { large_out<uint8_t, 70001>(); }
