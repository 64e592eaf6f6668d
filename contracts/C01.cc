// C01: overwriting ring buffers behave as a FIFO that keeps the newest `capacity` elements.
#include "vp.hh"
#include "util/circular_buffer.hh"
#include <optional>
#include "util/circular_buffer_opt.hh"

using namespace vp;

template<typename RB>
constexpr bool has_fields = requires(RB &rb) {
	rb.buf_[0];
	rb.head_;
	rb.tail_;
	rb.full_;
};

// Any state the buffer can be in.  With the known representation: any state satisfying the representation invariant.
// Otherwise: states built through the public interface (any rotation, any fill level, any content).
template<typename RB, typename T, size_t N>
void any_ring(RB &rb) {
	if constexpr (has_fields<RB>) {
		for (size_t i = 0; i < N; i++)
			rb.buf_[i] = any<T>("el");
		rb.head_ = any_in<size_t>(0, N - 1, "head");
		rb.tail_ = any_in<size_t>(0, N - 1, "tail");
		rb.full_ = any<bool>("full");
		VP_REQUIRES(imp(rb.full_, rb.head_ == rb.tail_));
	} else {
		size_t r = any_in<size_t>(0, N, "rotation");
		for (size_t i = 0; i < r; i++) {
			rb.put(T{});
			(void)rb.get();
		}
		size_t n = any_in<size_t>(0, N, "fill");
		for (size_t i = 0; i < n; i++)
			rb.put(any<T>("el"));
	}
}
template<typename RB, size_t N>
bool wf(RB const &rb) {
	if constexpr (has_fields<RB>)
		return rb.head_ < N & rb.tail_ < N & imp(rb.full_, rb.head_ == rb.tail_);
	else
		return true;
}
// abstract view: k-th oldest element, observed by draining a copy
template<typename RB>
auto nth(RB rb, size_t k) {
	for (size_t i = 0; i < k; i++)
		rb.remove_first();
	if constexpr (requires { rb.get().value(); })
		return *rb.get();
	else
		return rb.get();
}

template<typename RB, typename T, size_t N>
void init_step() {
	RB rb;
	VP_REP("a new buffer is well formed", wf<RB, N>(rb));
	VP_ENSURES("a new buffer is empty", rb.empty() && !rb.full() && rb.count() == 0 && rb.num_filled() == 0);
	VP_ENSURES("capacity is the declared one", rb.max_size() == N && rb.max_capacity() == N);
}

template<typename RB, typename T, size_t N>
void observers() {
	RB rb;
	any_ring<RB, T, N>(rb);
	size_t n = rb.count();
	VP_ENSURES("count never exceeds capacity", n <= N);
	VP_ENSURES("num_filled is count", rb.num_filled() == n);
	VP_ENSURES("empty iff count is zero", rb.empty() == (n == 0));
	VP_ENSURES("full iff count is the capacity", rb.full() == (n == N));
	if constexpr (requires { rb.peek(0); }) {
		size_t k = any_in<size_t>(0, N - 1, "k");
		VP_REQUIRES(k < n);
		VP_ENSURES("peek(k) is the k-th oldest element", rb.peek(k) == nth(rb, k));
	}
}

template<typename RB, typename T, size_t N>
void put_step() {
	RB rb;
	any_ring<RB, T, N>(rb);
	RB old = rb;
	size_t n = old.count();
	size_t k = any_in<size_t>(0, N - 1, "k");
	T x = any<T>("x");
	rb.put(x);
	VP_REP("put keeps the representation well formed", wf<RB, N>(rb));
	VP_ENSURES("put: count grows by one until the capacity is reached", rb.count() == (n < N ? n + 1 : N));
	VP_ENSURES("put: newest element is the one put", nth(rb, rb.count() - 1) == x);
	if (k + 1 < rb.count())
		VP_ENSURES("put: the other elements keep their order, only the oldest goes when full", nth(rb, k) == nth(old, n < N ? k : k + 1));
}

template<typename RB, typename T, size_t N>
void get_step() {
	RB rb;
	any_ring<RB, T, N>(rb);
	RB old = rb;
	size_t n = old.count();
	size_t k = any_in<size_t>(0, N - 1, "k");
	auto r = rb.get();
	VP_REP("get keeps the representation well formed", wf<RB, N>(rb));
	if (n == 0) {
		if constexpr (requires { r.has_value(); })
			VP_ENSURES("get: nothing from an empty buffer", !r.has_value());
		else
			VP_ENSURES("get: default value from an empty buffer", r == T());
		VP_ENSURES("get: an empty buffer stays empty", rb.count() == 0);
	} else {
		if constexpr (requires { r.has_value(); })
			VP_ENSURES("get: oldest element comes out", r.has_value() && *r == nth(old, 0));
		else
			VP_ENSURES("get: oldest element comes out", r == nth(old, 0));
		VP_ENSURES("get: count shrinks by one", rb.count() == n - 1);
		if (k + 1 < n)
			VP_ENSURES("get: the rest keeps its order", nth(rb, k) == nth(old, k + 1));
	}
}

template<typename RB, typename T, size_t N>
void remove_step() {
	RB rb;
	any_ring<RB, T, N>(rb);
	RB old = rb;
	size_t n = old.count();
	size_t k = any_in<size_t>(0, N - 1, "k");
	rb.remove_first();
	VP_REP("remove_first keeps the representation well formed", wf<RB, N>(rb));
	VP_ENSURES("remove_first: count shrinks by one unless empty", rb.count() == (n ? n - 1 : 0));
	if (k + 1 < n)
		VP_ENSURES("remove_first: the rest keeps its order", nth(rb, k) == nth(old, k + 1));
}

template<typename RB, typename T, size_t N>
void reset_step() {
	RB rb;
	any_ring<RB, T, N>(rb);
	rb.reset();
	VP_REP("reset keeps the representation well formed", wf<RB, N>(rb));
	VP_ENSURES("reset: empty afterwards", rb.empty() && rb.count() == 0 && !rb.full());
}

template<typename RB, typename T, size_t N>
void fill_step() {
	RB rb;
	any_ring<RB, T, N>(rb);
	size_t n = rb.count();
	size_t k = any_in<size_t>(0, N - 1, "k");
	T x = any<T>("x");
	rb.fill_buffer(x);
	VP_REP("fill keeps the representation well formed", wf<RB, N>(rb));
	VP_ENSURES("fill: the number of elements does not change", rb.count() == n);
	if (k < n)
		VP_ENSURES("fill: every element has the value", nth(rb, k) == x);
}

template<typename RB, typename T, size_t N>
void fill_array_step() {
	RB rb;
	any_ring<RB, T, N>(rb);
	size_t n = rb.count();
	std::array<T, N> src;
	for (auto &s : src)
		s = any<T>("src");
	rb.fill_buffer(src);
	VP_REP("fill from array keeps the representation well formed", wf<RB, N>(rb));
	VP_ENSURES("fill from array: the number of elements does not change", rb.count() == n);
	// storage order: the slot after the last one written holds src[head]
	RB fresh;
	fresh.fill_buffer(src);
	size_t k = any_in<size_t>(0, N - 1, "k");
	fresh.reset();
	VP_REQUIRES(k < n);
	VP_ENSURES("fill from array: every slot of the storage is replaced", nth(rb, k) == src[(rb.get_tail_idx() + k) % N]);
}

#define ALL(tag, RB, T, N)                                                                                             \
	VP_CONTRACT(init_##tag) { init_step<RB<T, N>, T, N>(); }                                                           \
	VP_CONTRACT(observers_##tag) { observers<RB<T, N>, T, N>(); }                                                      \
	VP_CONTRACT(put_##tag) { put_step<RB<T, N>, T, N>(); }                                                             \
	VP_CONTRACT(get_##tag) { get_step<RB<T, N>, T, N>(); }                                                             \
	VP_CONTRACT(remove_##tag) { remove_step<RB<T, N>, T, N>(); }                                                       \
	VP_CONTRACT(reset_##tag) { reset_step<RB<T, N>, T, N>(); }                                                         \
	VP_CONTRACT(fill_##tag) { fill_step<RB<T, N>, T, N>(); }                                                           \
	VP_CONTRACT(fillarr_##tag) { fill_array_step<RB<T, N>, T, N>(); }

ALL(cb_u8_8, CircularBuffer, uint8_t, 8)
ALL(cb_u32_4, CircularBuffer, uint32_t, 4)
ALL(cb_i16_1, CircularBuffer, int16_t, 1)
ALL(opt_u8_8, CircularBufferOpt, uint8_t, 8)
ALL(opt_u32_4, CircularBufferOpt, uint32_t, 4)
ALL(opt_i16_2, CircularBufferOpt, int16_t, 2)

// ---- a capacity beyond 2^16: any state, any content, one arbitrary element observed where it is stored
template<typename RB, typename T, size_t N>
static T stored(RB const &rb, size_t k) {
	return rb.buf_[(rb.tail_ + k) % N];
}
template<typename RB, typename T, size_t N>
static void large() {
	if constexpr (has_fields<RB>) {
		RB &rb = *static_cast<RB *>(vp_buffer(sizeof(RB), "ring"));
		rb.head_ = any_in<size_t>(0, N - 1, "head");
		rb.tail_ = any_in<size_t>(0, N - 1, "tail");
		rb.full_ = any<bool>("full");
		VP_REQUIRES(imp(rb.full_, rb.head_ == rb.tail_));
		size_t n = rb.full_ ? N : (size_t(rb.head_) + N - rb.tail_) % N, k = any_in<size_t>(0, N - 1, "k");
		VP_ENSURES("large: count, empty and full tell the fill level", rb.count() == n && rb.empty() == (n == 0) && rb.full() == (n == N));
		T at_k = stored<RB, T, N>(rb, k), next = stored<RB, T, N>(rb, k + 1), first = stored<RB, T, N>(rb, 0), x = any<T>("x");
		switch (any_in<int>(0, 3, "operation")) {
			case 0:
				rb.put(x);
				VP_ENSURES("large: put: count grows by one until the capacity is reached", rb.count() == (n < N ? n + 1 : N));
				VP_ENSURES("large: put: newest element is the one put", stored<RB, T, N>(rb, rb.count() - 1) == x);
				if (k + 1 < rb.count())
					VP_ENSURES("large: put: the other elements keep their order", stored<RB, T, N>(rb, k) == (n < N ? at_k : next));
				break;
			case 1: {
				auto r = rb.get();
				VP_ENSURES("large: get: count shrinks by one unless empty", rb.count() == (n ? n - 1 : 0));
				if constexpr (requires { r.has_value(); })
					VP_ENSURES("large: get: oldest element comes out", r.has_value() == (n != 0) && (n == 0 || *r == first));
				else
					VP_ENSURES("large: get: oldest element comes out", r == (n ? first : T()));
				if (k + 1 < n)
					VP_ENSURES("large: get: the rest keeps its order", stored<RB, T, N>(rb, k) == next);
				break;
			}
			case 2:
				rb.remove_first();
				VP_ENSURES("large: remove_first: count shrinks by one unless empty", rb.count() == (n ? n - 1 : 0));
				if (k + 1 < n)
					VP_ENSURES("large: remove_first: the rest keeps its order", stored<RB, T, N>(rb, k) == next);
				break;
			default:
				rb.reset();
				VP_ENSURES("large: reset: empty afterwards", rb.empty() && rb.count() == 0 && !rb.full());
		}
		if constexpr (requires { rb.peek(0); })
			if (k < rb.count())
				VP_ENSURES("large: peek(k) is the k-th oldest element", rb.peek(k) == (stored<RB, T, N>(rb, k)));
		VP_REP("large: the representation stays well formed", wf<RB, N>(rb));
	}
}
VP_CONTRACT(large_cb) { large<CircularBuffer<uint8_t, 1u << 17>, uint8_t, 1u << 17>(); }
VP_CONTRACT_T(large_cb_u32) { large<CircularBuffer<uint32_t, 1u << 17>, uint32_t, 1u << 17>(); }
VP_CONTRACT(large_opt) { large<CircularBufferOpt<uint8_t, 1u << 17>, uint8_t, 1u << 17>(); }
