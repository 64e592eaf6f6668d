// C06: the compact-binary writers produce exactly the promised bytes, never write past the buffer, and report the size.
// vp: unroll=80
#include "vp.hh"
#include <utility>
#include "util/compact_binary_parser.hh"
#include "util/compact_binary_writer.hh"
#include "util/compact_binary_serializer.hh"

using namespace vp;

static constexpr uint64_t LIM = uint64_t(1) << 40;
// output buffer (any length), one arbitrary byte of it is observed
static uint8_t *B;
static uint64_t N, J, P0, M;
static uint8_t OLD;
static const uint8_t *D;

static std::span<uint8_t> out_buffer() {
	N = any_in<uint64_t>(0, LIM, "length");
	B = static_cast<uint8_t *>(vp_buffer(N, "out"));
	J = any_in<uint64_t>(0, LIM * 2, "observed");
	OLD = vp_byte(B, J);
	return {B, N};
}
static void payload() {
	M = any_in<uint64_t>(0, LIM, "payload_len");
	D = static_cast<const uint8_t *>(vp_buffer(M, "payload"));
}
// after i bytes of the payload have been emitted at P0
static bool emit_inv(uint64_t i, uint64_t k) {
	if (k == 0)
		return vp_byte(B, J) == ((J - P0 < i) & (J < N) ? vp_byte(D, J - P0) : OLD);
	if (k == 1)
		return i <= M;
	return P0 <= LIM * 2;
}
static uint64_t emit_terms(uint64_t i, uint64_t k) {
	return k == 0 ? P0 + i : i;
}
static const void *emit_ptrs(uint64_t i, uint64_t) {
	return D + i;
}
static void emit_loops() {
	loop_inv(emit_inv, 3);
	loop_terms(emit_terms, 2);
	loop_ptrs(emit_ptrs, 1);
}

template<typename T>
static uint8_t byte_of(T const &v, uint64_t i) {
	std::array<uint8_t, sizeof(T)> b;
	memcpy(b.data(), &v, sizeof v);
	uint8_t r = 0;
	for (size_t k = 0; k < sizeof(T); k++)
		r = k == i ? b[k] : r;
	return r;
}

// string keys are stored up to and including the first NUL, the rest of the key field is zero
using Str = char[3];
template<typename K>
struct Key {
	K key;
	Key() {
		if constexpr (std::is_array_v<K>) {
			for (auto &c : key)
				c = any<char>("key");
		} else
			key = any<K>("key");
	}
	K &get() {
		return key;
	}
	std::array<uint8_t, sizeof(K)> stored() const {
		std::array<uint8_t, sizeof(K)> b;
		memcpy(b.data(), &key, sizeof(K));
		if constexpr (std::is_array_v<K>) {
			bool ended = false;
			for (auto &c : b) {
				c = ended ? 0 : c;
				ended = ended | (c == 0);
			}
		}
		return b;
	}
};

// byte J of the buffer after a header for (k, size) has been placed at p
template<typename K, typename S>
static uint8_t with_header(uint64_t p, Key<K> const &k, S size, uint8_t old) {
	uint64_t o = J - p;
	auto kb = k.stored();
	uint8_t r = o < sizeof(K) ? byte_of(kb, o) : (o - sizeof(K) < sizeof(S)) ? byte_of(size, o - sizeof(K)) : old;
	return J < N ? r : old;
}

// ---- CompactBinaryWriter: any state, any position, any buffer
template<typename K, typename S, unsigned Depth>
static CompactBinaryWriter<K, S, Depth> any_writer() {
	CompactBinaryWriter<K, S, Depth> w{out_buffer()};
	w.pos = any_in<size_t>(0, LIM, "pos");
	w.depth = any_in<unsigned>(0, Depth + 2, "depth");
	for (auto &m : w.stack)
		m.size_pos = any_in<size_t>(0, LIM, "mark");
	return w;
}
template<typename W>
static bool same_stack(W const &a, W const &b) {
	bool r = a.depth == b.depth;
	for (size_t i = 0; i < a.stack.size(); i++)
		r = r & (a.stack[i].size_pos == b.stack[i].size_pos);
	return r;
}

template<typename K, typename S, typename T>
void w_field() {
	auto w = any_writer<K, S, 3>();
	auto o = w;
	Key<K> k;
	T v = any<T>("v");
	w.field(k.get(), v);
	uint64_t H = sizeof(K) + sizeof(S), p = o.pos;
	VP_ENSURES("field: the size counts header and value", w.size() == p + H + sizeof(T));
	uint8_t want = with_header<K, S>(p, k, S(sizeof(T)), OLD);
	want = (J < N) & (J - p - H < sizeof(T)) ? byte_of(v, J - p - H) : want;
	VP_ENSURES("field: key, size and value at the write position, cut at the end of the buffer, nothing else changed", vp_byte(B, J) == want);
	VP_REP("field leaves open objects alone", same_stack(w, o));
}

template<typename K, typename S>
void w_raw() {
	auto w = any_writer<K, S, 3>();
	auto o = w;
	Key<K> k;
	payload();
	uint64_t H = sizeof(K) + sizeof(S), p = o.pos;
	P0 = p + H;
	uint8_t first = OLD;
	OLD = with_header<K, S>(p, k, S(M), OLD);
	emit_loops();
	w.raw(k.get(), {D, M});
	no_loop();
	VP_ENSURES("raw: the size counts header and payload", w.size() == p + H + M);
	VP_ENSURES("raw: key, size and payload at the write position, cut at the end of the buffer, nothing else changed",
			   vp_byte(B, J) == ((J < N) & (J - P0 < M) ? vp_byte(D, J - P0) : OLD));
	VP_REP("raw leaves open objects alone", same_stack(w, o));
}

template<typename K, typename S>
void w_object() {
	auto w = any_writer<K, S, 3>();
	auto o = w;
	Key<K> k;
	w.begin_object(k.get());
	uint64_t H = sizeof(K) + sizeof(S), p = o.pos;
	VP_ENSURES("begin_object: the size counts the header", w.size() == p + H);
	uint8_t hdr = with_header<K, S>(p, k, S(0), OLD);
	VP_ENSURES("begin_object: key and an empty size at the write position, nothing else changed", vp_byte(B, J) == hdr);
	VP_REP("begin_object opens one object", w.depth == o.depth + 1 && imp(o.depth < 3, w.stack[o.depth < 3 ? o.depth : 0].size_pos == p + sizeof(K)));
	for (unsigned i = 0; i < 3; i++)
		VP_REP("begin_object keeps the enclosing objects", imp(i < o.depth, w.stack[i].size_pos == o.stack[i].size_pos));
	// anything may be written in between, as long as it leaves the enclosing objects alone and only appends
	uint64_t body = any_in<uint64_t>(0, LIM, "body");
	w.pos += body;
	w.end_object();
	uint64_t s = J - p - sizeof(K);
	uint8_t want = (o.depth < 3) & (J < N) & (s < sizeof(S)) ? byte_of(S(body), s) : hdr;
	VP_ENSURES("end_object: the size field becomes the number of bytes written inside the object, nothing else changed", vp_byte(B, J) == want);
	VP_ENSURES("end_object: the write position stays", w.size() == p + H + body);
	VP_REP("end_object closes one object", w.depth == o.depth);
}
void w_end_unbalanced() {
	auto w = any_writer<uint8_t, uint16_t, 3>();
	w.depth = 0;
	auto o = w;
	w.end_object();
	VP_ENSURES("a stray end_object changes nothing", w.size() == o.pos && same_stack(w, o) && vp_byte(B, J) == OLD);
}

#define W(tag, K, S)                                                                                                   \
	VP_CONTRACT(writer_field_u32_##tag) { w_field<K, S, uint32_t>(); }                                                 \
	VP_CONTRACT(writer_field_u8_##tag) { w_field<K, S, uint8_t>(); }                                                   \
	VP_CONTRACT(writer_raw_##tag) { w_raw<K, S>(); }                                                                   \
	VP_CONTRACT(writer_object_##tag) { w_object<K, S>(); }
W(u8_u8, uint8_t, uint8_t)
W(u16_u16, uint16_t, uint16_t)
W(str_u8, Str, uint8_t)
VP_CONTRACT(writer_end_unbalanced) { w_end_unbalanced(); }

// ---- CompactBinarySerializer
template<typename K, typename S, typename T>
void s_field() {
	using Ser = CompactBinarySerializer<K, S>;
	typename Ser::SpanWriter w{out_buffer()};
	w.pos = any_in<size_t>(0, LIM, "pos");
	typename Ser::Measurer m;
	m.count = any_in<size_t>(0, LIM, "count");
	uint64_t p = w.pos, c = m.count, H = sizeof(K) + sizeof(S);
	Key<K> k;
	T v = any<T>("v");
	m.field(k.get(), v);
	w.field(k.get(), v);
	VP_ENSURES("field: measured size is the number of bytes written", m.count - c == w.pos - p && w.pos - p == H + sizeof(T));
	uint8_t want = with_header<K, S>(p, k, S(sizeof(T)), OLD);
	want = (J < N) & (J - p - H < sizeof(T)) ? byte_of(v, J - p - H) : want;
	VP_ENSURES("field: key, size and value at the write position, cut at the end of the buffer, nothing else changed", vp_byte(B, J) == want);
}
template<typename K, typename S>
void s_raw() {
	using Ser = CompactBinarySerializer<K, S>;
	typename Ser::SpanWriter w{out_buffer()};
	w.pos = any_in<size_t>(0, LIM, "pos");
	typename Ser::Measurer m;
	m.count = any_in<size_t>(0, LIM, "count");
	uint64_t p = w.pos, c = m.count, H = sizeof(K) + sizeof(S);
	Key<K> k;
	payload();
	P0 = p + H;
	OLD = with_header<K, S>(p, k, S(M), OLD);
	m.raw(k.get(), {D, M});
	emit_loops();
	w.raw(k.get(), {D, M});
	no_loop();
	VP_ENSURES("raw: measured size is the number of bytes written", m.count - c == w.pos - p && w.pos - p == H + M);
	VP_ENSURES("raw: key, size and payload at the write position, cut at the end of the buffer, nothing else changed",
			   vp_byte(B, J) == ((J < N) & (J - P0 < M) ? vp_byte(D, J - P0) : OLD));
}
// The sub-object callable is arbitrary up to its contract: it appends the same bytes (any number, any content) to every
// kind of sink.  That contract is what s_field/s_raw/s_object establish for each operation.
template<typename K, typename S>
struct AnySub {
	using Ser = CompactBinarySerializer<K, S>;
	void operator()(typename Ser::Measurer &m) const {
		m.count += M;
	}
	void operator()(typename Ser::SpanWriter &w) const {
		w.emit({D, M});
	}
	template<typename Sink>
	void operator()(typename Ser::template SinkWriter<Sink> &w) const {
		w.emit({D, M});
	}
};
template<typename K, typename S>
void s_object() {
	using Ser = CompactBinarySerializer<K, S>;
	typename Ser::SpanWriter w{out_buffer()};
	w.pos = any_in<size_t>(0, LIM, "pos");
	typename Ser::Measurer m;
	m.count = any_in<size_t>(0, LIM, "count");
	uint64_t p = w.pos, c = m.count, H = sizeof(K) + sizeof(S);
	Key<K> k;
	payload();
	P0 = p + H;
	OLD = with_header<K, S>(p, k, S(M), OLD);
	m.object(k.get(), AnySub<K, S>{});
	emit_loops();
	w.object(k.get(), AnySub<K, S>{});
	no_loop();
	VP_ENSURES("object: measured size is the number of bytes written", m.count - c == w.pos - p && w.pos - p == H + M);
	VP_ENSURES("object: key, the size of the contents and the contents, cut at the end of the buffer, nothing else changed",
			   vp_byte(B, J) == ((J < N) & (J - P0 < M) ? vp_byte(D, J - P0) : OLD));
}
template<typename K, typename S>
void s_whole() {
	using Ser = CompactBinarySerializer<K, S>;
	auto out = out_buffer();
	payload();
	P0 = 0;
	VP_ENSURES("measure gives the size of what is described", Ser::measure(AnySub<K, S>{}) == M);
	emit_loops();
	size_t n = Ser::serialize(out, AnySub<K, S>{});
	no_loop();
	VP_ENSURES("serialize returns the size needed, even when the buffer is too small", n == M);
	VP_ENSURES("serialize writes from the start of the buffer and never past its end", vp_byte(B, J) == ((J < N) & (J < M) ? vp_byte(D, J) : OLD));
}
// a sink that observes byte J of the stream
struct Observer {
	uint64_t at = 0;
	uint8_t seen = 0;
	void operator()(std::span<const uint8_t> b) {
		seen = (J - at < b.size()) ? vp_byte(b.data(), J - at) : seen;
		at += b.size();
	}
};
template<typename K, typename S>
void s_stream() {
	using Ser = CompactBinarySerializer<K, S>;
	out_buffer();
	payload();
	Key<K> k1, k2, k3;
	uint32_t v = any<uint32_t>("v");
	Observer o;
	size_t n = Ser::stream(
		[&](auto &s) {
			s.field(k1.get(), v);
			s.object(k2.get(), AnySub<K, S>{});
			s.raw(k3.get(), {D, M});
		},
		o);
	constexpr uint64_t H = sizeof(K) + sizeof(S);
	VP_ENSURES("stream hands out every byte exactly once and counts them", n == o.at && n == 3 * H + 4 + 2 * M);
	uint8_t want = 0;
	uint64_t keepN = N;
	N = ~0ull; // no cut
	want = with_header<K, S>(0, k1, S(4), want);
	want = J - H < 4 ? byte_of(v, J - H) : want;
	want = with_header<K, S>(H + 4, k2, S(M), want);
	want = J - 2 * H - 4 < M ? vp_byte(D, J - 2 * H - 4) : want;
	want = with_header<K, S>(2 * H + 4 + M, k3, S(M), want);
	want = J - 3 * H - 4 - M < M ? vp_byte(D, J - 3 * H - 4 - M) : want;
	N = keepN;
	VP_ENSURES("stream: the bytes in order", imp(J < n, o.seen == want));
}
#define SER(tag, K, S)                                                                                                 \
	VP_CONTRACT(ser_field_u32_##tag) { s_field<K, S, uint32_t>(); }                                                    \
	VP_CONTRACT(ser_raw_##tag) { s_raw<K, S>(); }                                                                      \
	VP_CONTRACT(ser_object_##tag) { s_object<K, S>(); }                                                                \
	VP_CONTRACT(ser_whole_##tag) { s_whole<K, S>(); }                                                                  \
	VP_CONTRACT(ser_stream_##tag) { s_stream<K, S>(); }
SER(u8_u8, uint8_t, uint8_t)
SER(u16_u16, uint16_t, uint16_t)
SER(str_u8, Str, uint8_t)

// ---- round trip: what a writer wrote, the parser finds; any keys (first one wins), any values, any buffer size
template<typename K, typename S>
void round_trip() {
	std::array<uint8_t, 40> mem{};
	size_t n = any_in<size_t>(0, mem.size(), "n");
	K k1 = any<K>("k1"), k2 = any<K>("k2"), k3 = any<K>("k3"), k4 = any<K>("k4");
	uint32_t v1 = any<uint32_t>("v1");
	uint16_t v2 = any<uint16_t>("v2"), v4 = any<uint16_t>("v4");
	uint8_t v3 = any<uint8_t>("v3");
	VP_REQUIRES(k1 != k2 && k1 != k4 && k2 != k4);
	CompactBinaryWriter<K, S, 2> w{std::span<uint8_t>{mem.data(), n}};
	w.field(k1, v1);
	w.begin_object(k2);
	w.field(k1, v2);
	w.field(k3, v3);
	w.end_object();
	w.field(k4, v4);
	std::array<uint8_t, 40> mem2{};
	size_t m = CompactBinarySerializer<K, S>::serialize(std::span<uint8_t>{mem2.data(), n}, [&](auto &s) {
		s.field(k1, v1);
		s.object(k2, [&](auto &s) {
			s.field(k1, v2);
			s.field(k3, v3);
		});
		s.field(k4, v4);
	});
	bool same = m == w.size();
	for (size_t i = 0; i < mem.size(); i++)
		same = same & (mem[i] == mem2[i]);
	VP_ENSURES("the two writers produce the same bytes", same);
	VP_REQUIRES(n >= w.size());
	CompactBinaryParser<K, S> p{std::span<const uint8_t>{mem.data(), w.size()}};
	VP_ENSURES("a field is read back", p.template get<uint32_t>(k1) == v1);
	VP_ENSURES("a field after an object is read back", p.template get<uint16_t>(k4) == v4);
	CompactBinaryParser<K, S> q{p.get_node(k2)};
	VP_ENSURES("a field inside an object is read back", q.template get<uint16_t>(k1) == v2 && imp(k3 != k1, q.template get<uint8_t>(k3) == v3));
}
VP_CONTRACT(round_trip_u8_u8) { round_trip<uint8_t, uint8_t>(); }
VP_CONTRACT(round_trip_u16_u16) { round_trip<uint16_t, uint16_t>(); }
VP_CONTRACT(round_trip_u32_u8) { round_trip<uint32_t, uint8_t>(); }
