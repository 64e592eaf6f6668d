// C04: the array-backed maps behave as maps: a lookup sees the last value stored under the key, nothing else changes.
#include "vp.hh"
#include <algorithm>
#include <array>
#include <span>
#include <utility>
#include "util/sequential_map.hh"
#include "util/seq_map.hh"

using namespace vp;

// ---- SequentialMap: keys are unique
template<typename M, typename K, typename V, size_t N>
void any_map(M &m) {
	for (size_t i = 0; i < N; i++) {
		m.data[i].first = any<K>("key");
		m.data[i].second = any<V>("val");
	}
	m.data.resize_for_overwrite(any_in<size_t>(0, N, "size"));
	bool uniq = true;
	for (size_t i = 0; i < N; i++)
		for (size_t j = 0; j < i; j++)
			uniq = uniq & imp(i < m.size(), m.data[i].first != m.data[j].first);
	VP_REQUIRES(uniq);
}
template<typename M, size_t N>
bool unique(M const &m) {
	bool uniq = true;
	for (size_t i = 0; i < N; i++)
		for (size_t j = 0; j < i; j++)
			uniq = uniq & imp(i < m.size(), m.data[i].first != m.data[j].first);
	return uniq;
}
// the abstract map
template<typename M, typename K, size_t N>
bool has(M const &m, K k) {
	bool r = false;
	for (size_t i = 0; i < N; i++)
		r = r | (i < m.size() & m.data[i].first == k);
	return r;
}
template<typename M, typename K, typename V, size_t N>
V lookup(M const &m, K k) {
	V r{};
	for (size_t i = N; i-- > 0;)
		r = (i < m.size() & m.data[i].first == k) ? m.data[i].second : r;
	return r;
}

template<typename K, typename V, size_t N>
void sm_index() {
	using M = SequentialMap<K, V, N>;
	M m;
	any_map<M, K, V, N>(m);
	M old = m;
	K k = any<K>("k"), other = any<K>("other");
	V v = any<V>("v");
	bool had = has<M, K, N>(old, k);
	size_t n = old.size();
	m[k] = v;
	VP_ENSURES("store: the key is present with the stored value", has<M, K, N>(m, k) && lookup<M, K, V, N>(m, k) == v && m[k] == v && std::as_const(m)[k] == v);
	VP_ENSURES("store: keys stay unique", unique<M, N>(m));
	VP_ENSURES("store: size grows only for a new key with room", m.size() == (had || n == N ? n : n + 1));
	K victim = old.data[N - 1].first;
	VP_REQUIRES(other != k);
	if (had || n < N)
		VP_ENSURES("store: no other key is affected", has<M, K, N>(m, other) == has<M, K, N>(old, other) && lookup<M, K, V, N>(m, other) == lookup<M, K, V, N>(old, other));
	else
		VP_ENSURES("store into a full map replaces only the last key added",
				   has<M, K, N>(m, other) == (has<M, K, N>(old, other) && other != victim) && imp(other != victim, lookup<M, K, V, N>(m, other) == lookup<M, K, V, N>(old, other)));
}

template<typename K, typename V, size_t N>
void sm_insert() {
	using M = SequentialMap<K, V, N>;
	M m;
	any_map<M, K, V, N>(m);
	M old = m;
	K k = any<K>("k"), other = any<K>("other");
	V v = any<V>("v");
	bool had = has<M, K, N>(old, k);
	size_t n = old.size();
	auto [it, ok] = m.insert({k, v});
	VP_ENSURES("insert succeeds exactly for a new key with room", ok == (!had && n < N));
	VP_ENSURES("insert: size", m.size() == (ok ? n + 1 : n));
	VP_ENSURES("insert: the iterator designates the entry of that key", imp(ok || had, it != m.end() && it->first == k));
	VP_ENSURES("insert: no entry, no iterator", imp(!ok && !had, it == m.end()));
	VP_ENSURES("insert stores the value, and an existing value stays", imp(ok, lookup<M, K, V, N>(m, k) == v) && imp(had, lookup<M, K, V, N>(m, k) == lookup<M, K, V, N>(old, k)));
	VP_ENSURES("insert: keys stay unique", unique<M, N>(m));
	VP_REQUIRES(other != k);
	VP_ENSURES("insert: no other key is affected", has<M, K, N>(m, other) == has<M, K, N>(old, other) && lookup<M, K, V, N>(m, other) == lookup<M, K, V, N>(old, other));
}

template<typename K, typename V, size_t N>
void sm_query() {
	using M = SequentialMap<K, V, N>;
	M m;
	any_map<M, K, V, N>(m);
	M const &c = m;
	K k = any<K>("k");
	bool had = has<M, K, N>(m, k);
	size_t n = m.size();
	VP_ENSURES("contains iff stored", c.contains(k) == had);
	auto it = m.find(k);
	auto ci = c.find(k);
	VP_ENSURES("find ends at end() iff not stored", (it != m.end()) == had && (ci != c.end()) == had);
	if (had)
		VP_ENSURES("find designates the entry", it->first == k && it->second == lookup<M, K, V, N>(m, k) && ci->first == k);
	VP_ENSURES("const lookup: the stored value, else a default value", c[k] == (had ? lookup<M, K, V, N>(m, k) : V{}));
	VP_ENSURES("lookups change nothing", m.size() == n && m.empty() == (n == 0) && m.is_full() == (n == N) && m.max_size() == N);
}

template<typename K, typename V, size_t N>
void sm_erase() {
	using M = SequentialMap<K, V, N>;
	M m;
	any_map<M, K, V, N>(m);
	M old = m;
	K k = any<K>("k"), other = any<K>("other");
	bool had = has<M, K, N>(old, k);
	size_t c = m.erase(k);
	VP_ENSURES("erase reports whether the key was stored", c == (had ? 1 : 0));
	VP_ENSURES("erase: key gone, size", !has<M, K, N>(m, k) && m.size() == old.size() - c);
	VP_ENSURES("erase: keys stay unique", unique<M, N>(m));
	VP_REQUIRES(other != k);
	VP_ENSURES("erase: no other key is affected", has<M, K, N>(m, other) == has<M, K, N>(old, other) && lookup<M, K, V, N>(m, other) == lookup<M, K, V, N>(old, other));
	m.clear();
	VP_ENSURES("clear empties", m.empty() && !m.contains(other));
}

#define SM(tag, K, V, N)                                                                                               \
	VP_CONTRACT(sm_index_##tag) { sm_index<K, V, N>(); }                                                               \
	VP_CONTRACT(sm_insert_##tag) { sm_insert<K, V, N>(); }                                                             \
	VP_CONTRACT(sm_query_##tag) { sm_query<K, V, N>(); }                                                               \
	VP_CONTRACT(sm_erase_##tag) { sm_erase<K, V, N>(); }
SM(u8u32_4, uint8_t, uint32_t, 4)
SM(i32u16_3, int, uint16_t, 3)

// ---- SeqMap
template<typename M, typename K, typename V, size_t N>
void any_seq(M &m, bool uniq_needed) {
	for (size_t i = 0; i < N; i++) {
		m.keys[i] = any<K>("key");
		m.vals[i] = any<V>("val");
	}
	m.sz = any_in<size_t>(0, N, "size");
	m.oldest = any_in<size_t>(0, N - 1, "oldest");
	bool uniq = true;
	for (size_t i = 0; i < N; i++)
		for (size_t j = 0; j < i; j++)
			uniq = uniq & imp(i < m.sz, m.keys[i] != m.keys[j]);
	if (uniq_needed)
		VP_REQUIRES(uniq);
}
template<typename M, size_t N>
bool seq_wf(M const &m) {
	return m.sz <= N & m.oldest < N;
}
template<typename M, size_t N>
bool seq_unique(M const &m) {
	bool uniq = true;
	for (size_t i = 0; i < N; i++)
		for (size_t j = 0; j < i; j++)
			uniq = uniq & imp(i < m.sz, m.keys[i] != m.keys[j]);
	return uniq;
}
template<typename M, typename K, size_t N>
bool seq_has(M const &m, K k) {
	bool r = false;
	for (size_t i = 0; i < N; i++)
		r = r | (i < m.sz & m.keys[i] == k);
	return r;
}
// first entry wins
template<typename M, typename K, typename V, size_t N>
V seq_lookup(M const &m, K k) {
	V r{};
	for (size_t i = N; i-- > 0;)
		r = (i < m.sz & m.keys[i] == k) ? m.vals[i] : r;
	return r;
}

template<typename K, typename V, size_t N>
void seq_overwrite() {
	using M = SeqMap<K, V, N>;
	M m;
	any_seq<M, K, V, N>(m, true);
	M old = m;
	K k = any<K>("k"), other = any<K>("other");
	V v = any<V>("v");
	bool had = seq_has<M, K, N>(old, k);
	size_t n = old.size();
	V *p = m.overwrite(k, v);
	VP_REP("overwrite keeps the representation well formed", seq_wf<M, N>(m));
	VP_ENSURES("overwrite: lookup finds the value just stored, at the returned place", *p == v && m.get(k) == p && m.key_exists(k));
	VP_ENSURES("overwrite: size grows only for a new key with room", m.size() == (had || n == N ? n : n + 1));
	VP_ENSURES("overwrite: keys stay unique", seq_unique<M, N>(m));
	K victim = old.keys[old.oldest];
	VP_REQUIRES(other != k);
	bool evict = !had && n == N;
	VP_ENSURES("overwrite: no other key is affected, except the one evicted from a full map",
			   seq_has<M, K, N>(m, other) == (seq_has<M, K, N>(old, other) && !(evict && other == victim)) &&
				   imp(!(evict && other == victim), seq_lookup<M, K, V, N>(m, other) == seq_lookup<M, K, V, N>(old, other)));
	// eviction order: the sequence of entries by age loses its first and gains the new one
	if (evict) {
		size_t j = any_in<size_t>(0, N - 1, "j");
		VP_ENSURES("overwrite of a full map evicts the entries in the order they were added",
				   imp(j + 1 < N, m.keys[(m.oldest + j) % N] == old.keys[(old.oldest + j + 1) % N]) && m.keys[(m.oldest + N - 1) % N] == k);
	} else
		VP_ENSURES("overwrite without eviction keeps the age order", m.oldest == old.oldest);
}

template<typename K, typename V, size_t N>
void seq_insert() {
	using M = SeqMap<K, V, N>;
	M m;
	any_seq<M, K, V, N>(m, false);
	M old = m;
	K k = any<K>("k"), other = any<K>("other");
	V v = any<V>("v");
	bool had = seq_has<M, K, N>(old, k);
	bool ok = m.insert(k, v);
	VP_REP("insert keeps the representation well formed", seq_wf<M, N>(m));
	VP_ENSURES("insert succeeds exactly when there is room", ok == (old.size() < N));
	VP_ENSURES("insert: size", m.size() == old.size() + ok);
	VP_ENSURES("insert: a new key gets the value", imp(ok && !had, m.get(k) && *m.get(k) == v));
	VP_REQUIRES(other != k || !ok);
	VP_ENSURES("insert: nothing else is affected", seq_has<M, K, N>(m, other) == seq_has<M, K, N>(old, other) && seq_lookup<M, K, V, N>(m, other) == seq_lookup<M, K, V, N>(old, other));
}

template<typename K, typename V, size_t N>
void seq_query() {
	using M = SeqMap<K, V, N>;
	M m;
	any_seq<M, K, V, N>(m, false);
	M old = m;
	K k = any<K>("k"), other = any<K>("other");
	bool had = seq_has<M, K, N>(m, k);
	V *p = m.get(k);
	VP_ENSURES("get finds exactly the stored keys", (p != nullptr) == had && m.key_exists(k) == had);
	if (p)
		VP_ENSURES("get: value of the key", *p == seq_lookup<M, K, V, N>(m, k));
	VP_ENSURES("get does not change the map", m.size() == old.size() && seq_lookup<M, K, V, N>(m, other) == seq_lookup<M, K, V, N>(old, other));
}

template<typename K, typename V, size_t N>
void seq_remove() {
	using M = SeqMap<K, V, N>;
	M m;
	any_seq<M, K, V, N>(m, true);
	M old = m;
	K k = any<K>("k"), other = any<K>("other");
	bool had = seq_has<M, K, N>(m, k);
	bool r = m.remove(k);
	VP_REP("remove keeps the representation well formed", seq_wf<M, N>(m));
	VP_ENSURES("remove reports whether the key was stored", r == had);
	VP_ENSURES("remove: the key is gone", imp(k != K{}, !seq_has<M, K, N>(m, k)));
	VP_REQUIRES(other != k && other != K{});
	VP_ENSURES("remove: nothing else is affected", seq_has<M, K, N>(m, other) == seq_has<M, K, N>(old, other) && seq_lookup<M, K, V, N>(m, other) == seq_lookup<M, K, V, N>(old, other));
	M q = old;
	q.remove_last();
	size_t j = any_in<size_t>(0, N - 1, "j");
	VP_ENSURES("remove_last drops exactly the entry added last", q.size() == (old.size() ? old.size() - 1 : 0) && q.keys[j] == old.keys[j] && q.vals[j] == old.vals[j]);
}

#define SQ(tag, K, V, N)                                                                                               \
	VP_CONTRACT(seq_overwrite_##tag) { seq_overwrite<K, V, N>(); }                                                     \
	VP_CONTRACT(seq_insert_##tag) { seq_insert<K, V, N>(); }                                                           \
	VP_CONTRACT(seq_query_##tag) { seq_query<K, V, N>(); }                                                             \
	VP_CONTRACT(seq_remove_##tag) { seq_remove<K, V, N>(); }
SQ(u8u32_4, uint8_t, uint32_t, 4)
SQ(i32u8_3, int, uint8_t, 3)
SQ(u16u16_1, uint16_t, uint16_t, 1)
