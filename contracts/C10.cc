// C10: wear levelling over a block of cells that can only be erased as a whole.
// The storage is a model of flash: reads, writes and erases may fail, writes may be torn, power may be lost in any of them.
// vp-assume the storage behaves like Flash<N> below: an interrupted write leaves the cell blank, complete or not valid; whether a cell can be read does not change with time
#include "vp.hh"
#include "util/wear_level.hh"

using namespace vp;

static constexpr uint32_t BLANK = 0xFFFFFFFF;
struct Rec {
	uint32_t v = BLANK;
	bool validate() {
		return (v & 1) == 0;
	}
};

template<size_t N>
struct Flash {
	static inline std::array<uint32_t, N> cell;
	static inline std::array<bool, N> readable;
	static inline bool off;			// power is gone: nothing changes any more
	static inline bool range_ok;	// every access so far was inside of the block
	static inline bool ordered_ok;	// a cell was only written while blank
	static inline unsigned erases, writes;
	static inline bool erase_fails, crash;
	static inline size_t last;
	static inline bool stored; // the last write took effect completely

	using data_t = Rec;
	static constexpr size_t NumCells = N;
	static constexpr size_t cell_nr_ = N;

	bool in(size_t c) {
		range_ok = range_ok && c < N;
		return c < N;
	}
	bool get(Rec &d, size_t c) {
		if (!in(c) || !readable[c])
			return false;
		d.v = cell[c];
		return true;
	}
	static uint32_t torn() {
		uint32_t g = any<uint32_t>("torn");
		vp_assume((g & 1) != 0);
		return g;
	}
	bool put(const Rec &d, size_t c) {
		writes++;
		last = c;
		stored = false;
		if (!in(c) || off)
			return false;
		ordered_ok = ordered_ok && cell[c] == BLANK;
		unsigned how = any_in<unsigned>(0, 1, "write outcome");
		if (crash)
			off = true;
		if (how == 0) {
			cell[c] = d.v;
			stored = readable[c];
			return !crash;
		}
		cell[c] = torn(); // not stored (blank) or stored wrongly
		return any<bool>("reported");
	}
	bool wipe() {
		erases++;
		if (off)
			return false;
		if (crash && any<bool>("crash in erase")) {
			off = true;
			for (size_t i = 0; i < N; i++) {
				unsigned how = any_in<unsigned>(0, 1, "erase outcome");
				if (how == 1)
					cell[i] = torn();
			}
			return false;
		}
		if (erase_fails)
			return false;
		for (size_t i = 0; i < N; i++)
			cell[i] = BLANK;
		return true;
	}
	bool is_writeable(size_t c) {
		return in(c) && cell[c] == BLANK;
	}

	// value of the topmost valid cell
	static bool latest(uint32_t &v) {
		for (size_t i = N; i-- > 0;)
			if (readable[i] && (cell[i] & 1) == 0) {
				v = cell[i];
				return true;
			}
		return false;
	}
};
template<size_t N>
struct FlashA : Flash<N> { // for WearLeveler
	bool read(Rec *d, size_t c) { return this->get(*d, c); }
	bool write(const Rec *d, size_t c) { return this->put(*d, c); }
	bool erase() { return this->wipe(); }
};
template<size_t N>
struct FlashB : Flash<N> { // for WearLevel
	bool read(Rec &d, size_t c) { return this->get(d, c); }
	bool write(const Rec &d, size_t c) { return this->put(d, c); }
	bool erase() { return this->wipe(); }
};
template<size_t N>
using A = WearLeveler<FlashA<N>>;
template<size_t N>
using B = WearLevel<FlashB<N>>;

template<typename F>
void any_flash() {
	for (size_t i = 0; i < F::NumCells; i++) {
		F::cell[i] = any<uint32_t>("cell");
		F::readable[i] = any<bool>("readable");
	}
	F::off = F::erase_fails = F::crash = F::stored = false;
	F::range_ok = F::ordered_ok = true;
	F::erases = F::writes = 0;
	F::last = F::NumCells;
}
template<typename W>
constexpr bool has_cell = requires(W &w) { w.cell_; };

// any state an instance can be in: every cell from cell_ up holds nothing valid
template<typename W, typename F>
void any_state(W &w) {
	if constexpr (has_cell<W>) {
		size_t c = any_in<size_t>(0, F::NumCells, "cell_");
		VP_REQUIRES(c >= w.cell_); // the constructor put it behind the topmost valid cell
		w.cell_ = c;
	} else {
		// some writes that did not take effect
		unsigned k = any_in<unsigned>(0, F::NumCells, "writes before");
		for (unsigned i = 0; i < k; i++) {
			Rec r{any<uint32_t>("before")};
			w.write(r);
		}
		F::erases = F::writes = 0;
	}
}
template<typename W, typename F>
void reads_latest(W &w, const char *) {
	uint32_t v = 0;
	bool some = F::latest(v);
	Rec d{any<uint32_t>("previous content of the destination")};
	bool ok = w.read(d);
	VP_ENSURES("read: the latest valid value, or nothing if there is none", ok == some && imp(some, d.v == v));
}
template<typename W, typename F>
void rebooted_reads_latest() {
	F::off = false;
	W w;
	reads_latest<W, F>(w, "after reboot");
}
template<typename W, typename F>
void invariant(W &w) {
	if constexpr (has_cell<W>) {
		VP_REP("cell_ is at most the number of cells", w.cell_ <= F::NumCells);
		for (size_t i = 0; i < F::NumCells; i++)
			VP_REP("nothing valid from cell_ up", imp(i >= w.cell_, !F::readable[i] || (F::cell[i] & 1) != 0));
	}
}

template<typename W, typename F>
void boot() {
	any_flash<F>();
	auto was = F::cell;
	W w;
	reads_latest<W, F>(w, "after boot");
	invariant<W, F>(w);
	VP_ENSURES("starting and reading change nothing and stay in the block", F::cell == was && F::writes == 0 && F::erases == 0 && F::range_ok);
}
template<typename W, typename F>
void read_any() {
	any_flash<F>();
	W w;
	any_state<W, F>(w);
	auto was = F::cell;
	reads_latest<W, F>(w, "any state");
	reads_latest<W, F>(w, "any state, again");
	VP_ENSURES("reading changes nothing and stays in the block", F::cell == was && F::range_ok);
}
template<typename W, typename F>
void write_any() {
	static constexpr size_t N = F::NumCells;
	any_flash<F>();
	W w;
	any_state<W, F>(w);
	auto was = F::cell;
	uint32_t before = 0;
	bool had = F::latest(before);
	Rec d{any<uint32_t>("value")};
	bool ok = w.write(d);
	VP_ENSURES("a write makes one attempt, into a blank cell of the block", F::writes == 1 && F::range_ok && F::ordered_ok);
	VP_ENSURES("a write erases at most once", F::erases <= 1);
	if (F::erases == 0) {
		for (size_t i = 0; i < N; i++)
			VP_ENSURES("a write without erase leaves the other cells alone", imp(i != F::last, F::cell[i] == was[i]));
	}
	if (F::stored && d.validate()) {
		uint32_t v = 0;
		VP_ENSURES("a stored valid value is the latest", F::latest(v) && v == d.v);
		reads_latest<W, F>(w, "after write");
		rebooted_reads_latest<W, F>();
	} else if (F::erases == 0) {
		uint32_t v = 0;
		bool has = F::latest(v);
		VP_ENSURES("a value that was not stored or is not valid leaves the latest one in place", has == had && imp(had, v == before));
		reads_latest<W, F>(w, "after failed write");
		rebooted_reads_latest<W, F>();
	}
	(void)ok;
	invariant<W, F>(w);
}
// an erase happens only when no blank cell is left above the latest value
template<typename W, typename F>
void erase_only_when_full() {
	static constexpr size_t N = F::NumCells;
	any_flash<F>();
	W w;
	auto was = F::cell;
	size_t at = 0; // behind the latest value
	for (size_t i = 0; i < N; i++)
		if (F::readable[i] && (was[i] & 1) == 0)
			at = i + 1;
	bool moved = false;
	if constexpr (has_cell<W>) {
		moved = any<bool>("later");
		if (moved) {
			at = any_in<size_t>(at, N, "cell_");
			w.cell_ = at;
		}
	}
	Rec d{any<uint32_t>("value")};
	w.write(d);
	size_t first = N;
	for (size_t i = N; i-- > 0;)
		if (i >= at && was[i] == BLANK)
			first = i;
	bool ok = F::last == (first < N ? first : 0) && F::erases == (first < N ? 0 : 1);
	if (moved)
		VP_REP("the first blank cell from the position up is used, else the block is erased and cell 0 used", ok);
	else
		VP_ENSURES("the first blank cell above the latest value is used; only if there is none the block is erased and cell 0 used", ok);
}
// the result of the low-level write is reported
template<typename W, typename F>
void write_result() {
	any_flash<F>();
	for (size_t i = 0; i < F::NumCells; i++)
		F::readable[i] = true;
	W w;
	any_state<W, F>(w);
	Rec d{any<uint32_t>("value")};
	bool ok = w.write(d);
	VP_ENSURES("a write that took effect is reported as successful", imp(F::stored, ok));
}
// power is lost inside of write(); then restart
template<typename W, typename F>
void crash_any() {
	static constexpr size_t N = F::NumCells;
	any_flash<F>();
	Rec d{any<uint32_t>("value")};
	std::array<uint32_t, N> was = F::cell;
	uint32_t before = 0;
	bool had = false;
	{
		W w;
		any_state<W, F>(w);
		was = F::cell;
		had = F::latest(before);
		F::crash = true;
		w.write(d);
	}
	F::crash = false;
	F::off = false;
	uint32_t v = 0;
	bool has = F::latest(v);
	if (F::erases == 0)
		VP_ENSURES("power lost in a write: the old or the new value remains", has ? (had && v == before) || (v == d.v && d.validate()) : !had);
	bool known = false;
	for (size_t i = 0; i < N; i++)
		known = known || v == was[i];
	VP_ENSURES("power lost in an erase: only values that were written", imp(has, known || v == d.v));
	W again;
	reads_latest<W, F>(again, "after restart");
}
// an erase that reports failure: the write fails, the block can still be read
template<typename W, typename F>
void erase_failure() {
	any_flash<F>();
	auto was = F::cell;
	W w;
	any_state<W, F>(w);
	was = F::cell;
	F::erase_fails = true;
	F::range_ok = true;
	Rec d{any<uint32_t>("value")};
	bool ok = w.write(d);
	if (F::erases)
		VP_ENSURES("a failed erase fails the write and nothing is written", !ok && F::writes == 0 && F::cell == was);
	Rec r{any<uint32_t>("previous content of the destination")};
	bool got = w.read(r);
	bool known = false;
	for (size_t i = 0; i < F::NumCells; i++)
		known = known || (F::cell[i] == r.v && F::readable[i]);
	VP_ENSURES("read never reports a value that is not stored", imp(got, known && r.validate()) && F::range_ok);
	bool ok2 = w.write(d);
	(void)ok2;
	VP_ENSURES("later writes stay in the block", F::range_ok && F::ordered_ok);
	rebooted_reads_latest<W, F>();
}

#define WL(tag, W, F)                                                                                                  \
	VP_CONTRACT(boot_##tag) { boot<W, F>(); }                                                                          \
	VP_CONTRACT(read_##tag) { read_any<W, F>(); }                                                                      \
	VP_CONTRACT(write_##tag) { write_any<W, F>(); }                                                                    \
	VP_CONTRACT(erase_##tag) { erase_only_when_full<W, F>(); }                                                         \
	VP_CONTRACT(result_##tag) { write_result<W, F>(); }                                                                \
	VP_CONTRACT(crash_##tag) { crash_any<W, F>(); }                                                                    \
	VP_CONTRACT(erase_failure_##tag) { erase_failure<W, F>(); }
WL(leveler_1, A<1>, FlashA<1>)
WL(leveler_2, A<2>, FlashA<2>)
WL(leveler_3, A<3>, FlashA<3>)
WL(level_1, B<1>, FlashB<1>)
WL(level_2, B<2>, FlashB<2>)
WL(level_3, B<3>, FlashB<3>)
