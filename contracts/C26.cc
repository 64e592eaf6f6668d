// C26: parameters that glide to new values.
// vp: unroll=40
// vp-opt param_n_.* budget=200
// vp-opt T_param_n_.* budget=800
#include "vp.hh"
#include "util/filtered_interp_array.hh"
#include "util/interp_param.hh"

using namespace vp;

constexpr int32_t LIM = (1 << 29) - 1;
template<typename T>
static T any_val(const char *n) {
	if constexpr (std::is_floating_point_v<T>)
		return any_within<T>(1e30f, n);
	else
		return any_in<T>(sizeof(T) == 4 ? T(-LIM) : std::numeric_limits<T>::lowest() / 2, sizeof(T) == 4 ? T(LIM) : std::numeric_limits<T>::max() / 2, n);
}

// --- InterpParam
template<typename T, int UPDATES>
static void param() {
	InterpParam<T, UPDATES> p;
	VP_ENSURES("InterpParam: starts at zero, standing still", p.cur_val == 0 && p.get_step_size() == 0 && p.next() == 0);
	T from = any_val<T>("from"), to = any_val<T>("to");
	p.cur_val = from;
	p.set_new_value(to);
	T step = (to - from) / UPDATES;
	VP_ENSURES("InterpParam: a new value does not jump", p.cur_val == from);
	VP_ENSURES("InterpParam: steps by an equal share of the distance", p.get_step_size() == step && p.next() == T(from + step) && p.cur_val == T(from + step));
	VP_ENSURES("InterpParam: every step is the same", p.next() == T(T(from + step) + step));
}
VP_CONTRACT(param_i32_1) { param<int32_t, 1>(); }
VP_CONTRACT(param_i32_7) { param<int32_t, 7>(); }
VP_CONTRACT(param_i32_256) { param<int32_t, 256>(); }
VP_CONTRACT(param_i64_100) { param<int64_t, 100>(); }
VP_CONTRACT(param_f_4) { param<float, 4>(); }

// any number of updates: position and end
static int32_t FROM, STEP;
static uint64_t N;
static uint64_t pos_at(uint64_t i, uint64_t) {
	return uint32_t(FROM) + uint32_t(i) * uint32_t(STEP);
}
static bool inv_n(uint64_t i, uint64_t) {
	return i <= N;
}
template<int UPDATES>
static void param_n() {
	InterpParam<int32_t, UPDATES> p;
	FROM = any_in<int32_t>(-LIM, LIM, "from");
	int32_t to = any_in<int32_t>(-LIM, LIM, "to");
	p.cur_val = FROM;
	p.set_new_value(to);
	STEP = p.get_step_size();
	N = any_in<uint64_t>(0, UPDATES, "updates");
	loop_inv(inv_n, 1);
	loop_terms(pos_at, 1);
	for (uint64_t i = 0; i != N; i++)
		p.next();
	no_loop();
	int64_t d = int64_t(to) - FROM, left = int64_t(to) - p.cur_val;
	VP_ENSURES("InterpParam: never passes the new value", d >= 0 ? left >= 0 && left <= d : left <= 0 && left >= d);
	VP_ENSURES("InterpParam: arrives after the given number of updates, short of it by less than one per update", imp(N == UPDATES, left > -UPDATES && left < UPDATES));
}
VP_CONTRACT(param_n_4) { param_n<4>(); }
VP_CONTRACT(param_n_256) { param_n<256>(); }
VP_CONTRACT_T(param_n_100) { param_n<100>(); }

// --- InterpParamVar, InterpParamVariable
template<typename T>
static void var() {
	InterpParamVar<T> p;
	VP_ENSURES("InterpParamVar: starts at zero, standing still", p.get_step_size() == 0 && p.next() == 0);
	T from = any_val<T>("from"), to = any_val<T>("to");
	p.set_new_value(from, any<unsigned>("whatever"));
	VP_ENSURES("InterpParamVar: snaps to its target", p.snap_to_target() == from);
	unsigned n = any_in<unsigned>(1, 1u << 24, "updates");
	p.set_new_value(to, n);
	T step = T(to - from) / T(n);
	VP_ENSURES("InterpParamVar: steps by an equal share of the distance", p.get_step_size() == step);
	VP_ENSURES("InterpParamVar: next is one step on", p.next() == T(from + step));
	T to2 = any_val<T>("then");
	p.set_new_value(to2, 0);
	VP_ENSURES("InterpParamVar: no updates to do it in: keeps its step", p.get_step_size() == step);
	VP_ENSURES("InterpParamVar: snaps to the latest target", p.snap_to_target() == to2 && p.next() == T(to2 + step));
}
VP_CONTRACT(var_i32) { var<int32_t>(); }
VP_CONTRACT(var_f) { var<float>(); }
template<typename T>
static void variable() {
	unsigned n = any_in<unsigned>(1, 1u << 24, "updates"), n2 = any_in<unsigned>(1, 1u << 24, "updates later");
	InterpParamVariable<T> p{n};
	VP_ENSURES("InterpParamVariable: starts at zero, standing still", p.get_step_size() == 0 && p.next() == 0 && p.target_val == 0 && p.get_num_updates() == n);
	T from = any_val<T>("from"), to = any_val<T>("to");
	p.cur_val = from;
	p.set_new_value(to);
	T step = T(to - from) / T(n);
	VP_ENSURES("InterpParamVariable: steps by an equal share of the distance", p.get_step_size() == step && p.target_val == to);
	VP_ENSURES("InterpParamVariable: next is one step on", p.next() == T(from + step) && p.cur_val == T(from + step));
	p.set_num_updates(n2);
	VP_ENSURES("InterpParamVariable: another number of updates applies to the next value", p.get_step_size() == step && p.get_num_updates() == n2);
	p.cur_val = from;
	p.set_new_value(to);
	VP_ENSURES("InterpParamVariable: another number of updates applies to the next value", p.get_step_size() == T(to - from) / T(n2));
}
VP_CONTRACT(variable_i32) { variable<int32_t>(); }
VP_CONTRACT(variable_f) { variable<float>(); }

// --- FilteredInterpArray
struct Doubler {
	int32_t calls = 0;
	int32_t add_val(int32_t x) {
		calls++;
		return 2 * x + 1;
	}
};
template<unsigned C>
static void array() {
	FilteredInterpArray<C, Doubler, int32_t> a;
	VP_ENSURES("FilteredInterpArray: size", a.size() == C);
	unsigned reads = 0;
	a.add_new_readings([&](unsigned) { return int32_t(++reads); });
	VP_ENSURES("FilteredInterpArray: reads nothing unless new data is ready", reads == 0);
	int32_t v[C], to[C];
	for (unsigned i = 0; i < C; i++)
		v[i] = any_in<int32_t>(-1000000, 1000000, "first"), to[i] = any_in<int32_t>(-1000000, 1000000, "second");
	a.mark_new_data_ready();
	bool once = true;
	a.add_new_readings([&](unsigned i) { once = once & (i == reads++); return v[i]; });
	VP_ENSURES("FilteredInterpArray: reads each channel once", once && reads == C);
	a.add_new_readings([&](unsigned) { return int32_t(++reads); });
	VP_ENSURES("FilteredInterpArray: new data is used once", reads == C);
	// the default number of updates is 256: the first output has made one step
	unsigned wrote = 0;
	bool ok = true, order = true;
	a.get_interp_values([&](unsigned i, int32_t x) { order = order & (i == wrote++); ok = ok & (x == (2 * v[i] + 1) / 256); });
	VP_ENSURES("FilteredInterpArray: writes each channel once", order && wrote == C);
	VP_ENSURES("FilteredInterpArray: glides by equal steps towards the filtered value", ok);
	// told to arrive after n updates in all
	unsigned n = any_in<unsigned>(1, 4, "updates");
	a.set_num_updates(n);
	ok = true;
	for (unsigned k = 0; k < 3; k++)
		a.get_interp_values([&](unsigned i, int32_t x) { ok = ok & imp(k + 2 >= n, x == 2 * v[i] + 1); });
	VP_ENSURES("FilteredInterpArray: at its target once the updates are over, and stays there", ok);
	// the next reading is spread over as many updates as the last took: 4
	a.mark_new_data_ready();
	a.add_new_readings([&](unsigned i) { return to[i]; });
	bool steps = true, snap = true;
	for (int k = 1; k <= 5; k++)
		a.get_interp_values([&](unsigned i, int32_t x) {
			int32_t from = 2 * v[i] + 1, end = 2 * to[i] + 1;
			if (k < 4)
				steps = steps & (x == from + k * ((end - from) / 4));
			else
				snap = snap & (x == end);
		});
	VP_ENSURES("FilteredInterpArray: spreads a reading over as many updates as the one before took", steps);
	VP_ENSURES("FilteredInterpArray: arrives exactly at the filtered value", snap);
}
VP_CONTRACT(array_1) { array<1>(); }
VP_CONTRACT(array_3) { array<3>(); }
