// C30: partitioning into groups of nearly equal sums.
// vp: budget=400
// vp-bounded part_.* all values for the listed numbers of parts and values (see the instances)
#include "vp.hh"
#include <algorithm>
#include <array>
#include <functional>
#include <ranges>
#include "util/partition.hh"

using namespace vp;

template<unsigned P, unsigned MAX, unsigned N, bool INIT>
static void part() {
	unsigned v[N ? N : 1], init[P];
	for (unsigned i = 0; i < N; i++)
		v[i] = any_in<unsigned>(0, 1u << 28, "value");
	for (unsigned p = 0; p < P; p++)
		init[p] = INIT ? any_in<unsigned>(0, 1u << 28, "initial") : 0;
	Partition<P, MAX> part;
	part.parts[0].push_back(any<unsigned>("left over"));
	if constexpr (INIT)
		part.calc_partitions(std::span<unsigned>{v, N}, std::span<const unsigned>{init, P});
	else
		part.calc_partitions(std::span<unsigned>{v, N});
	unsigned total = 0;
	unsigned seen[N ? N : 1]{};
	unsigned sum[P]{};
	bool in = true, ordered = true;
	for (unsigned p = 0; p < P; p++) {
		total += part.parts[p].size();
		sum[p] = init[p];
		unsigned last = ~0u;
		for (unsigned k = 0; k < part.parts[p].size(); k++) {
			unsigned id = part.parts[p][k];
			in = in & (id < N);
			unsigned val = 0;
			for (unsigned i = 0; i < N; i++) {
				seen[i] += id == i;
				val = id == i ? v[i] : val;
			}
			ordered = ordered & (val <= last);
			last = val;
			sum[p] += val;
		}
	}
	bool once = true;
	for (unsigned i = 0; i < N; i++)
		once = once & (seen[i] == 1);
	VP_ENSURES("Partition: every index is in exactly one part", in & once & (total == N));
	VP_ENSURES("Partition: larger values come first in a part", ordered);
	unsigned big = 0, small = ~0u, top = 0, start = 0;
	for (unsigned p = 0; p < P; p++) {
		big = sum[p] > big ? sum[p] : big;
		small = sum[p] < small ? sum[p] : small;
		start = init[p] > start ? init[p] : start;
	}
	for (unsigned i = 0; i < N; i++)
		top = v[i] > top ? v[i] : top;
	if (!INIT)
		VP_ENSURES("Partition: sums differ by at most the largest value", big - small <= top);
	VP_ENSURES("Partition: no sum exceeds the smallest by more than the largest value, unless it started higher", (big - small <= top) | (big == start));
	// each part without its last element was no larger than any other part
	bool greedy = true;
	for (unsigned p = 0; p < P; p++)
		if (part.parts[p].size()) {
			unsigned id = part.parts[p][part.parts[p].size() - 1], val = 0;
			for (unsigned i = 0; i < N; i++)
				val = id == i ? v[i] : val;
			for (unsigned q = 0; q < P; q++)
				greedy = greedy & (sum[p] - val <= sum[q]);
		}
	VP_ENSURES("Partition: every value went to the smallest sum", greedy);
}
VP_CONTRACT(part_1_4_3) { part<1, 4, 3, false>(); }
VP_CONTRACT(part_2_4_0) { part<2, 4, 0, true>(); }
VP_CONTRACT(part_2_4_1) { part<2, 4, 1, false>(); }
VP_CONTRACT(part_2_4_2) { part<2, 4, 2, true>(); }
VP_CONTRACT(part_2_4_3) { part<2, 4, 3, false>(); }
VP_CONTRACT_T(part_2_3_3) { part<2, 3, 3, true>(); }
VP_CONTRACT(part_2_4_4) { part<2, 4, 4, false>(); }
VP_CONTRACT(part_3_4_3) { part<3, 4, 3, false>(); }
VP_CONTRACT_T(part_3_4_4) { part<3, 4, 4, false>(); }
