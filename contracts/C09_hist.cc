// C09 witness search: threads creating and destroying on one pool, under ThreadSanitizer
// vp: san=thread
#include "vp.hh"
#include "util/thread_safe_pool.hh"
#include <atomic>
#include <memory>
#include <thread>
#include <vector>

VP_CONTRACT(threads) {
	static constexpr size_t N = 4;
	auto pool = std::make_unique<cpputil::ThreadSafePool<unsigned, N>>();
	std::array<std::atomic<int>, N> owners{};
	std::atomic<bool> ok = true;
	std::vector<std::thread> ts;
	for (unsigned t = 0; t < 4; t++)
		ts.emplace_back([&, t] {
			std::array<size_t, 2> held{};
			for (unsigned i = 0; i < 3000; i++) {
				size_t n = 0;
				for (unsigned k = 0; k < 2; k++) {
					auto r = pool->create();
					if (!r)
						continue;
					if (*r >= N || owners[*r].fetch_add(1, std::memory_order_relaxed) != 0)
						ok = false;
					(*pool)[*r] = t * 100000 + i;
					held[n++] = *r;
				}
				for (size_t k = 0; k < n; k++) {
					if ((*pool)[held[k]] != t * 100000 + i)
						ok = false;
					owners[held[k]].fetch_sub(1, std::memory_order_relaxed);
					if (!pool->destroy(held[k]))
						ok = false;
				}
			}
		});
	for (auto &t : ts)
		t.join();
	for (size_t i = 0; i < N; i++)
		ok = ok && !pool->is_used(i);
	VP_ENSURES("an entry has one owner at a time", ok);
}
