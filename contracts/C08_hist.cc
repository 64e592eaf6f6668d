// C08 witness search: a producer and a consumer thread on one FIFO, under ThreadSanitizer
// vp: san=thread
#include "vp.hh"
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"
#include <memory>
#include <thread>

template<typename F>
static void stream(F &f, unsigned count, bool move) {
	std::thread prod([&] {
		for (unsigned i = 1; i <= count; i++)
			while (!f.put(i))
				;
	});
	bool ok = true;
	std::thread cons([&] {
		for (unsigned i = 1; i <= count;) {
			unsigned v = 0;
			bool got;
			if (move)
				got = f.get_move(v);
			else {
				auto r = f.get();
				got = r.has_value();
				v = r.value_or(0);
			}
			if (got) {
				ok = ok && v == i;
				i++;
			}
			ok = ok && f.num_filled() <= f.max_size();
		}
	});
	prod.join();
	cons.join();
	VP_ENSURES("the elements arrive in order, each once, and no data race", ok && f.empty());
}
VP_CONTRACT(stream_fixed) {
	bool move = vp::any<bool>("move");
	auto f = std::make_unique<LockFreeFifoSpsc<unsigned, 4>>();
	stream(*f, 3000, move);
}
VP_CONTRACT(stream_dyn) {
	bool move = vp::any<bool>("move");
	auto f = std::make_unique<LockFreeFifoSpscDyn<unsigned>>(3);
	stream(*f, 3000, move);
}
