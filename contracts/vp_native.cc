// Native run of the contracts: replay of a counterexample on the real code, and seeded random search for one.
//   contracts replay NAME FILE     exit 1: a clause fails; 77: a precondition fails; 0: holds
//   contracts random NAME SEED N OUT   run N random inputs; on a failure the values are in OUT
#include "vp.hh"
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <unistd.h>
#include <vector>
#include <sys/wait.h>
#include <sys/mman.h>
#include <csignal>
#include <ctime>

namespace
{
std::map<std::string, void (*)()> &reg() {
	static std::map<std::string, void (*)()> r;
	return r;
}
struct Val {
	bool buf;
	uint64_t v;
	std::vector<uint8_t> bytes;
};
std::vector<Val> vals;
size_t pos;
bool random_mode;
uint64_t rs;
FILE *out;
std::map<void *, uint64_t> sizes;

uint64_t rnd() {
	rs += 0x9E3779B97F4A7C15ull;
	uint64_t z = rs;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
uint64_t mask(unsigned n) {
	return n >= 64 ? ~0ull : (1ull << n) - 1;
}
uint64_t pick(unsigned n) {
	switch (rnd() % 8) {
		case 0:
			return rnd() % 4;
		case 1:
			return rnd() % 20;
		case 2:
			return (0 - (rnd() % 4 + 1));
		case 3:
			return (1ull << (n - 1)) + (rnd() % 5) - 2;
		case 4:
			return rnd() % 300;
		case 5:
			if (n == 32) {
				float f = (float)(int64_t)(rnd() % 4001 - 2000) / 100.f;
				return std::bit_cast<uint32_t>(f);
			}
			if (n == 8)
				return "0123456789 -.abcXYZ\0_"[rnd() % 21];
			return 1ull << (rnd() % n);
		default:
			return rnd();
	}
}
// values of specification functions
std::map<unsigned, std::map<uint64_t, uint64_t>> table;
std::map<unsigned, std::pair<void (*)(uint64_t), bool>> lazy;
unsigned depth;
bool undefined;

[[noreturn]] void stop(int code) {
	fflush(nullptr);
	_exit(code);
}
} // namespace

vp::Registry::Registry(const char *name, void (*fn)()) {
	reg()[name] = fn;
}

extern "C" {
uint64_t vp_any_bits(unsigned n, const char *name) {
	uint64_t v = 0;
	if (random_mode) {
		v = pick(n) & mask(n);
		if (out)
			fprintf(out, "bits %u %llu %s\n", n, (unsigned long long)v, name);
	} else if (pos < vals.size() && !vals[pos].buf)
		v = vals[pos++].v & mask(n);
	else
		pos++;
	return v;
}
uint64_t vp_any_range(uint64_t lo, uint64_t hi, int sg, const char *name) {
	uint64_t v = lo;
	if (sg ? (int64_t)lo > (int64_t)hi : lo > hi)
		stop(77);
	if (random_mode) {
		uint64_t span = hi - lo + 1;
		uint64_t r = rnd() % 4 == 0 ? rnd() % 3 : rnd();
		if (rnd() % 8 == 0)
			r = 0 - (rnd() % 3 + 1);
		v = span ? lo + r % span : r;
		if (out)
			fprintf(out, "bits 64 %llu %s\n", (unsigned long long)v, name);
	} else if (pos < vals.size() && !vals[pos].buf) {
		v = vals[pos++].v;
		if (sg ? ((int64_t)v < (int64_t)lo || (int64_t)v > (int64_t)hi) : (v < lo || v > hi))
			stop(77);
	} else
		pos++;
	return v;
}
void *vp_buffer(uint64_t n, const char *name) {
	if (n > (1ull << 26))
		stop(77);
	auto *p = (uint8_t *)malloc(n);
	sizes[p] = n;
	if (random_mode) {
		if (out)
			fprintf(out, "buf %llu ", (unsigned long long)n);
		for (uint64_t i = 0; i < n; i++) {
			p[i] = pick(8);
			if (out)
				fprintf(out, "%02x", p[i]);
		}
		if (out)
			fprintf(out, " %s\n", name);
	} else {
		for (uint64_t i = 0; i < n; i++)
			p[i] = pos < vals.size() && i < vals[pos].bytes.size() ? vals[pos].bytes[i] : 0;
		pos++;
	}
	return p;
}
void vp_assume(bool c) {
	if (!c)
		stop(77);
}
void vp_check(bool c, const char *label) {
	if (!c && undefined)
		stop(77); // the specification has no value here: not a verdict
	if (!c) {
		fprintf(stderr, "FAILED: %s\n", label);
		stop(1);
	}
}
void vp_cover(const char *) {
}
void vp_define(bool) {
}
uint64_t vp_uf(unsigned id, uint64_t a, uint64_t, uint64_t) {
	auto &t = table[id];
	auto it = t.find(a);
	if (it != t.end())
		return it->second;
	auto l = lazy.find(id);
	if (l != lazy.end() && depth < 20000) {
		depth++;
		if (l->second.second) {
			uint64_t from = t.empty() ? 0 : t.rbegin()->first;
			for (uint64_t i = from; a < 10000000 && i < a + (a == 0); i++)
				l->second.first(i);
		} else
			l->second.first(a);
		depth--;
		it = t.find(a);
		if (it != t.end())
			return it->second;
	}
	undefined = true;
	return 0;
}
void vp_let_native(unsigned id, uint64_t a, uint64_t v) {
	table[id][a] = v;
}
uint64_t vp_iter() {
	undefined = true;
	return 0;
}
void vp_spec(int, const void *, unsigned) {
}
// Accesses to watched memory (vp_ram, below) are caught one by one: the pages are inaccessible, a fault runs the hook and
// lets the one instruction through.
static uint8_t *ram;
static size_t ram_len;
using Pre = void (*)(void *, uint64_t, int, int, int);
static Pre pre_hook;
static struct sigaction old_segv;
static void on_segv(int sig, siginfo_t *si, void *uc) {
	auto *a = (uint8_t *)si->si_addr;
	auto *u = (ucontext_t *)uc;
	if (!pre_hook || a < ram || a >= ram + ram_len) {
		sigaction(sig, &old_segv, nullptr);
		return;
	}
	mprotect(ram, ram_len, PROT_READ | PROT_WRITE);
	pre_hook(a, 4, (u->uc_mcontext.gregs[REG_ERR] & 2) != 0, 0, 0);
	u->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static void on_trap(int, siginfo_t *, void *uc) {
	auto *u = (ucontext_t *)uc;
	u->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
	if (pre_hook)
		mprotect(ram, ram_len, PROT_NONE);
}
void *vp_ram(uint64_t n, const char *name) {
	void *v = vp_buffer(n, name);
	ram_len = (n + 4095) / 4096 * 4096 + 4096;
	ram = (uint8_t *)mmap(nullptr, ram_len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	ram_len -= 4096;
	mprotect(ram + ram_len, 4096, PROT_NONE);
	uint8_t *p = ram + (ram_len - n);
	memcpy(p, v, n);
	sizes[p] = n;
	return p;
}
void vp_watch(void *) {
}
void vp_hook(const void *pre, const void *) {
	if (!ram)
		return;
	struct sigaction sa{};
	sa.sa_flags = SA_SIGINFO;
	if (pre) {
		sa.sa_sigaction = on_segv;
		sigaction(SIGSEGV, &sa, &old_segv);
		sa.sa_sigaction = on_trap;
		sigaction(SIGTRAP, &sa, nullptr);
		pre_hook = (Pre)pre;
		mprotect(ram, ram_len, PROT_NONE);
	} else if (pre_hook) {
		pre_hook = nullptr;
		mprotect(ram, ram_len, PROT_READ | PROT_WRITE);
		sigaction(SIGSEGV, &old_segv, nullptr);
	}
}
bool vp_same_object(const void *, const void *) {
	return true;
}
uint64_t vp_objsize(const void *p) {
	return sizes.count((void *)p) ? sizes[(void *)p] : 0;
}
uint8_t vp_byte(const void *p, uint64_t off) {
	auto it = sizes.find((void *)p);
	return it != sizes.end() && off < it->second ? ((const uint8_t *)p)[off] : 0;
}
uint64_t vp_offset(const void *) {
	return 0;
}
bool vp_alive(const void *) {
	return true;
}
uint64_t vp_live_heap() {
	return 0;
}
}

static int run_one(void (*fn)()) {
	fn();
	return 0;
}

extern "C" const char *__asan_default_options() {
	return "detect_leaks=0:exitcode=1:allocator_may_return_null=1:max_allocation_size_mb=1024";
}
extern "C" const char *__tsan_default_options() {
	return "exitcode=1:halt_on_error=1";
}
extern "C" const char *__ubsan_default_options() {
	return "print_stacktrace=0:halt_on_error=1";
}

int main(int argc, char **argv) {
	if (argc < 3)
		return 2;
	std::string mode = argv[1];
	if (mode == "list") {
		for (auto &[n, f] : reg())
			puts(n.c_str());
		return 0;
	}
	auto it = reg().find(argv[2]);
	if (it == reg().end()) {
		fprintf(stderr, "no contract %s\n", argv[2]);
		return 2;
	}
	if (mode == "replay") {
		FILE *f = fopen(argv[3], "r");
		if (!f)
			return 2;
		char line[1 << 16];
		while (fgets(line, sizeof line, f)) {
			unsigned n;
			unsigned long long v;
			static char hex[1 << 16];
			if (sscanf(line, "bits %u %llu", &n, &v) == 2)
				vals.push_back({false, v, {}});
			else if (sscanf(line, "buf %llu %65000s", &v, hex) >= 1) {
				Val x{true, v, {}};
				for (unsigned long long i = 0; i < v && hex[2 * i]; i++) {
					unsigned b;
					if (sscanf(hex + 2 * i, "%2x", &b) != 1)
						break;
					x.bytes.push_back(b);
				}
				vals.push_back(x);
			}
		}
		fclose(f);
		alarm(20);
		run_one(it->second);
		return 0;
	}
	if (mode == "random") {
		uint64_t seed = strtoull(argv[3], nullptr, 10);
		long total = atol(argv[4]);
		double secs = argc > 6 ? atof(argv[6]) : 10;
		const char *path = argv[5];
		// batches in child processes: a child runs until a precondition fails or a clause fails
		struct Shared {
			long ran, ok, skipped;
		};
		auto *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		time_t t0 = time(nullptr);
		long k = 0;
		while (k < total && difftime(time(nullptr), t0) < secs) {
			long start = k;
			sh->ran = 0;
			pid_t pid = fork();
			if (pid == 0) {
				random_mode = true;
				freopen("/dev/null", "w", stderr);
				for (long j = start; j < total; j++) {
					rs = seed * 0x100000001B3ull + (uint64_t)j * 0x9E3779B97F4A7C15ull;
					sh->ran = j - start;
					alarm(10);
					it->second();
					sh->ok++;
					if ((j & 255) == 0 && difftime(time(nullptr), t0) >= secs)
						break;
				}
				sh->ran = total;
				stop(0);
			}
			int st;
			waitpid(pid, &st, 0);
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
				break;
			k = start + sh->ran;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
				sh->skipped++;
				k++;
				continue;
			}
			// rerun this one with logging
			pid = fork();
			if (pid == 0) {
				random_mode = true;
				out = fopen(path, "w");
				setvbuf(out, nullptr, _IONBF, 0);
				rs = seed * 0x100000001B3ull + (uint64_t)k * 0x9E3779B97F4A7C15ull;
				alarm(10);
				it->second();
				stop(0);
			}
			waitpid(pid, &st, 0);
			printf("ran %ld skipped %ld FAILED\n", sh->ok, sh->skipped);
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
				return 2;
			return 1;
		}
		printf("ran %ld skipped %ld\n", sh->ok, sh->skipped);
		return 0;
	}
	return 2;
}

void vp::vp_lazy(unsigned id, void (*unfold)(uint64_t), bool upwards) {
	lazy[id] = {unfold, upwards};
	table[id].clear();
}
