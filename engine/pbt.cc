#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <ftw.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerRunDriver(int *argc, char ***argv,
				   int (*cb)(const uint8_t *, size_t));
#endif

extern "C" const char *__asan_default_options()
{
	return "detect_leaks=0:exitcode=78:allocator_may_return_null=1:"
	       "max_allocation_size_mb=4096:detect_stack_use_after_return=1:"
	       "symbolize=1:print_legend=0:hard_rss_limit_mb=0:quarantine_size_mb=32:"
	       "handle_segv=1:handle_abort=0:allow_user_segv_handler=1";
}
extern "C" const char *__ubsan_default_options()
{
	return "print_stacktrace=1:exitcode=78";
}
extern "C" const char *__tsan_default_options()
{
	return "exitcode=78:halt_on_error=1:report_signal_unsafe=0:second_deadlock_stack=1";
}

namespace pbt {

static const size_t MAXC = 1 << 16;
static const size_t SAMPLE_MAX = 4096;
static const int NLABEL = 192;

struct Slot {
	std::atomic<uint64_t> progress;
	std::atomic<uint64_t> caseno;
	uint64_t first_case; // first case this process ran
	uint32_t n;
	uint32_t overflow;
	char msg[4096];
	char kind; // 0 none, 'F' fail, 'E' harness error
	uint32_t sample_n;
	uint64_t sample[SAMPLE_MAX];
	uint64_t choices[MAXC];
};

struct Label {
	std::atomic<int> state;
	char name[48];
	std::atomic<uint64_t> n;
};

struct Shared {
	std::atomic<uint64_t> evals, nontrivial, distinct, fuzz_evals;
	Label labels[NLABEL];
};

static const size_t TBL = 1u << 23;
static std::atomic<uint64_t> *g_tbl;
static Shared *g_sh;
static Slot *g_slots;
static Slot *g_slot; // this process
static std::string g_base, g_scratch;
static int g_trace_fd = -1;
static unsigned g_samples_seen;

static uint64_t mix64(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}

static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

static uint64_t rng_next(uint64_t *s)
{
	uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
	s[2] ^= s[0];
	s[3] ^= s[1];
	s[1] ^= s[2];
	s[0] ^= s[3];
	s[2] ^= t;
	s[3] = rotl(s[3], 45);
	return r;
}

void Case::begin()
{
	is_nontrivial = false;
	in_pos = data_pos = 0;
	g_slot->n = 0;
	g_slot->overflow = 0;
}

uint64_t Case::draw(uint64_t n)
{
	uint64_t v;

	if (g_slot->n >= MAXC) {
		g_slot->overflow = 1;
		return 0;
	}
	if (n == 1) {
		return 0;
	}
	switch (mode) {
	case Mode::Rng:
		v = rng_next(s);
		if (n) v = (uint64_t)(((unsigned __int128) v * n) >> 64);
		break;
	case Mode::Replay:
		v = in_pos < in_len ? in[in_pos++] : 0;
		if (n && v >= n) v = n - 1;
		break;
	default: {
		int nb = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
		v = 0;
		for (int i = 0; i < nb && data_pos < data_len; i++) {
			v |= (uint64_t) data[data_pos++] << (8 * i);
		}
		if (n) v %= n;
	}
	}
	g_slot->choices[g_slot->n++] = v;
	return v;
}

int64_t Case::range(int64_t lo, int64_t hi)
{
	return lo + (int64_t) draw((uint64_t)(hi - lo) + 1);
}

uint64_t Case::urange(uint64_t lo, uint64_t hi)
{
	uint64_t w = hi - lo + 1;
	return lo + draw(w);
}

bool Case::chance(unsigned num, unsigned den)
{
	return draw(den) >= den - num;
}

size_t Case::weighted(std::initializer_list<unsigned> w)
{
	unsigned tot = 0;
	for (unsigned x : w) tot += x;
	uint64_t v = draw(tot);
	size_t i = 0;
	for (unsigned x : w) {
		if (v < x) return i;
		v -= x;
		i++;
	}
	return w.size() - 1;
}

uint64_t Case::ubits()
{
	unsigned b = (unsigned) draw(65);
	if (b == 0) return 0;
	if (b == 64) return draw(0);
	return draw(1ull << b);
}

uint64_t Case::u64()
{
	switch (weighted({4, 4, 2, 2, 1})) {
	case 0: return draw(16);
	case 1: return ubits();
	case 2: { // around a power of two
		unsigned b = (unsigned) draw(65);
		uint64_t base = b == 64 ? 0 : (1ull << b);
		return base + (uint64_t) range(-3, 3);
	}
	case 3: return UINT64_MAX - draw(16);
	default: return draw(0);
	}
}

size_t Case::size(size_t max)
{
	switch (weighted({6, 3, 1})) {
	case 0: return (size_t) draw(std::min<size_t>(max, 8) + 1);
	case 1: return (size_t) draw(std::min<size_t>(max, 64) + 1);
	default: return (size_t) draw(max + 1);
	}
}

std::string Case::bytes(size_t n)
{
	std::string r(n, 0);
	for (size_t i = 0; i < n; i++) r[i] = (char) draw(256);
	return r;
}

std::string Case::text(size_t n, const char *alphabet)
{
	size_t k = strlen(alphabet);
	std::string r(n, 0);
	for (size_t i = 0; i < n; i++) r[i] = alphabet[draw(k)];
	return r;
}

static void wr(int fd, const char *s, size_t n)
{
	while (n > 0) {
		ssize_t k = write(fd, s, n);
		if (k <= 0) {
			if (k < 0 && errno == EINTR) continue;
			break;
		}
		s += k;
		n -= (size_t) k;
	}
}

void Case::trace(const char *fmt, ...)
{
	if (!tracing) return;
	char b[4096];
	va_list va;
	va_start(va, fmt);
	int n = vsnprintf(b, sizeof b - 2, fmt, va);
	va_end(va);
	if (n < 0) return;
	if (n > (int) sizeof b - 2) n = sizeof b - 2;
	b[n++] = '\n';
	int e = errno;
	wr(g_trace_fd, b, (size_t) n);
	errno = e;
}

void Case::fail(const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	vsnprintf(g_slot->msg, sizeof g_slot->msg, fmt, va);
	va_end(va);
	g_slot->kind = 'F';
	trace("FAIL: %s", g_slot->msg);
	_exit(77);
}

void Case::error(const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	vsnprintf(g_slot->msg, sizeof g_slot->msg, fmt, va);
	va_end(va);
	g_slot->kind = 'E';
	trace("HARNESS ERROR: %s", g_slot->msg);
	_exit(79);
}

void Case::count(const char *name, uint64_t k)
{
	static thread_local struct { const char *p; Label *l; } cache[64];
	static thread_local unsigned ncache;
	for (unsigned i = 0; i < ncache; i++) {
		if (cache[i].p == name) {
			cache[i].l->n += k;
			return;
		}
	}
	for (int i = 0; i < NLABEL; i++) {
		Label &l = g_sh->labels[i];
		int z = 0;
		if (l.state.load() == 0 && l.state.compare_exchange_strong(z, 1)) {
			snprintf(l.name, sizeof l.name, "%s", name);
			l.state = 2;
		}
		for (int spin = 0; l.state.load() != 2 && spin < 100000; spin++) usleep(1);
		if (strncmp(l.name, name, sizeof l.name - 1) == 0) {
			l.n += k;
			if (ncache < 64) cache[ncache++] = {name, &l};
			return;
		}
	}
}

void Case::label(const char *name) { count(name, 1); }

std::string hex(const void *p, size_t n, size_t max)
{
	static const char *d = "0123456789abcdef";
	std::string r;
	for (size_t i = 0; i < n && i < max; i++) {
		unsigned char c = ((const unsigned char *) p)[i];
		r += d[c >> 4];
		r += d[c & 15];
	}
	if (n > max) r += "...(" + std::to_string(n) + " bytes)";
	return r;
}

std::string quote(const std::string &s, size_t max)
{
	std::string r = "\"";
	for (size_t i = 0; i < s.size() && i < max; i++) {
		unsigned char c = (unsigned char) s[i];
		char b[8];
		if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		else r += (char) c;
	}
	r += "\"";
	if (s.size() > max) r += "...(" + std::to_string(s.size()) + ")";
	return r;
}

const std::string &scratch()
{
	static pid_t owner;
	if (owner != getpid()) {
		owner = getpid();
		g_scratch = g_base + "/" + std::to_string(getpid());
		mkdir(g_scratch.c_str(), 0777);
	}
	return g_scratch;
}

// ------------------------------------------------------------------ parent

static double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (double) t.tv_sec + (double) t.tv_nsec / 1e9;
}

static void cpu_guard()
{
	struct itimerval it = {};
	it.it_value.tv_sec = harness_info.cpu_limit;
	setitimer(ITIMER_PROF, &it, nullptr);
}

static void child_setup(Slot *slot, const std::string &errfile)
{
	g_slot = slot;
	slot->kind = 0;
	slot->msg[0] = 0;
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	int fd = open("/dev/null", O_RDWR);
	dup2(fd, 0);
	dup2(fd, 1);
	if (fd > 2) close(fd);
	fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND | O_CLOEXEC, 0644);
	dup2(fd, 2);
	close(fd);
}

static void account(Case &c)
{
	g_sh->evals++;
	if (!c.is_nontrivial) return;
	g_sh->nontrivial++;
	uint64_t h = 0x1234567;
	for (uint32_t i = 0; i < g_slot->n; i++) h = mix64(h ^ g_slot->choices[i]);
	if (h == 0) h = 1;
	if (g_sh->distinct.load() < TBL / 4 * 3) {
		for (size_t i = h & (TBL - 1);; i = (i + 1) & (TBL - 1)) {
			uint64_t z = 0;
			uint64_t cur = g_tbl[i].load();
			if (cur == h) break;
			if (cur == 0) {
				if (g_tbl[i].compare_exchange_strong(z, h)) {
					g_sh->distinct++;
					break;
				}
				if (z == h) break;
			}
		}
	}
	// sample: keep the 8th small enough non-trivial case of each worker
	if (g_slot->n <= SAMPLE_MAX && g_samples_seen < 8) {
		g_samples_seen++;
		memcpy(g_slot->sample, g_slot->choices, g_slot->n * sizeof(uint64_t));
		g_slot->sample_n = g_slot->n;
	}
}

static void seed_case(Case &c, uint64_t seed, uint64_t i)
{
	uint64_t x = mix64(seed ^ 0xabcdef) ^ mix64(i + 77);
	for (int k = 0; k < 4; k++) c.s[k] = x = mix64(x + (uint64_t) k);
}

[[noreturn]] static void worker_rng(int w, int step, uint64_t from, uint64_t cases,
				    uint64_t seed, double deadline)
{
	Case c;
	if (harness_init) harness_init();
	g_slot->first_case = from;
	(void) w;
	for (uint64_t i = from; i < cases; i += (uint64_t) step) {
		g_slot->caseno = i;
		g_slot->progress++;
		if (now() > deadline) break;
		c.begin();
		c.mode = Mode::Rng;
		seed_case(c, seed, i);
		cpu_guard();
		run_case(c);
		account(c);
		if ((g_slot->progress & 1023) == 0 && ftruncate(2, 0)) {}
	}
	_exit(0);
}

#ifdef PBT_FUZZ
static double g_deadline;
static int fuzz_one(const uint8_t *data, size_t size)
{
	Case c;
	if (now() > g_deadline) _exit(0);
	g_slot->progress++;
	c.begin();
	c.mode = Mode::Bytes;
	c.data = data;
	c.data_len = size;
	cpu_guard();
	run_case(c);
	g_sh->fuzz_evals++;
	account(c);
	if ((g_slot->progress & 1023) == 0 && ftruncate(2, 0)) {}
	return 0;
}

[[noreturn]] static void worker_fuzz(int w, uint64_t runs, uint64_t seed, double deadline)
{
	std::string dir = scratch() + "/corpus";
	mkdir(dir.c_str(), 0777);
	uint64_t s[4], x = mix64(seed + 1000 + (uint64_t) w);
	for (int k = 0; k < 4; k++) s[k] = x = mix64(x);
	for (int i = 0; i < 24; i++) {
		std::string p = dir + "/" + std::to_string(i);
		size_t n = 16u << (rng_next(s) % 8);
		std::string b(n, 0);
		for (auto &ch : b) ch = (char) rng_next(s);
		int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0644);
		wr(fd, b.data(), n);
		close(fd);
	}
	if (harness_init) harness_init();
	g_deadline = deadline;
	g_slot->caseno = UINT64_MAX;
	std::vector<std::string> a = {"fuzz", "-runs=" + std::to_string(runs),
		"-seed=" + std::to_string(mix64(seed + (uint64_t) w) % 1000000007 + 1),
		"-max_len=4096", "-use_value_profile=1", "-rss_limit_mb=0", "-malloc_limit_mb=0",
		"-timeout=100000", "-detect_leaks=0", "-exact_artifact_path=/dev/null",
		"-handle_abrt=0", "-handle_segv=0", "-handle_bus=0", "-handle_ill=0",
		"-handle_fpe=0", "-handle_int=0", "-handle_term=0", "-handle_xfsz=0",
		"-handle_usr1=0", "-handle_usr2=0", "-verbosity=0", "-reload=0", "-len_control=20", dir};
	std::vector<char *> av;
	for (auto &t : a) av.push_back((char *) t.c_str());
	av.push_back(nullptr);
	int ac = (int) a.size();
	char **pv = av.data();
	LLVMFuzzerRunDriver(&ac, &pv, fuzz_one);
	_exit(0);
}
#endif

struct Result {
	char kind; // 'O' ok, 'F' oracle failure, 'C' crash, 'H' hang, 'E' harness error
	std::string msg;
	std::vector<uint64_t> used;
};

static std::string slurp(const std::string &f, size_t max)
{
	std::string r;
	FILE *fp = fopen(f.c_str(), "r");
	if (!fp) return r;
	char b[4096];
	size_t n;
	while (r.size() < max && (n = fread(b, 1, sizeof b, fp)) > 0) r.append(b, n);
	fclose(fp);
	if (r.size() > max) r.resize(max);
	return r;
}

static std::string crash_summary(const std::string &err, int st)
{
	std::string r;
	size_t p = err.find("ERROR: AddressSanitizer");
	if (p == std::string::npos) p = err.find("runtime error:");
	if (p == std::string::npos) p = err.find("WARNING: ThreadSanitizer");
	if (p == std::string::npos) p = err.find("Assertion");
	if (p != std::string::npos) {
		size_t b = err.rfind('\n', p);
		b = b == std::string::npos ? 0 : b + 1;
		r = err.substr(b, err.find('\n', p) - b);
	} else if (WIFSIGNALED(st)) {
		r = "killed by signal " + std::to_string(WTERMSIG(st));
	} else {
		r = "exited with status " + std::to_string(WEXITSTATUS(st));
	}
	return r;
}

static Result classify(Slot *slot, int st, bool killed, const std::string &errfile)
{
	Result r;
	r.used.assign(slot->choices, slot->choices + slot->n);
	if (killed) {
		r.kind = 'H';
		r.msg = "case does not finish (blocked)";
	} else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
		r.kind = 'O';
	} else if (slot->kind == 'F' && WIFEXITED(st) && WEXITSTATUS(st) == 77) {
		r.kind = 'F';
		r.msg = slot->msg;
	} else if (slot->kind == 'E' && WIFEXITED(st) && WEXITSTATUS(st) == 79) {
		r.kind = 'E';
		r.msg = slot->msg;
	} else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) {
		r.kind = 'H';
		r.msg = "case does not finish (endless computation)";
	} else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
		r.kind = 'E'; // killed from outside (e.g. memory pressure)
		r.msg = "worker was killed";
	} else {
		r.kind = 'C';
		r.msg = crash_summary(slurp(errfile, 1 << 16), st);
	}
	return r;
}

static void rm_tree(const std::string &d)
{
	if (d.compare(0, 5, "/tmp/") != 0 || d.size() < 10) return;
	nftw(d.c_str(), [](const char *p, const struct stat *, int, struct FTW *) {
		return remove(p);
	}, 16, FTW_DEPTH | FTW_PHYS);
}

// run one child to completion under the wall limit
template <class F> static Result run_child(Slot *slot, double wall, F body, std::string *err = nullptr)
{
	std::string errfile = g_base + "/replay.err";
	slot->n = 0;
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		child_setup(slot, errfile);
		setpgid(0, 0);
		body();
		_exit(0);
	}
	setpgid(pid, pid);
	double t0 = now();
	int st = 0;
	bool killed = false;
	unsigned us = 200;
	while (waitpid(pid, &st, WNOHANG) == 0) {
		if (now() - t0 > wall) {
			kill(-pid, SIGKILL);
			kill(pid, SIGKILL);
			waitpid(pid, &st, 0);
			killed = true;
			break;
		}
		usleep(us);
		if (us < 5000) us += us / 4;
	}
	kill(-pid, SIGKILL); // stray grandchildren
	Result r = classify(slot, st, killed, errfile);
	if (err) *err = slurp(errfile, 12000);
	rm_tree(g_base + "/" + std::to_string(pid));
	return r;
}

static Result run_choices(const std::vector<uint64_t> &ch, int trace_fd = -1, std::string *err = nullptr,
			  double wall = 0)
{
	Slot *slot = &g_slots[0];
	return run_child(slot, wall > 0 ? wall : harness_info.wall_limit, [&] {
		Case c;
		if (harness_init) harness_init();
		c.begin();
		c.mode = Mode::Replay;
		c.in = ch.data();
		c.in_len = ch.size();
		if (trace_fd >= 0) {
			c.tracing = true;
			g_trace_fd = trace_fd;
		}
		cpu_guard();
		run_case(c);
		if (c.is_nontrivial) c.trace("(non-trivial)");
	}, err);
}

static std::string traced(const std::vector<uint64_t> &ch, size_t max)
{
	std::string f = g_base + "/trace";
	int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND | O_CLOEXEC, 0644);
	run_choices(ch, fd);
	close(fd);
	std::string s = slurp(f, 1 << 22);
	if (s.size() > max) {
		s = s.substr(0, max * 2 / 3) + "\n...\n" + s.substr(s.size() - max / 3);
	}
	return s;
}

static bool same_class(const Result &a, const Result &b)
{
	if (b.kind == 'O' || b.kind == 'E') return false;
	return a.kind == b.kind;
}

static Result shrink(std::vector<uint64_t> ch, Result best, double budget)
{
	double t0 = now();
	double wall = std::min<double>(harness_info.wall_limit, 20);
	best.used = ch;
	unsigned trials = 0;
	auto attempt = [&](const std::vector<uint64_t> &cand) {
		if (now() - t0 > budget || trials > 4000) return false;
		trials++;
		Result r = run_choices(cand, -1, nullptr, wall);
		if (!same_class(best, r)) return false;
		if (r.used.size() > cand.size()) r.used.resize(cand.size());
		// keep whichever is smaller
		if (r.used.size() < best.used.size() ||
		    (r.used.size() == best.used.size() && r.used < best.used)) {
			best = r;
			return true;
		}
		return false;
	};
	attempt(ch);
	bool progress = true;
	while (progress && now() - t0 < budget && trials < 4000) {
		progress = false;
		for (size_t len : {64, 32, 16, 8, 5, 4, 3, 2, 1}) {
			for (size_t i = best.used.size(); i-- > 0;) {
				if (i + len > best.used.size()) continue;
				std::vector<uint64_t> c = best.used;
				c.erase(c.begin() + (long) i, c.begin() + (long) (i + len));
				if (attempt(c)) progress = true;
				// also: delete and decrement an earlier count
				else if (len <= 5 && i > 0 && best.used[i - 1] > 0) {
					c = best.used;
					c[i - 1]--;
					c.erase(c.begin() + (long) i, c.begin() + (long) (i + len));
					if (attempt(c)) progress = true;
				}
				if (now() - t0 > budget) goto out;
				if (len > 8) i = i > len / 2 ? i - len / 2 : 0;
			}
		}
		for (size_t i = 0; i < best.used.size(); i++) {
			if (best.used[i] == 0) continue;
			std::vector<uint64_t> c = best.used;
			c[i] = 0;
			if (attempt(c)) { progress = true; continue; }
			uint64_t lo = 0;
			while (i < best.used.size() && best.used[i] > lo + 1) {
				uint64_t mid = lo + (best.used[i] - lo) / 2;
				c = best.used;
				c[i] = mid;
				if (attempt(c)) progress = true;
				else lo = mid;
				if (now() - t0 > budget) goto out;
			}
		}
	}
out:
	return best;
}

static std::string json_escape(const std::string &s)
{
	std::string r;
	for (unsigned char c : s) {
		char b[8];
		if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
		else if (c == '\n') r += "\\n";
		else if (c == '\t') r += "\\t";
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += (char) c;
	}
	return r;
}

// text with every byte outside of printable ASCII (and newline, tab) written as \xNN
static std::string plain(const std::string &s)
{
	std::string r;
	for (unsigned char c : s) {
		char b[8];
		if (c == '\n' || c == '\t' || (c >= 32 && c <= 126)) r += (char) c;
		else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
	}
	return r;
}

struct Options {
	std::string prop = "C00", bin = "h", out, replay_dir = ".", replay;
	uint64_t cases = 1000, seed = 1, fuzz_runs = 0;
	int workers = 8;
	double deadline = 600, shrink_s = 40;
	uint64_t from = 0, step = 1, upto = 0;
};

static std::string g_cleanup;
static pid_t g_parent;
static void cleanup()
{
	if (!g_cleanup.empty() && getpid() == g_parent) rm_tree(g_cleanup);
}
static void on_term(int)
{
	cleanup();
	_exit(2);
}

static void write_replay(const Options &o, const std::string &path, const Result &r, const std::string &extra,
			 const std::string &trace, const std::string &err)
{
	FILE *f = fopen(path.c_str(), "w");
	if (!f) return;
	fprintf(f, "property %s\nharness %s\n%s", o.prop.c_str(), o.bin.c_str(), extra.c_str());
	fprintf(f, "choices");
	for (uint64_t v : r.used) fprintf(f, " %llu", (unsigned long long) v);
	fprintf(f, "\n# failure: %s\n", plain(r.msg).c_str());
	std::string all = "case:\n" + trace + "\nstderr:\n" + err;
	size_t p = 0;
	while (p < all.size()) {
		size_t e = all.find('\n', p);
		if (e == std::string::npos) e = all.size();
		fprintf(f, "# %s\n", plain(all.substr(p, e - p)).c_str());
		p = e + 1;
	}
	fclose(f);
}

static bool read_replay(const std::string &path, std::vector<uint64_t> &ch, Options &o, bool &ranged)
{
	std::string s = slurp(path, 1 << 26);
	if (s.empty()) return false;
	ranged = false;
	size_t p = 0;
	while (p < s.size()) {
		size_t e = s.find('\n', p);
		if (e == std::string::npos) e = s.size();
		std::string l = s.substr(p, e - p);
		p = e + 1;
		if (l.compare(0, 7, "choices") == 0) {
			const char *q = l.c_str() + 7;
			char *end;
			for (;;) {
				unsigned long long v = strtoull(q, &end, 10);
				if (end == q) break;
				ch.push_back(v);
				q = end;
			}
		} else if (l.compare(0, 5, "range") == 0) {
			unsigned long long a, b, c, d;
			if (sscanf(l.c_str(), "range seed=%llu from=%llu step=%llu upto=%llu", &a, &b, &c, &d) == 4) {
				ranged = true;
				o.seed = a;
				o.from = b;
				o.step = c;
				o.upto = d;
			}
		}
	}
	return true;
}

static Result run_range(const Options &o)
{
	Slot *slot = &g_slots[0];
	return run_child(slot, 600, [&] {
		g_slot = slot;
		worker_rng(0, (int) o.step, o.from, o.upto + 1, o.seed, now() + 1e6);
	});
}

} // namespace pbt

using namespace pbt;

int main(int argc, char **argv)
{
	Options o;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--prop") o.prop = v;
		else if (k == "--bin") o.bin = v;
		else if (k == "--out") o.out = v;
		else if (k == "--replay-dir") o.replay_dir = v;
		else if (k == "--replay") o.replay = v;
		else if (k == "--cases") o.cases = strtoull(v.c_str(), nullptr, 10);
		else if (k == "--seed") o.seed = strtoull(v.c_str(), nullptr, 10);
		else if (k == "--fuzz-runs") o.fuzz_runs = strtoull(v.c_str(), nullptr, 10);
		else if (k == "--workers") o.workers = atoi(v.c_str());
		else if (k == "--deadline") o.deadline = atof(v.c_str());
		else if (k == "--shrink") o.shrink_s = atof(v.c_str());
	}
	if (o.workers < 1) o.workers = 1;
	size_t nslots = (size_t) o.workers + 1;
	auto shm = [](size_t n) {
		void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) {
			perror("mmap");
			exit(2);
		}
		return p;
	};
	g_slots = (Slot *) shm(sizeof(Slot) * nslots);
	g_sh = (Shared *) shm(sizeof(Shared));
	g_tbl = (std::atomic<uint64_t> *) shm(sizeof(uint64_t) * TBL);
	char tmpl[] = "/tmp/pbt.XXXXXX";
	if (!mkdtemp(tmpl)) {
		perror("mkdtemp");
		return 2;
	}
	g_base = tmpl;
	chmod(tmpl, 0755);
	g_cleanup = tmpl;
	g_parent = getpid();
	signal(SIGTERM, on_term);
	signal(SIGINT, on_term);
	signal(SIGPIPE, SIG_IGN);
	atexit(cleanup);

	// make case seeds differ between properties
	uint64_t ps = o.seed;
	for (char ch : o.prop + "/" + o.bin) ps = mix64(ps ^ (uint64_t) (unsigned char) ch);

	if (!o.replay.empty()) {
		std::vector<uint64_t> ch;
		bool ranged;
		if (!read_replay(o.replay, ch, o, ranged)) {
			fprintf(stderr, "cannot read %s\n", o.replay.c_str());
			return 2;
		}
		Result r;
		for (int k = 0; k < (harness_info.racy ? 50 : 1); k++) {
			if (ranged) {
				r = run_range(o);
			} else {
				std::string err;
				r = run_choices(ch, harness_info.racy && k ? -1 : 1, &err);
				if (!err.empty() && r.kind != 'O') printf("%s\n", plain(err).c_str());
			}
			if (r.kind != 'O') break;
		}
		if (r.kind == 'O') {
			printf("replay: property %s holds on this case\n", o.prop.c_str());
			return 0;
		}
		printf("replay: %s\n", plain(r.msg).c_str());
		if (r.kind == 'E') return 2;
		printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), o.replay.c_str());
		return 1;
	}

	double t0 = now(), deadline = t0 + o.deadline;
	struct W {
		pid_t pid = -1;
		uint64_t progress = 0;
		double since = 0;
		bool fuzz = false;
		uint64_t from = 0;
	};
	std::vector<W> ws((size_t) o.workers);
	unsigned unconfirmed = 0, harness_errors = 0;
	std::string unconfirmed_msg, error_msg;
	bool violated = false;
	std::string violation_path, violation_msg;

	auto errfile = [&](size_t w) { return g_base + "/w" + std::to_string(w) + ".err"; };
	auto spawn = [&](size_t w, bool fuzz, uint64_t from) {
		W &x = ws[w];
		Slot *slot = &g_slots[w + 1];
		slot->n = 0;
		x.fuzz = fuzz;
		x.from = from;
		x.progress = slot->progress;
		x.since = now();
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			child_setup(slot, errfile(w));
			setpgid(0, 0);
#ifdef PBT_FUZZ
			if (fuzz) worker_fuzz((int) w, o.fuzz_runs, ps + from * 7919, deadline);
#endif
			worker_rng((int) w, o.workers, from, o.cases, ps, deadline);
		}
		setpgid(pid, pid);
		x.pid = pid;
	};
	for (int phase = 0; phase < 2 && !violated; phase++) {
		bool fuzz = phase == 1;
#ifdef PBT_FUZZ
		if (fuzz && o.fuzz_runs == 0) break;
#else
		if (fuzz) break;
#endif
		size_t running = 0;
		for (size_t w = 0; w < ws.size(); w++) {
			spawn(w, fuzz, fuzz ? 0 : w);
			running++;
		}
		while (running > 0 && !violated) {
			bool any = false;
			for (size_t w = 0; w < ws.size() && !violated; w++) {
				W &x = ws[w];
				if (x.pid < 0) continue;
				Slot *slot = &g_slots[w + 1];
				int st = 0;
				bool killed = false;
				pid_t rc = waitpid(x.pid, &st, WNOHANG);
				if (rc == 0) {
					uint64_t pr = slot->progress;
					if (pr != x.progress) {
						x.progress = pr;
						x.since = now();
					} else if (now() - x.since > harness_info.wall_limit + (fuzz ? 60 : 0)) {
						kill(-x.pid, SIGKILL);
						kill(x.pid, SIGKILL);
						waitpid(x.pid, &st, 0);
						killed = true;
					}
					if (!killed) continue;
				}
				any = true;
				kill(-x.pid, SIGKILL);
				rm_tree(g_base + "/" + std::to_string(x.pid));
				Result r = classify(slot, st, killed, errfile(w));
				x.pid = -1;
				running--;
				if (r.kind == 'O') continue;
				uint64_t at = slot->caseno;
				std::string first_err = slurp(errfile(w), 12000);
				if (r.kind == 'E') {
					harness_errors++;
					error_msg = r.msg;
				} else {
					// confirm
					unsigned hits = 0, tries = harness_info.racy ? 40 : 3;
					unsigned need = harness_info.racy ? 1 : 3;
					if (r.kind == 'H') tries = 2, need = 2;
					Result rep = r;
					double cw = r.kind == 'H' ? 0 : 0;
					for (unsigned k = 0; k < tries && hits < need; k++) {
						Result q = run_choices(r.used, -1, nullptr, cw);
						if (q.kind != 'O' && q.kind != 'E') {
							hits++;
							rep = q;
						}
						if (!harness_info.racy && q.kind == 'O') break;
					}
					bool ranged = false;
					if (hits < need && !fuzz && !harness_info.racy) {
						// the failure may need the history of this process
						Options ro = o;
						ro.seed = ps;
						ro.from = x.from;
						ro.step = (uint64_t) o.workers;
						ro.upto = at;
						unsigned h2 = 0;
						for (int k = 0; k < 3; k++) {
							Result q = run_range(ro);
							if (q.kind == 'O' || q.kind == 'E') break;
							h2++;
						}
						if (h2 == 3) {
							ranged = true;
							hits = need;
						}
					}
					if (hits >= need) {
						violated = true;
						violation_msg = rep.msg;
						std::string err, tr, extra;
						if (!ranged) {
							if (!harness_info.racy && rep.kind != 'H') {
								rep.used = r.used;
								rep = shrink(r.used, rep, o.shrink_s);
							} else {
								rep.used = r.used;
							}
							tr = traced(rep.used, 20000);
							if (!harness_info.racy) run_choices(rep.used, -1, &err);
							else err = first_err;
							violation_msg = rep.msg;
						} else {
							char b[256];
							snprintf(b, sizeof b, "range seed=%llu from=%llu step=%d upto=%llu\n",
								 (unsigned long long) ps, (unsigned long long) x.from,
								 o.workers, (unsigned long long) at);
							extra = b;
							rep = r;
							err = first_err;
						}
						uint64_t h = 1;
						for (uint64_t v : rep.used) h = mix64(h ^ v);
						char nm[128];
						snprintf(nm, sizeof nm, "/%s-%s-%08llx.replay", o.prop.c_str(), o.bin.c_str(),
							 (unsigned long long) (h & 0xffffffff));
						violation_path = o.replay_dir + nm;
						write_replay(o, violation_path, rep, extra, tr, err);
						break;
					}
					unconfirmed++;
					unconfirmed_msg = r.msg;
				}
				// continue after the case in question
				if (harness_errors + unconfirmed < 40 && now() < deadline) {
					if (!fuzz && at + (uint64_t) o.workers < o.cases) {
						spawn(w, false, at + (uint64_t) o.workers);
						running++;
					} else if (fuzz) {
						spawn(w, true, x.from + 1);
						running++;
					}
				}
			}
			if (!any) usleep(5000);
		}
		for (auto &x : ws) {
			if (x.pid > 0) {
				kill(-x.pid, SIGKILL);
				kill(x.pid, SIGKILL);
				waitpid(x.pid, nullptr, 0);
				rm_tree(g_base + "/" + std::to_string(x.pid));
				x.pid = -1;
			}
		}
	}
	double wall = now() - t0;
	// samples
	std::string samples;
	unsigned ns = 0;
	if (!violated) {
		for (size_t w = 0; w < ws.size() && ns < 3; w++) {
			Slot *s = &g_slots[w + 1];
			if (!s->sample_n) continue;
			std::vector<uint64_t> ch(s->sample, s->sample + s->sample_n);
			std::string t = traced(ch, 1800);
			if (ns++) samples += ",";
			samples += "\"" + json_escape(t) + "\"";
		}
	}
	if (!o.out.empty()) {
		FILE *f = fopen(o.out.c_str(), "w");
		if (f) {
			fprintf(f, "{\"bin\":\"%s\",\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,"
				   "\"fuzz_evaluations\":%llu,\"wall_s\":%.2f,\"unconfirmed\":%u,\"unconfirmed_msg\":\"%s\","
				   "\"harness_errors\":%u,\"error_msg\":\"%s\",\"violated\":%s,\"replay\":\"%s\",\"message\":\"%s\",\"rule\":\"%s\",\"classes\":{",
				o.bin.c_str(), (unsigned long long) g_sh->evals, (unsigned long long) g_sh->nontrivial,
				(unsigned long long) g_sh->distinct, (unsigned long long) g_sh->fuzz_evals, wall, unconfirmed,
				json_escape(unconfirmed_msg).c_str(), harness_errors, json_escape(error_msg).c_str(),
				violated ? "true" : "false", violation_path.c_str(), json_escape(violation_msg).c_str(),
				json_escape(harness_info.rule).c_str());
			bool first = true;
			for (int i = 0; i < NLABEL; i++) {
				if (g_sh->labels[i].state != 2) continue;
				fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(g_sh->labels[i].name).c_str(),
					(unsigned long long) g_sh->labels[i].n);
				first = false;
			}
			fprintf(f, "},\"samples\":[%s]}\n", samples.c_str());
			fclose(f);
		}
	}
	if (violated) {
		printf("%s/%s: %s\n", o.prop.c_str(), o.bin.c_str(), plain(violation_msg).c_str());
		printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), violation_path.c_str());
		return 1;
	}
	printf("%s/%s: %llu cases, %llu distinct non-trivial, %.1fs%s\n", o.prop.c_str(), o.bin.c_str(),
	       (unsigned long long) g_sh->evals, (unsigned long long) g_sh->distinct, wall,
	       unconfirmed ? " (unconfirmed failures, see evidence)" : "");
	if (harness_errors >= 40 || g_sh->evals == 0) {
		printf("harness error: %s\n", plain(error_msg).c_str());
		return 2;
	}
	return 0;
}
