// C31: performance counters under a simulated kernel.
#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <linux/perf_event.h>
#include <map>
#include <math.h>
#include <set>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
extern "C" {
void sc_perf_start(void);
void sc_perf_pause(void);
void sc_perf_end(void);
}
using namespace pbt;

const HarnessInfo harness_info = {
	"1..3 measurements per case, each a history of start / work / pause / redundant start and pause / end under a simulated kernel: work "
	"advances the clock by 0..10^14 ns and each enabled counter by a random amount; multiplexing shares 0..100 % per counter; 1 of 15 cases "
	"ends in a failing open, enable, disable, read, clock or a misuse, in a child process. Non-trivial: a counter ran for part of the time "
	"or the measurement was paused."};

// ---- the simulated kernel ----------------------------------------------------
struct Counter {
	uint32_t type;
	uint64_t config, read_format;
	bool enabled, open, user, kernel, hv, child;
	double share;
	uint64_t value, en, run;
	uint64_t want; // events while the measurement ran
};
static std::map<int, Counter> counters;
static int next_fd;
static uint64_t clk;
static int fail_open_at, fail_prctl, fail_read_at, short_read, fail_clock, opened, prctls, reads;
static std::string problem;
static Case *C;

static const int FD0 = 5000;
static bool measuring;

extern "C" {
long __wrap_syscall(long nr, ...)
{
	va_list va;
	va_start(va, nr);
	struct perf_event_attr *a = va_arg(va, struct perf_event_attr *);
	int pid = va_arg(va, int), cpu = va_arg(va, int), group = va_arg(va, int);
	va_end(va);
	if (nr != SYS_perf_event_open) { errno = ENOSYS; return -1; }
	if (fail_open_at >= 0 && opened++ == fail_open_at) { errno = ENOENT; return -1; }
	if (a->size != sizeof *a && a->size != 0 && (a->size < PERF_ATTR_SIZE_VER0 || a->size > 4096)) { errno = E2BIG; return -1; }
	if (pid != 0 || cpu != -1) problem = "a counter is not opened for this task on any CPU";
	if (group != -1) { errno = EBADF; return -1; } // descriptors of other counters only
	Counter k;
	k.type = a->type;
	k.config = a->config;
	k.read_format = a->read_format;
	k.enabled = !a->disabled;
	k.open = true;
	k.user = !a->exclude_user;
	k.kernel = !a->exclude_kernel;
	k.hv = !a->exclude_hv;
	k.child = a->inherit;
	k.value = k.en = k.run = k.want = 0;
	switch (C->weighted({3, 3, 1, 1})) {
	case 0: k.share = 1; break;
	case 1: k.share = (double) (1 + C->draw(999)) / 1000; break;
	case 2: k.share = 0; break;
	default: k.share = 1e-6 * (double) (1 + C->draw(1000)); break;
	}
	for (auto &x : counters) if (x.second.open && x.second.enabled && !measuring) x.second.value += 999; // setup of the measurement itself
	int fd = next_fd++;
	counters[fd] = k;
	return fd;
}
int __wrap_prctl(int op, ...)
{
	if (op != PR_TASK_PERF_EVENTS_ENABLE && op != PR_TASK_PERF_EVENTS_DISABLE) { errno = EINVAL; return -1; }
	if (fail_prctl >= 0 && prctls++ == fail_prctl) { errno = EPERM; return -1; }
	for (auto &x : counters) x.second.enabled = op == PR_TASK_PERF_EVENTS_ENABLE;
	return 0;
}
int __real_ioctl(int, unsigned long, void *);
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	auto it = counters.find(fd);
	if (fd < FD0) return __real_read(fd, b, n);
	if (it == counters.end() || !it->second.open) { problem = "a descriptor that is not open is read"; errno = EBADF; return -1; }
	if (fail_read_at >= 0 && reads++ == fail_read_at) {
		if (short_read) return short_read == 1 ? 0 : 8;
		errno = EIO;
		return -1;
	}
	Counter &k = it->second;
	uint64_t out[3];
	size_t m = 0;
	out[m++] = k.value;
	if (k.read_format & PERF_FORMAT_TOTAL_TIME_ENABLED) out[m++] = k.en;
	if (k.read_format & PERF_FORMAT_TOTAL_TIME_RUNNING) out[m++] = k.run;
	if (n < m * 8) { errno = ENOSPC; return -1; }
	memcpy(b, out, m * 8);
	return (ssize_t) (m * 8);
}
int __real_close(int);
int __wrap_close(int fd)
{
	if (fd < FD0) return __real_close(fd);
	auto it = counters.find(fd);
	if (it == counters.end() || !it->second.open) { problem = "a descriptor that is not open is closed"; errno = EBADF; return -1; }
	it->second.open = false;
	return 0;
}
int __real_clock_gettime(clockid_t, struct timespec *);
static bool use_clk;
int __wrap_clock_gettime(clockid_t id, struct timespec *t)
{
	if (!use_clk) return __real_clock_gettime(id, t);
	if (fail_clock) { errno = EINVAL; return -1; }
	uint64_t v = id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME ? clk : 123456789 * (uint64_t) id;
	t->tv_sec = (time_t) (v / 1000000000u);
	t->tv_nsec = (long) (v % 1000000000u);
	return 0;
}
}

#define HC(c, o, r) (PERF_COUNT_HW_CACHE_##c | PERF_COUNT_HW_CACHE_OP_##o << 8 | PERF_COUNT_HW_CACHE_RESULT_##r << 16)
static const struct { const char *name; uint32_t type; uint64_t config; } NAMES[] = {
	{"cpu-clock", PERF_TYPE_SOFTWARE, PERF_COUNT_SW_CPU_CLOCK}, {"task-clock", PERF_TYPE_SOFTWARE, PERF_COUNT_SW_TASK_CLOCK},
	{"page-faults", PERF_TYPE_SOFTWARE, PERF_COUNT_SW_PAGE_FAULTS}, {"context-switches", PERF_TYPE_SOFTWARE, PERF_COUNT_SW_CONTEXT_SWITCHES},
	{"cpu-migrations", PERF_TYPE_SOFTWARE, PERF_COUNT_SW_CPU_MIGRATIONS}, {"page-fault-minor", PERF_TYPE_SOFTWARE, PERF_COUNT_SW_PAGE_FAULTS_MIN},
	{"page-fault-major", PERF_TYPE_SOFTWARE, PERF_COUNT_SW_PAGE_FAULTS_MAJ}, {"alignment-faults", PERF_TYPE_SOFTWARE, PERF_COUNT_SW_ALIGNMENT_FAULTS},
	{"emulation-faults", PERF_TYPE_SOFTWARE, PERF_COUNT_SW_EMULATION_FAULTS}, {"cpu-cycles", PERF_TYPE_HARDWARE, PERF_COUNT_HW_CPU_CYCLES},
	{"instructions", PERF_TYPE_HARDWARE, PERF_COUNT_HW_INSTRUCTIONS}, {"cache-references", PERF_TYPE_HARDWARE, PERF_COUNT_HW_CACHE_REFERENCES},
	{"cache-misses", PERF_TYPE_HARDWARE, PERF_COUNT_HW_CACHE_MISSES}, {"branch-instructions", PERF_TYPE_HARDWARE, PERF_COUNT_HW_BRANCH_INSTRUCTIONS},
	{"branch-misses", PERF_TYPE_HARDWARE, PERF_COUNT_HW_BRANCH_MISSES}, {"bus-cycles", PERF_TYPE_HARDWARE, PERF_COUNT_HW_BUS_CYCLES},
	{"stalled-cycles-frontend", PERF_TYPE_HARDWARE, PERF_COUNT_HW_STALLED_CYCLES_FRONTEND},
	{"stalled-cycles-backend", PERF_TYPE_HARDWARE, PERF_COUNT_HW_STALLED_CYCLES_BACKEND}, {"ref-cpu-cycles", PERF_TYPE_HARDWARE, PERF_COUNT_HW_REF_CPU_CYCLES},
	{"L1D-read-access", PERF_TYPE_HW_CACHE, HC(L1D, READ, ACCESS)}, {"L1D-read-miss", PERF_TYPE_HW_CACHE, HC(L1D, READ, MISS)},
	{"L1D-write-access", PERF_TYPE_HW_CACHE, HC(L1D, WRITE, ACCESS)}, {"L1D-write-miss", PERF_TYPE_HW_CACHE, HC(L1D, WRITE, MISS)},
	{"L1I-read-access", PERF_TYPE_HW_CACHE, HC(L1I, READ, ACCESS)}, {"L1I-read-miss", PERF_TYPE_HW_CACHE, HC(L1I, READ, MISS)},
	{"L1I-write-access", PERF_TYPE_HW_CACHE, HC(L1I, WRITE, ACCESS)}, {"L1I-write-miss", PERF_TYPE_HW_CACHE, HC(L1I, WRITE, MISS)},
	{"LL-read-access", PERF_TYPE_HW_CACHE, HC(LL, READ, ACCESS)}, {"LL-read-miss", PERF_TYPE_HW_CACHE, HC(LL, READ, MISS)},
	{"DTLB-read-miss", PERF_TYPE_HW_CACHE, HC(DTLB, READ, MISS)}, {"ITLB-read-miss", PERF_TYPE_HW_CACHE, HC(ITLB, READ, MISS)},
	{"BPU-read-miss", PERF_TYPE_HW_CACHE, HC(BPU, READ, MISS)}, {"NODE-read-miss", PERF_TYPE_HW_CACHE, HC(NODE, READ, MISS)},
};

static int out_fd = -1, err_fd = -1, real_out, real_err;
void harness_init()
{
	out_fd = memfd_create("out", MFD_CLOEXEC);
	err_fd = memfd_create("err", MFD_CLOEXEC);
	real_out = fcntl(1, F_DUPFD_CLOEXEC, 100);
	real_err = fcntl(2, F_DUPFD_CLOEXEC, 100);
}
static void clear(int fd) { if (ftruncate(fd, 0) || lseek(fd, 0, SEEK_SET)) C->error("memfd"); }
static std::string slurp(int fd)
{
	char b[16384];
	ssize_t n = pread(fd, b, sizeof b, 0);
	return std::string(b, n > 0 ? (size_t) n : 0);
}

struct Run {
	bool running = false;
	uint64_t elapsed = 0;
	unsigned periods = 0;
};

static void work(Case &c, Run &r)
{
	uint64_t dt;
	switch (c.weighted({4, 2, 1, 1})) {
	case 0: dt = c.draw(3000000000u); break;
	case 1: dt = c.draw(2000); break;
	case 2: dt = c.draw(100000000000000u); break;
	default: dt = 0; break;
	}
	clk += dt;
	if (r.running) r.elapsed += dt;
	for (auto &x : counters) {
		Counter &k = x.second;
		if (!k.open) continue;
		uint64_t inc = c.chance(1, 5) ? c.draw(1ull << 40) : c.draw(5000);
		if (k.enabled) {
			k.en += dt;
			uint64_t ran = (uint64_t) ((double) dt * k.share);
			if (k.share > 0 && k.share < 1 && !ran && dt) ran = 1;
			k.run += ran;
			if (ran || dt == 0) {
				uint64_t n = k.share < 1 ? (uint64_t) ((double) inc * k.share) : inc, q = n / 4;
				k.value += (k.user ? n - 3 * q : 0) + (k.kernel ? q : 0) + (k.hv ? q : 0) + (k.child ? q : 0);
				if (r.running) k.want += n; // everything this task and its children did
			}
		}
	}
	c.trace("work %lu ns", (unsigned long) dt);
}

static void check_report(Case &c, const std::string &out, const Run &r, const std::map<int, Counter> &cs)
{
	std::map<std::string, std::pair<double, std::string>> rows;
	size_t pos = 0;
	while (pos < out.size()) {
		size_t e = out.find('\n', pos);
		if (e == std::string::npos) e = out.size();
		std::string l = out.substr(pos, e - pos);
		pos = e + 1;
		if (l.empty() || l[0] != '|') continue;
		size_t a = l.find('|', 1), b = a == std::string::npos ? a : l.find('|', a + 1);
		REQUIRE(c, b != std::string::npos, "malformed line '%s'", l.c_str());
		auto trim = [](std::string s) {
			while (!s.empty() && s.back() == ' ') s.pop_back();
			while (!s.empty() && s[0] == ' ') s.erase(0, 1);
			return s;
		};
		std::string name = trim(l.substr(1, a - 1)), val = trim(l.substr(a + 1, b - a - 1)), share = trim(l.substr(b + 1));
		if (name == "Event") continue;
		REQUIRE(c, !rows.count(name), "'%s' is printed twice", name.c_str());
		char *end;
		double v = strtod(val.c_str(), &end);
		REQUIRE(c, !val.empty() && !*end, "'%s' has the value '%s'", name.c_str(), val.c_str());
		rows[name] = {v, share};
	}
	REQUIRE(c, rows.count("time (seconds)"), "no elapsed time is printed");
	double t = rows["time (seconds)"].first, want = (double) r.elapsed / 1e9;
	REQUIRE(c, fabs(t - want) <= 0.00501 + want * 1e-12, "the measurement ran for %.9f s, the report says %.2f", want, t);
	REQUIRE(c, rows.size() == cs.size() + 1, "%zu counters were opened, %zu are printed", cs.size(), rows.size() - 1);
	for (auto &x : cs) {
		const Counter &k = x.second;
		const char *name = nullptr;
		for (auto &n : NAMES) if (n.type == k.type && n.config == k.config) name = n.name;
		if (!name) continue;
		REQUIRE(c, rows.count(name), "the counter of '%s' was opened but no such line is printed", name);
		double scale = k.en && k.run ? (double) k.en / (double) k.run : 1;
		double v = (double) k.want * scale, got = rows[name].first;
		REQUIRE(c, fabs(got - v) <= 0.0051 + v * 1e-9, "%s: %lu events happened in %lu of %lu ns, the report says %.2f instead of %.2f", name,
			(unsigned long) k.want, (unsigned long) k.run, (unsigned long) k.en, got, v);
		double act = k.en ? (double) k.run / (double) k.en * 100 : -1, shown = -1;
		if (act >= 0) {
			REQUIRE(c, sscanf(rows[name].second.c_str(), "(%lf%%)", &shown) == 1, "%s: no share in '%s'", name, rows[name].second.c_str());
			REQUIRE(c, fabs(shown - act) <= 0.0051, "%s ran %.4f %% of the time, the report says %.2f", name, act, shown);
		}
	}
}

static void end_reset()
{
	counters.clear();
	next_fd = FD0;
	fail_open_at = fail_prctl = fail_read_at = -1;
	fail_clock = short_read = 0;
	opened = prctls = reads = 0;
}

static void measurement(Case &c, bool last_fails)
{
	Run r;
	std::string what;
	int misuse = -1;
	if (last_fails) {
		switch (c.draw(6)) {
		case 0: fail_open_at = (int) c.draw(11); what = "a refused counter"; break;
		case 1: fail_prctl = (int) c.draw(2); what = "a refused enable or disable"; break;
		case 2: fail_read_at = (int) c.draw(11); short_read = (int) c.draw(3); what = "a failing read"; break;
		case 3: misuse = 0; what = "pausing before starting"; break;
		case 4: misuse = 1; what = "ending before starting"; break;
		default: fail_clock = 1; what = "a failing clock"; break;
		}
		c.trace("%s", what.c_str());
	}
	if (misuse == 0) sc_perf_pause();
	if (misuse == 1) sc_perf_end();
	if (c.chance(1, 3)) work(c, r); // not measured
	measuring = false;
	sc_perf_start();
	measuring = true;
	r.running = true;
	c.trace("start");
	REQUIRE(c, !counters.empty(), "no counter is opened");
	std::map<int, bool> live;
	size_t steps = c.draw(c.chance(1, 50) ? 80 : 8);
	for (size_t i = 0; i < steps; i++) {
		switch (c.weighted({5, 3, 3})) {
		case 0: work(c, r); break;
		case 1: sc_perf_pause(); c.trace("pause"); r.periods += r.running; r.running = false; break;
		default: sc_perf_start(); c.trace("start"); r.running = true; break;
		}
		for (auto &x : counters) REQUIRE(c, x.second.enabled == r.running && x.second.open, "a counter is %s while the measurement is %s",
			!x.second.open ? "closed" : x.second.enabled ? "enabled" : "disabled", r.running ? "running" : "paused");
		REQUIRE(c, problem.empty(), "%s", problem.c_str());
	}
	fflush(stdout);
	clear(out_fd);
	dup2(out_fd, 1);
	std::map<int, Counter> snap = counters;
	sc_perf_end();
	fflush(stdout);
	dup2(real_out, 1);
	c.trace("end");
	REQUIRE(c, problem.empty(), "%s", problem.c_str());
	for (auto &x : counters) REQUIRE(c, !x.second.open, "a counter is left open");
	check_report(c, slurp(out_fd), r, snap);
	bool part = false;
	for (auto &x : snap) part |= x.second.run && x.second.run < x.second.en;
	if (part || r.periods) c.nontrivial();
}

void run_case(Case &c)
{
	C = &c;
	problem.clear();
	clk = 1000000000ull + c.draw(1ull << 50);
	use_clk = true;
	end_reset();
	if (c.chance(1, 15)) {
		clear(err_fd);
		clear(out_fd);
		fflush(stdout);
		fflush(stderr);
		pid_t pid = fork();
		if (pid == 0) {
			dup2(err_fd, 2);
			dup2(out_fd, 1);
			setvbuf(stderr, nullptr, _IONBF, 0);
			Case sub = c;
			measurement(sub, true);
			_exit(60);
		}
		int st;
		if (pid < 0 || waitpid(pid, &st, 0) != pid) c.error("fork");
		use_clk = false;
		std::string err = slurp(err_fd), out = slurp(out_fd);
		// the parent follows the child's first choices to know what was injected
		int what = (int) c.draw(6), a = what == 0 || what == 2 ? (int) c.draw(11) : what == 1 ? (int) c.draw(2) : 0;
		static const char *W[] = {"a refused counter", "a refused enable or disable", "a failing read", "pausing before starting", "ending before starting", "a failing clock"};
		c.trace("%s: status %x", W[what], (unsigned) st);
		bool aborted = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
		bool finished = WIFEXITED(st) && WEXITSTATUS(st) == 60;
		bool maybe = what == 1 || (what == 0 && a >= 9) || (what == 2 && a >= 9); // the injected call may not be reached
		REQUIRE(c, aborted || (maybe && finished), "%s does not end the process as a failure (status %x): %s", W[what], (unsigned) st, quote(err).c_str());
		if (aborted) {
			if (what == 0) {
				bool named = false;
				for (auto &n : NAMES) named |= err.find(n.name) != std::string::npos;
				REQUIRE(c, named, "the message for a refused counter does not name it: %s", quote(err).c_str());
			}
			if (what != 5) REQUIRE(c, !err.empty(), "%s ends the process without a message", W[what]);
			REQUIRE(c, out.find("time (seconds)") == std::string::npos, "%s: a report is printed nevertheless", W[what]);
			c.nontrivial();
		}
		return;
	}
	size_t n = 1 + c.draw(3);
	for (size_t i = 0; i < n; i++) {
		measurement(c, false);
		end_reset();
	}
	use_clk = false;
}
