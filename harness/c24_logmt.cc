// C24: several threads log while a controller changes sinks and levels; every sink is then parsed and compared
// with what was logged. Built with ThreadSanitizer and with AddressSanitizer, as C99 and as C11.
#include "pbt.h"
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <sched.h>
#include <set>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <thread>
#include <time.h>
#include <unistd.h>
extern "C" {
#include "sc_log.h"
}
using namespace pbt;

const HarnessInfo harness_info = {
	"2..5 threads log 1..40 messages each (1 byte to 9 KB, every level) while the main thread makes 0..40 changes (two log files, one of "
	"them possibly next to its rotation limit, two callbacks, standard output, levels) and logs itself; every print into a sink yields the "
	"processor at random. Afterwards each sink must consist of whole lines with the logging thread's own name and level, in that thread's "
	"order, and hold each message exactly once (where the sink was never off and the level never above it), at most once otherwise; sinks that were never off hold the same messages; the "
	"controller's own messages must be in exactly the sinks it had enabled. Non-trivial: at least two threads interleave in one sink.",
	true, 60, 40};

static thread_local uint64_t yr = 88172645463325252ull;
static std::atomic<int> yield_on{0};
static thread_local int self_id = -1;
static void maybe_yield()
{
	int m = yield_on.load(std::memory_order_relaxed);
	if (!m) return;
	yr ^= yr << 13; yr ^= yr >> 7; yr ^= yr << 17;
	if (yr % 8 < (uint64_t) m) sched_yield();
	else if (yr % 97 == 5) usleep(30);
}
extern "C" {
int __real_vfprintf(FILE *, const char *, va_list);
int __wrap_vfprintf(FILE *f, const char *fmt, va_list va)
{
	maybe_yield();
	int r = __real_vfprintf(f, fmt, va);
	maybe_yield();
	return r;
}
int __wrap_fprintf(FILE *f, const char *fmt, ...)
{
	maybe_yield();
	va_list va;
	va_start(va, fmt);
	int r = __real_vfprintf(f, fmt, va);
	va_end(va);
	maybe_yield();
	return r;
}
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) { maybe_yield(); FILE *f = __real_fopen(p, m); maybe_yield(); return f; }
int __real_fclose(FILE *);
int __wrap_fclose(FILE *f) { maybe_yield(); int r = __real_fclose(f); maybe_yield(); return r; }
}

static const char *LEVEL[] = {"DEBUG", "INFO", "WARN", "ERROR", "OFF"};

struct Msg {
	int level, form;
	size_t len;
	std::string name; // thread name in force, shown part
	int rc = 0;
	bool fail = false; // the callback refuses it
	int mask = -1; // controller only: exact sinks, bit 0 fileA, 1 fileB, 2 stdout/stderr, 3 cb0, 4 cb1
};

struct Cb {
	int id = 0;
	long calls = 0;          // plain on purpose
	int retired = 0;         // written by the controller once the callback is switched off
	std::atomic<int> in{0};
	int bad_concurrent = 0, bad_thread = 0, bad_retired = 0;
	std::vector<std::string> got;
	std::vector<int> lv;
};

static const std::vector<std::vector<Msg>> *g_plan;
static int on_log(void *arg, enum sc_log_level level, const char *fmt, va_list va)
{
	Cb *b = (Cb *) arg;
	if (b->in.exchange(1, std::memory_order_relaxed)) b->bad_concurrent++;
	char *p = NULL;
	int n = vasprintf(&p, fmt, va);
	maybe_yield();
	if (b->retired) b->bad_retired++;
	b->calls++;
	b->got.emplace_back(p, (size_t) n);
	b->lv.push_back((int) level);
	int t = -1;
	sscanf(p, "%d", &t);
	if (t != self_id) b->bad_thread++;
	long i = -1;
	int rc = 0;
	if (sscanf(p, "%d %ld", &t, &i) == 2 && t >= 0 && t < (int) g_plan->size() && i >= 0 && i < (long) (*g_plan)[(size_t) t].size() && (*g_plan)[(size_t) t][(size_t) i].fail) rc = -1;
	free(p);
	b->in.store(0, std::memory_order_relaxed);
	return rc;
}

static std::string body(int t, size_t i, const Msg &m)
{
	std::string s = std::to_string(t) + " " + std::to_string(i) + " ";
	s.append(m.len, (char) ('a' + (t * 7 + (int) i) % 26));
	return s;
}

static int emit(int t, size_t i, const Msg &m)
{
	std::string s = body(t, i, m);
	const char *p = s.c_str();
	if (m.form == 1) {
		std::string tail = s.substr(s.find(' ') + 1);
		switch (m.level) {
		case 0: return sc_log_debug("%d %s\n", t, tail.c_str());
		case 1: return sc_log_info("%d %s\n", t, tail.c_str());
		case 2: return sc_log_warn("%d %s\n", t, tail.c_str());
		default: return sc_log_error("%d %s\n", t, tail.c_str());
		}
	}
	switch (m.level) {
	case 0: return sc_log_debug("%s\n", p);
	case 1: return sc_log_info("%s\n", p);
	case 2: return sc_log_warn("%s\n", p);
	default: return sc_log_error("%s\n", p);
	}
}

static std::string slurp(const std::string &f)
{
	std::string r;
	int fd = open(f.c_str(), O_RDONLY | O_CLOEXEC);
	if (fd < 0) return "";
	char b[65536];
	ssize_t n;
	while ((n = read(fd, b, sizeof b)) > 0) r.append(b, (size_t) n);
	close(fd);
	return r;
}

typedef std::vector<std::vector<Msg>> Plan;
typedef std::map<std::pair<int, size_t>, int> Seen;

// one message of a sink: identify and compare with the plan
static void take(Case &c, const Plan &plan, const char *sink, const std::string &text, int level, const std::string *name, Seen &seen,
		 std::vector<long> &last, int &switches, int &prev_t)
{
	int t;
	long i;
	REQUIRE(c, sscanf(text.c_str(), "%d %ld ", &t, &i) == 2 && t >= 0 && t < (int) plan.size() && i >= 0 && i < (long) plan[t].size(),
		"%s holds %s, which nobody logged", sink, quote(text).c_str());
	const Msg &m = plan[(size_t) t][(size_t) i];
	std::string want = body(t, (size_t) i, m);
	REQUIRE(c, text == want, "%s: message %ld of thread %d is %s, expected %s", sink, i, t, quote(text).c_str(), quote(want).c_str());
	REQUIRE(c, level == m.level, "%s: message %ld of thread %d has level %s, logged as %s", sink, i, t, LEVEL[level], LEVEL[m.level]);
	if (name) REQUIRE(c, *name == m.name, "%s: message %ld of thread %d carries the name %s instead of %s", sink, i, t, quote(*name).c_str(), quote(m.name).c_str());
	int nth = ++seen[std::make_pair(t, (size_t) i)];
	REQUIRE(c, nth == 1, "%s: message %ld of thread %d appears twice", sink, i, t);
	REQUIRE(c, i > last[(size_t) t], "%s: message %ld of thread %d comes after its message %ld", sink, i, t, last[(size_t) t]);
	last[(size_t) t] = i;
	if (prev_t != -1 && prev_t != t) switches++;
	prev_t = t;
}

static void parse(Case &c, const Plan &plan, const char *sink, const std::string &text, Seen &seen, int &switches)
{
	std::vector<long> last(plan.size(), -1);
	int prev_t = -1;
	size_t p = 0;
	while (p < text.size()) {
		size_t e = text.find('\n', p);
		REQUIRE(c, e != std::string::npos, "%s ends in the middle of a line: %s", sink, quote(text.substr(p)).c_str());
		std::string l = text.substr(p, e - p);
		p = e + 1;
		if (l.empty() || l[0] == 'o') continue; // separator written on opening, earlier contents
		int y, mo, da, h, mi, se, n = -1;
		char lv[6] = "";
		REQUIRE(c, sscanf(l.c_str(), "[%4d-%2d-%2d %2d:%2d:%2d][%5[A-Z ]][%n", &y, &mo, &da, &h, &mi, &se, lv, &n) == 7 && n == 29,
			"%s holds the line %s", sink, quote(l).c_str());
		int level = -1;
		for (int k = 0; k < 4; k++) {
			char b[8];
			snprintf(b, sizeof b, "%-5s", LEVEL[k]);
			if (!strcmp(b, lv)) level = k;
		}
		size_t q = l.find("] ", (size_t) n);
		REQUIRE(c, level >= 0 && q != std::string::npos, "%s holds the line %s", sink, quote(l).c_str());
		std::string name = l.substr((size_t) n, q - (size_t) n);
		take(c, plan, sink, l.substr(q + 2), level, &name, seen, last, switches, prev_t);
	}
}

struct Op { int kind, a; unsigned spin; };

void run_case(Case &c)
{
	std::string d = scratch() + "/lm";
	mkdir(d.c_str(), 0755);
	for (const char *f : {"a", "b", "pa", "pb", "out", "err"}) unlink((d + "/" + f).c_str());
	size_t nt = 2 + c.draw(4);
	Plan plan(nt + 1); // 0: the controller
	g_plan = &plan;
	bool refusing = c.chance(1, 3);
	std::vector<std::vector<std::pair<size_t, std::string>>> renames(nt + 1);
	bool big = c.chance(1, 5);
	for (size_t t = 1; t <= nt; t++) {
		size_t n = 1 + c.draw(40);
		std::string name = "Thread";
		for (size_t i = 0; i < n; i++) {
			if ((i == 0 && c.chance(5, 6)) || c.chance(1, 20)) {
				std::string full = "t" + std::to_string(t) + c.text(c.size(i ? 10 : 45), "xyzXYZ-");
				renames[t].push_back({i, full});
				name = full.substr(0, 31);
			}
			Msg m;
			m.level = (int) c.draw(4);
			m.form = (int) c.draw(2);
			m.len = big && c.chance(1, 4) ? c.draw(9000) : c.draw(60);
			m.name = name;
			m.fail = refusing && c.chance(1, 4);
			plan[t].push_back(m);
		}
	}
	sc_log_set_thread_name("controller");
	// what the controller does
	int lv_allowed_max = (int) c.draw(5);
	bool file_off = c.chance(1, 4), cb_off = c.chance(1, 4), out_off = c.chance(1, 3), no_out = c.flip();
	std::vector<Op> ops;
	size_t nops = c.draw(41);
	for (size_t i = 0; i < nops; i++) {
		Op o;
		o.kind = (int) c.weighted({6, 6, 6, 6, 2, 1, 1});
		switch (o.kind) {
		case 0: o.a = (int) c.draw(file_off ? 3 : 2); break;
		case 1: o.a = (int) c.draw(cb_off ? 3 : 2); break;
		case 2: o.a = (int) c.draw((uint64_t) lv_allowed_max + 1); break;
		case 3: o.a = (int) c.draw(4); break; // own message
		case 5: o.a = file_off ? (int) c.draw(4) : -1; break; // a file that cannot be used
		case 6: break; // a level that does not exist
		default: o.a = no_out ? 0 : out_off ? (int) c.draw(2) : 1; break;
		}
		o.spin = (unsigned) c.draw(4) == 0 ? 0 : (unsigned) c.draw(3000);
		ops.push_back(o);
	}
	size_t lim_a = c.chance(1, 3) ? SC_LOG_FILE_SIZE - c.draw(4000) : 0;
	int first_level = (int) c.draw((uint64_t) lv_allowed_max + 1), first_cb = cb_off ? (int) c.draw(3) : (int) c.draw(2);
	yield_on = (int) c.draw(6);
	uint64_t yseed = c.draw(1u << 30);
	if (lim_a) {
		std::string fill(lim_a, 'o');
		for (size_t i = 79; i < lim_a; i += 80) fill[i] = '\n';
		fill[lim_a - 1] = '\n';
		int fd = open((d + "/a").c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_CLOEXEC, 0644);
		if (fd < 0 || write(fd, fill.data(), lim_a) != (ssize_t) lim_a) c.error("cannot prepare the log file");
		close(fd);
	}
	std::string fa = d + "/a", fb = d + "/b", pa = d + "/pa", pb = d + "/pb";
	FILE *so = stdout, *se = stderr;
	FILE *of = fopen((d + "/out").c_str(), "w"), *ef = fopen((d + "/err").c_str(), "w");
	if (!of || !ef) c.error("cannot open the outputs");
	Cb cb[2];
	cb[1].id = 1;
	REQUIRE(c, sc_log_init() == 0, "sc_log_init() fails");
	int cur_level = first_level, cur_file = 0, cur_cb = first_cb, lo = first_level, hi = first_level;
	bool cur_out = !no_out;
	REQUIRE(c, sc_log_set_level(LEVEL[cur_level]) == 0, "sc_log_set_level() fails");
	sc_log_set_stdout(cur_out);
	REQUIRE(c, sc_log_set_file(pa.c_str(), fa.c_str()) == 0, "sc_log_set_file() fails");
	if (cur_cb < 2) sc_log_set_callback(&cb[cur_cb], on_log);
	for (int k = 0; k < 2; k++) if (k != cur_cb) cb[k].retired = 1;
	stdout = of;
	stderr = ef;
	std::atomic<int> ready{0}, go{0};
	std::vector<std::thread> th;
	for (size_t t = 1; t <= nt; t++) {
		th.emplace_back([&, t] {
			self_id = (int) t;
			yr += yseed * 2654435761u + t * 7919;
			ready++;
			while (!go.load()) sched_yield();
			size_t r = 0;
			for (size_t i = 0; i < plan[t].size(); i++) {
				if (r < renames[t].size() && renames[t][r].first == i) sc_log_set_thread_name(renames[t][r++].second.c_str());
				plan[t][i].rc = emit((int) t, i, plan[t][i]);
			}
		});
	}
	self_id = 0;
	yr += yseed;
	while (ready.load() < (int) nt) sched_yield();
	go = 1;
	std::string err;
	bool file_gap = false, cb_gap = cur_cb == 2, out_gap = !cur_out;
	plan[0].reserve(ops.size());
	for (auto &o : ops) {
		for (volatile unsigned k = 0; k < o.spin; k++) {}
		if (o.spin % 5 == 1) sched_yield();
		switch (o.kind) {
		case 0: {
			int rc = o.a == 2 ? sc_log_set_file(NULL, NULL) : sc_log_set_file(o.a ? pb.c_str() : pa.c_str(), o.a ? fb.c_str() : fa.c_str());
			if (rc) err = "sc_log_set_file() fails";
			cur_file = o.a;
			if (o.a == 2) file_gap = true;
			break;
		}
		case 1: {
			if (o.a < 2) {
				if (o.a != cur_cb) cb[o.a].retired = 0;
				sc_log_set_callback(&cb[o.a], on_log);
			} else {
				sc_log_set_callback(NULL, NULL);
				cb_gap = true;
			}
			if (cur_cb < 2 && cur_cb != o.a) cb[cur_cb].retired = 1; // must not be in use any more
			cur_cb = o.a;
			break;
		}
		case 2:
			if (sc_log_set_level(LEVEL[o.a])) err = "sc_log_set_level() fails";
			cur_level = o.a;
			if (o.a < lo) lo = o.a;
			if (o.a > hi) hi = o.a;
			break;
		case 5: {
			static const std::string longname(400, 'n');
			if (o.a < 0) break;
			std::string nodir = d + "/none/x";
			const char *pp = o.a == 1 ? longname.c_str() : pa.c_str(), *ff = o.a == 0 ? nodir.c_str() : o.a == 1 ? fa.c_str() : o.a == 2 ? longname.c_str() : d.c_str();
			if (sc_log_set_file(pp, ff) == 0) err = "sc_log_set_file() takes a file that cannot be used";
			if (sc_log_set_file(NULL, NULL)) err = "sc_log_set_file() fails";
			cur_file = 2;
			file_gap = true;
			break;
		}
		case 6:
			if (sc_log_set_level(o.spin & 1 ? "LOUD" : "") == 0) err = "sc_log_set_level() takes a name that does not exist";
			break;
		case 3: {
			Msg m;
			m.fail = refusing && o.spin % 3 == 0;
			m.level = o.a;
			m.form = (int) (o.spin & 1);
			m.len = o.spin % 50;
			m.name = "controller";
			m.mask = 0;
			if (o.a >= cur_level) m.mask = (cur_file < 2 ? 1 << cur_file : 0) | (cur_out ? 4 : 0) | (cur_cb < 2 ? 8 << cur_cb : 0);
			plan[0].push_back(m);
			plan[0].back().rc = emit(0, plan[0].size() - 1, m);
			break;
		}
		default:
			sc_log_set_stdout(o.a != 0);
			cur_out = o.a != 0;
			if (!cur_out) out_gap = true;
			break;
		}
	}
	for (auto &x : th) x.join();
	stdout = so;
	stderr = se;
	yield_on = 0;
	bool tf = sc_log_term() != 0;
	fclose(of);
	fclose(ef);
	static const char *KN[] = {"file", "callback", "level", "own message", "standard output", "unusable file", "unknown level"};
	if (c.tracing) {
		for (size_t t = 1; t <= nt; t++) c.trace("thread %zu logs %zu messages", t, plan[t].size());
		for (auto &o : ops) c.trace("controller: %s %d", KN[o.kind], o.a);
		c.trace("levels %s..%s%s%s%s%s", LEVEL[lo], LEVEL[hi], file_gap ? ", file off at times" : "", cb_gap ? ", callback off at times" : "", out_gap ? ", standard output off at times" : "",
			lim_a ? ", file a next to its limit" : "");
	}
	REQUIRE(c, !tf, "sc_log_term() fails");
	REQUIRE(c, err.empty(), "%s", err.c_str());
	for (size_t t = 0; t < plan.size(); t++)
		for (size_t i = 0; i < plan[t].size(); i++) REQUIRE(c, plan[t][i].rc == 0 || plan[t][i].fail, "message %zu of thread %zu returned %d", i, t, plan[t][i].rc);
	Seen sa, sb, sout, scb[2];
	int switches = 0;
	std::string ta = slurp(pa) + slurp(fa), tb = slurp(pb) + slurp(fb);
	parse(c, plan, "file a", ta, sa, switches);
	parse(c, plan, "file b", tb, sb, switches);
	std::string to = slurp(d + "/out"), te = slurp(d + "/err");
	{
		Seen s1, s2;
		parse(c, plan, "standard output", to, s1, switches);
		parse(c, plan, "standard error", te, s2, switches);
		for (auto &k : s1) REQUIRE(c, plan[(size_t) k.first.first][k.first.second].level < 3, "an error is on standard output");
		for (auto &k : s2) REQUIRE(c, plan[(size_t) k.first.first][k.first.second].level == 3, "a message below error is on standard error");
		sout = s1;
		for (auto &k : s2) sout[k.first] += k.second;
	}
	for (int k = 0; k < 2; k++) {
		const char *nm = k ? "callback 1" : "callback 0";
		REQUIRE(c, !cb[k].bad_concurrent, "%s was entered while it was running", nm);
		REQUIRE(c, !cb[k].bad_retired, "%s ran after it had been replaced", nm);
		REQUIRE(c, !cb[k].bad_thread, "%s ran on another thread than the one logging", nm);
		REQUIRE(c, cb[k].calls == (long) cb[k].got.size(), "%s lost calls", nm);
		std::vector<long> last(plan.size(), -1);
		int prev_t = -1;
		for (size_t i = 0; i < cb[k].got.size(); i++) {
			std::string &g = cb[k].got[i];
			REQUIRE(c, !g.empty() && g.back() == '\n', "%s got %s", nm, quote(g).c_str());
			g.pop_back();
			take(c, plan, nm, g, cb[k].lv[i], NULL, scb[k], last, switches, prev_t);
		}
	}
	auto has = [](Seen &s, size_t t, size_t i) { auto it = s.find({(int) t, i}); return it == s.end() ? 0 : it->second; };
	for (size_t t = 0; t < plan.size(); t++) {
		for (size_t i = 0; i < plan[t].size(); i++) {
			const Msg &m = plan[t][i];
			int f = has(sa, t, i) + has(sb, t, i), o = has(sout, t, i), k = has(scb[0], t, i) + has(scb[1], t, i);
			if (m.fail) REQUIRE(c, (m.rc != 0) == (k != 0), "message %zu of thread %zu went to %d callbacks, which refuse it, and returned %d", i, t, k, m.rc);
			if (m.mask >= 0) {
				int got = has(sa, t, i) | has(sb, t, i) << 1 | o << 2 | has(scb[0], t, i) << 3 | has(scb[1], t, i) << 4;
				REQUIRE(c, got == m.mask, "the controller's message %zu (%s) is in sinks %x, enabled were %x (1 file a, 2 file b, 4 output, 8/16 callbacks)", i, LEVEL[m.level], got, m.mask);
				continue;
			}
			struct { const char *n; int cnt; bool gap; } s[3] = {{"log files", f, file_gap}, {"standard output", o, out_gap}, {"callbacks", k, cb_gap}};
			for (auto &x : s) {
				REQUIRE(c, x.cnt <= 1, "message %zu of thread %zu is %d times in the %s", i, t, x.cnt, x.n);
				if (m.level < lo) REQUIRE(c, x.cnt == 0, "message %zu of thread %zu (%s) is in the %s although the level was never below %s", i, t, LEVEL[m.level], x.n, LEVEL[lo]);
				if (m.level >= hi && !x.gap) REQUIRE(c, x.cnt == 1, "message %zu of thread %zu (%s) is not in the %s although these were always on and the level never above %s", i, t, LEVEL[m.level], x.n, LEVEL[hi]);
			}
			// whatever level a message met, it met it for all sinks alike
			for (int x = 0; x < 3; x++)
				for (int y = x + 1; y < 3; y++)
					if (!s[x].gap && !s[y].gap)
						REQUIRE(c, s[x].cnt == s[y].cnt, "message %zu of thread %zu (%s) is %d times in the %s and %d times in the %s, both always on", i, t, LEVEL[m.level], s[x].cnt, s[x].n, s[y].cnt, s[y].n);
		}
	}
	c.count("switches", (uint64_t) switches);
	if (switches >= 2) c.nontrivial();
}
