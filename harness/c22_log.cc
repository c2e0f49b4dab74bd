// C22: message delivery against a model of level, sinks and thread name. C23 (-DLOG_ROTATE): rotation.
#include "pbt.h"
#include <map>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <deque>
#define SC_LOG_PRINT_FILE_NAME
extern "C" {
#include "sc_log.h"
}
using namespace pbt;

#ifdef LOG_ROTATE
const HarnessInfo harness_info = {
	"a history of 1..24 messages (from 1 byte up to 900 KB), re-openings and restarts on a log file that is missing, small or (by a "
	"generated prefix) within a few messages of the 2 MB limit; after every step the sizes of the current and the previous file, at the end "
	"and at every rotation their whole contents, are compared with the messages logged. Rarely the existing file has 2 or 4 GB. Non-trivial: at least one rotation and two messages."};
#else
const HarnessInfo harness_info = {
	"a history of 1..40 steps (level changes in any letter case and invalid names, sinks switched, files switched / refused (also for the length of their names), a file whose disk fills up, failing mutexes, callbacks "
	"replaced, thread names of 0..60 bytes, restarts, a failing standard output, messages of every level through the public macros and "
	"with generated formats) under a stand-in clock and three time zones; after every message each sink's new bytes are compared with the "
	"exact expected line. Non-trivial: at least one delivered and one suppressed message."};
#endif

static time_t fake_now;
static bool fake_on;
extern "C" time_t __real_time(time_t *);
extern "C" time_t __wrap_time(time_t *t)
{
	if (!fake_on) return __real_time(t);
	if (t) *t = fake_now;
	return fake_now;
}

// the file "c" is a stream whose writes and close can be made to fail
static long cookie_room = -1; // bytes that still fit on the disk, -1: any number
static bool cookie_close_fails;
static bool cookie_transient; // only the first write fails
static unsigned cookie_failures;
static ssize_t ck_read(void *k, char *b, size_t n) { return read((int) (intptr_t) k, b, n); }
static ssize_t ck_write(void *k, const char *b, size_t n)
{
	if (cookie_room >= 0 && (size_t) cookie_room < n) {
		ssize_t r = cookie_room ? write((int) (intptr_t) k, b, (size_t) cookie_room) : 0;
		if (r > 0) cookie_room -= r;
		if (r != 0 && cookie_room) return r;
		cookie_failures++;
		cookie_room = cookie_transient ? -1 : 0;
		errno = ENOSPC;
		return r; // 0 bytes: glibc takes it as an error
	}
	ssize_t r = write((int) (intptr_t) k, b, n);
	if (r > 0 && cookie_room >= 0) cookie_room -= r;
	return r;
}
static int ck_seek(void *k, off64_t *o, int w)
{
	off64_t r = lseek64((int) (intptr_t) k, *o, w);
	if (r < 0) return -1;
	*o = r;
	return 0;
}
static int ck_close(void *k)
{
	int rc = close((int) (intptr_t) k);
	if (cookie_close_fails) {
		cookie_failures++;
		errno = EIO;
		return -1;
	}
	return rc;
}
extern "C" FILE *__real_fopen(const char *p, const char *m);
extern "C" FILE *__wrap_fopen(const char *p, const char *m)
{
	size_t n = strlen(p);
	if (n < 6 || strcmp(p + n - 2, "/c") != 0 || !strstr(p, "/log/")) return __real_fopen(p, m);
	bool plus = strchr(m, '+') != NULL;
	int fl = O_CLOEXEC | (m[0] == 'r' ? 0 : O_CREAT) | (plus ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY) | (m[0] == 'w' ? O_TRUNC : 0) | (m[0] == 'a' ? O_APPEND : 0);
	int fd = open(p, fl, 0644);
	if (fd < 0) return NULL;
	cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
	FILE *fp = fopencookie((void *) (intptr_t) fd, m, io);
	if (fp) setvbuf(fp, NULL, _IONBF, 0);
	else close(fd);
	return fp;
}

// a standard stream of which one write in a call fails
static unsigned flaky_writes, flaky_at, flaky_failures;
static ssize_t fl_write(void *, const char *, size_t n)
{
	if (flaky_writes++ == flaky_at) {
		flaky_failures++;
		errno = EAGAIN;
		return 0;
	}
	return (ssize_t) n;
}

static bool mutex_fails;
static unsigned mutex_failures;
extern "C" int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
extern "C" int __real_pthread_mutexattr_init(pthread_mutexattr_t *);
static int mutex_fail_where;
extern "C" int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	if (mutex_fails && mutex_fail_where == 0) { mutex_failures++; return EAGAIN; }
	return __real_pthread_mutex_init(m, a);
}
extern "C" int __wrap_pthread_mutexattr_init(pthread_mutexattr_t *a)
{
	if (mutex_fails && mutex_fail_where == 1) { mutex_failures++; return ENOMEM; }
	return __real_pthread_mutexattr_init(a);
}

// the same file under a name of (about) the given length
static std::string padded(const std::string &d, const std::string &f, size_t len)
{
	size_t n = d.size() + 1 + f.size();
	return d + std::string(len > n ? 1 + len - n : 1, '/') + f;
}

static size_t some_length(Case &c, size_t limit)
{
	switch (c.weighted({6, 2, 1, 1})) {
	case 0: return 0;
	case 1: return std::min(limit, (size_t) c.range(246, 262));
	case 2: return (size_t) c.draw(std::min<size_t>(limit, 300));
	default: return std::min(limit, (size_t) c.range(250, 900));
	}
}

static const char *LEVEL[] = {"DEBUG", "INFO", "WARN", "ERROR", "OFF"};

struct Cb {
	int id;
	std::string got;
	int calls = 0, level = -1, ret = 0;
};

static int on_log(void *arg, enum sc_log_level level, const char *fmt, va_list va)
{
	Cb *b = (Cb *) arg;
	char *p = NULL;
	int n = vasprintf(&p, fmt, va);
	b->got.assign(p, (size_t) n);
	free(p);
	b->calls++;
	b->level = level;
	return b->ret;
}

static std::string slurp(const std::string &f)
{
	std::string r;
	int fd = open(f.c_str(), O_RDONLY | O_CLOEXEC);
	if (fd < 0) return "<missing>";
	struct stat st;
	fstat(fd, &st);
	r.resize((size_t) st.st_size);
	size_t off = 0;
	ssize_t n;
	while (off < r.size() && (n = read(fd, &r[off], r.size() - off)) > 0) off += (size_t) n;
	close(fd);
	return r;
}

static std::string header(int level, const std::string &name)
{
	struct tm tm;
	char b[128];
	if (!localtime_r(&fake_now, &tm)) return "";
	snprintf(b, sizeof b, "[%d-%02d-%02d %02d:%02d:%02d][%-5s][", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, LEVEL[level]);
	return b + name + "] ";
}

#define HERE(n) ("(c22_log.cc:" + std::to_string(n) + ") ")
// every public macro with several argument lists; 'want' is the expected text
static int log_macro(int level, int form, const std::string &s, int i, uint64_t u, std::string &want)
{
	int rc = 0, line;
	char t[128];
	const char *p = s.c_str();
	snprintf(t, sizeof t, "%llu", (unsigned long long) u);
#define ONE(fn)                                                                                                        \
	switch (form) {                                                                                                \
	case 0: rc = fn("%s\n", p); want = s + "\n"; break;                                                            \
	case 1: rc = fn("plain text\n"); want = "plain text\n"; break;                                                 \
	case 2: rc = fn("%d %s 100%%\n", i, p); want = std::to_string(i) + " " + s + " 100%\n"; break;                 \
	case 3: rc = fn("%s|%s|%d|%llu\n", p, "x", i, (unsigned long long) u); want = s + "|x|" + std::to_string(i) + "|" + t + "\n"; break; \
	default: rc = fn("%s%.2f %c\n", "", 1.5, 'z'); want = "1.50 z\n"; break;                                      \
	}
	switch (level) {
	case 0: line = __LINE__; ONE(sc_log_debug) break;
	case 1: line = __LINE__; ONE(sc_log_info) break;
	case 2: line = __LINE__; ONE(sc_log_warn) break;
	default: line = __LINE__; ONE(sc_log_error) break;
	}
	want = HERE(line) + want;
	return rc;
}

static int log_raw(int level, const std::string &s, int i, int form, std::string &want)
{
	const char *p = s.c_str();
	switch (form) {
	case 0: want = s; return sc_log_log((enum sc_log_level) level, "%s", p);
	case 1: want = s + "\n"; return sc_log_log((enum sc_log_level) level, "%s\n", p);
	case 2: {
		// nine arguments: registers and stack
		want = std::to_string(i);
		for (int k = 1; k < 9; k++) want += "," + std::to_string(i + k);
		want += ":" + s + "\n";
		return sc_log_log((enum sc_log_level) level, "%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld:%s\n", (long) i, (long) i + 1, (long) i + 2, (long) i + 3,
			(long) i + 4, (long) i + 5, (long) i + 6, (long) i + 7, (long) i + 8, p);
	}
	default: want = ""; return sc_log_log((enum sc_log_level) level, "%s", "");
	}
}

static std::string dir()
{
	return scratch() + "/log";
}

static std::string file_of(const std::string &path) { return path.substr(path.rfind('/') + 1); }

static void fresh_dir()
{
	std::string d = dir();
	mkdir(d.c_str(), 0755);
	for (const char *f : {"a", "b", "c", "pa", "pb", "pc", "full"}) unlink((d + "/" + f).c_str());
}

static void clock_zone(Case &c)
{
	static const std::vector<std::string> tz = {"UTC", "EST5EDT", "XYZ-13:45"};
	static const char *cur;
	const char *want = tz[c.weighted({6, 1, 1})].c_str();
	if (cur != want) {
		setenv("TZ", want, 1);
		tzset();
		cur = want;
	}
	switch (c.weighted({4, 2, 1})) {
	case 0: fake_now = (time_t) c.draw(4102444800ull); break;
	case 1: fake_now = (time_t) (951782400 + c.range(-200000, 200000)); break; // around a leap day
	default: fake_now = (time_t) c.range(-5000000000ll, 400000000000ll); break;
	}
}

static std::string word(Case &c)
{
	size_t n = c.size(c.chance(1, 30) ? 9000 : 40);
	return c.text(n, "abcdefgXYZ 0189%sd[]()\t\xc3\xa9-:");
}

#ifndef LOG_ROTATE

void run_case(Case &c)
{
	fresh_dir();
	fake_on = true;
	clock_zone(c);
	FILE *so = stdout, *se = stderr;
	char *ob = NULL, *eb = NULL;
	size_t on = 0, en = 0, opos = 0, epos = 0;
	FILE *of = open_memstream(&ob, &on), *ef = open_memstream(&eb, &en), *full = fopen("/dev/full", "w");
	setvbuf(full, NULL, _IONBF, 0);
	cookie_io_functions_t fl_io = {NULL, fl_write, NULL, NULL};
	FILE *flaky = fopencookie(NULL, "w", fl_io);
	setvbuf(flaky, NULL, _IONBF, 0);
	bool is_flaky = false;
	cookie_room = -1;
	cookie_close_fails = false;
	auto init = [&] {
		if (c.chance(1, 12)) {
			mutex_fail_where = (int) c.draw(2);
			mutex_failures = 0;
			errno = 0;
			mutex_fails = true;
			int rc = sc_log_init();
			mutex_fails = false;
			c.trace("init with a failing mutex -> %d", rc);
			if (mutex_failures) {
				REQUIRE(c, rc < 0, "sc_log_init() returns %d although the mutex could not be created", rc);
				REQUIRE(c, errno != 0, "a failed sc_log_init() leaves errno unset");
				c.label("failed init");
			}
			if (rc == 0) REQUIRE(c, sc_log_term() == 0, "sc_log_term() fails");
		}
		REQUIRE(c, sc_log_init() == 0, "sc_log_init() fails");
	};
	init();
	int level = 1;
	bool to_out = true, broken = false;
	int file = -1;
	std::string fcontent[3];
	bool fexists[3] = {false, false, false};
	Cb cbs[2];
	int cb = -1;
	std::string name;
	{
		size_t n = c.size(60);
		name = c.text(n, "abcXYZ %s[]-");
	}
	sc_log_set_thread_name(name.c_str());
	std::string shown = name.substr(0, 31);
	unsigned delivered = 0, suppressed = 0;
	std::string d = dir();
	size_t steps = 1 + c.draw(40);
	for (size_t s = 0; s < steps; s++) {
		if (c.chance(1, 6)) clock_zone(c);
		switch (c.weighted({12, 3, 2, 3, 2, 1, 1, 1})) {
		case 0: {
			int lv = (int) c.draw(4), form = (int) c.draw(5);
			bool raw = c.flip();
			std::string text = word(c), want, line;
			int i = (int) c.u64();
			uint64_t u = c.u64();
			if (raw && i > INT32_MAX - 10) i = 5;
			for (auto &b : cbs) { b.calls = 0; b.ret = cb >= 0 && c.chance(1, 10) ? 1 + (int) c.draw(5) : 0; }
			flaky_writes = flaky_failures = 0;
			flaky_at = (unsigned) c.draw(3);
			stdout = broken ? is_flaky ? flaky : full : of;
			stderr = broken ? is_flaky ? flaky : full : ef;
			cookie_failures = 0;
			int rc = raw ? log_raw(lv, text, i, form % 4, want) : log_macro(lv, form, text, i, u, want);
			stdout = so;
			stderr = se;
			fflush(of);
			fflush(ef);
			fflush(NULL);
			c.trace("log %s %s -> %d", LEVEL[lv], quote(want).c_str(), rc);
			bool on_ = lv >= level;
			std::string full_line = header(lv, shown) + want;
			std::string gout(ob + opos, on - opos), gerr(eb + epos, en - epos);
			opos = on;
			epos = en;
			std::string wout = on_ && to_out && !broken && lv != 3 ? full_line : "", werr = on_ && to_out && !broken && lv == 3 ? full_line : "";
			REQUIRE(c, gout == wout, "a %s message at level %s gave %s on standard output, expected %s", LEVEL[lv], LEVEL[level], quote(gout).c_str(), quote(wout).c_str());
			REQUIRE(c, gerr == werr, "a %s message at level %s gave %s on standard error, expected %s", LEVEL[lv], LEVEL[level], quote(gerr).c_str(), quote(werr).c_str());
			bool fbad = cookie_failures > 0;
			if (fbad) {
				// what did fit on the disk
				std::string got = slurp(d + "/c"), all = fcontent[2] + full_line;
				REQUIRE(c, on_ && file == 2, "a message that is not for the file writes to it");
				REQUIRE(c, got.size() < all.size() && got.compare(0, fcontent[2].size(), fcontent[2]) == 0, "on a full disk the file got %s of the line %s",
					quote(got.size() > 400 ? got.substr(got.size() - 400) : got, 400).c_str(), quote(full_line).c_str());
				fcontent[2] = got;
				c.label("file sink failed");
			} else if (on_ && file >= 0 && file < 3) fcontent[file] += full_line;
			for (int f = 0; f < 3; f++) {
				if (!fexists[f]) continue;
				std::string got = slurp(d + "/" + "abc"[f]);
				REQUIRE(c, got == fcontent[f], "file %c has %s, expected %s", "abc"[f], quote(got.size() > 400 ? got.substr(got.size() - 400) : got, 400).c_str(),
					quote(fcontent[f].size() > 400 ? fcontent[f].substr(fcontent[f].size() - 400) : fcontent[f], 400).c_str());
			}
			for (int k = 0; k < 2; k++) {
				int wc = on_ && cb == k;
				REQUIRE(c, cbs[k].calls == wc, "callback %d was called %d times, expected %d", k, cbs[k].calls, wc);
				if (!wc) continue;
				REQUIRE(c, cbs[k].level == lv, "the callback got level %d instead of %d", cbs[k].level, lv);
				REQUIRE(c, cbs[k].got == want, "the callback got %s, expected %s", quote(cbs[k].got).c_str(), quote(want).c_str());
			}
			bool bad = on_ && (fbad || (to_out && broken && (!is_flaky || flaky_failures)) || (cb >= 0 && cbs[cb].ret));
			if (file != 3 || bad) REQUIRE(c, (rc != 0) == bad, "logging returns %d although %s", rc, bad ? "a sink failed" : "every sink took the message");
			if (on_ && (to_out || file >= 0 || cb >= 0)) { delivered++; c.count("lines", 1); }
			if (!on_) suppressed++;
			break;
		}
		case 1: {
			int lv = (int) c.draw(5);
			std::string n = LEVEL[lv];
			for (auto &ch : n) if (c.flip()) ch = (char) tolower(ch);
			bool valid = !c.chance(1, 4);
			if (!valid) {
				switch (c.draw(5)) {
				case 0: n += c.text(1, " rsx0"); break;
				case 1: n.pop_back(); break;
				case 2: n[c.draw(n.size())] = c.text(1, "z 9-\xe9")[0]; break;
				case 3: n = ""; break;
				default: n = " " + n; break;
				}
			}
			char *z = strdup(n.c_str());
			int rc = sc_log_set_level(z);
			free(z);
			c.trace("set level %s -> %d", quote(n).c_str(), rc);
			if (valid) {
				REQUIRE(c, rc == 0, "level %s is refused", quote(n).c_str());
				level = lv;
			} else {
				REQUIRE(c, rc < 0, "level %s is accepted", quote(n).c_str());
			}
			break;
		}
		case 2:
			to_out = c.flip();
			broken = c.chance(1, 6);
			is_flaky = c.flip();
			sc_log_set_stdout(to_out);
			c.trace("standard output %s%s", to_out ? "on" : "off", broken ? ", failing" : "");
			break;
		case 3: {
			int file_before = file;
			switch (c.weighted({6, 2, 2, 1})) {
			case 3: { // a file on a full disk: the other sinks must not suffer
				std::string full = d + "/full";
				if (symlink("/dev/full", full.c_str()) != 0 && errno != EEXIST) c.error("symlink");
				file = sc_log_set_file((d + "/pfull").c_str(), full.c_str()) == 0 ? 3 : -1;
				c.trace("file on a full disk%s", file < 0 ? " refused" : "");
				c.label("full disk");
				break;
			}
			case 0: {
				file = (int) c.draw(3);
				std::string cur = padded(d, std::string(1, "abc"[file]), some_length(c, 5000)), prev = padded(d, std::string("p") + "abc"[file], some_length(c, 5000));
				bool was_c = file_before == 2;
				char *zc = strdup(cur.c_str()), *zp = strdup(prev.c_str());
				cookie_failures = 0;
				errno = 0;
				int rc = sc_log_set_file(zp, zc);
				int e = errno;
				free(zc);
				free(zp);
				if (rc != 0) {
					REQUIRE(c, rc == -1 && e != 0, "sc_log_set_file() returns %d with errno %d", rc, e);
					bool full_disk = file == 2 && cookie_failures, too_long = cur.size() >= 250 || prev.size() >= 250;
					REQUIRE(c, full_disk || too_long, "sc_log_set_file() fails with names of %zu and %zu bytes: %s", prev.size(), cur.size(), strerror(e));
					fflush(NULL);
					std::string got = slurp(cur);
					if (fexists[file] && !full_disk) REQUIRE(c, got == fcontent[file] || got == fcontent[file] + "\n", "a refused log file was changed");
					fexists[file] = got != "<missing>";
					if (fexists[file]) fcontent[file] = got;
					file = -1;
					c.trace("file with names of %zu and %zu bytes refused", prev.size(), cur.size());
					c.label(too_long ? "name too long" : "separator refused");
					break;
				}
				REQUIRE(c, was_c || file != 2 || !cookie_failures, "sc_log_set_file() returns 0 although writing to the file failed");
				c.trace("file %c", "abc"[file]);
				fflush(NULL);
				// opening appends; a separator line may be put first
				std::string got = slurp(cur);
				if (!fexists[file]) fcontent[file] = "";
				fexists[file] = true;
				REQUIRE(c, got == fcontent[file] || got == fcontent[file] + "\n", "opening the log file changed it: %s", quote(got).c_str());
				fcontent[file] = got;
				break;
			}
			case 1: {
				std::string x = d + "/a";
				int rc = sc_log_set_file(c.flip() ? NULL : x.c_str(), NULL);
				REQUIRE(c, rc == 0, "switching the file off fails");
				file = -1;
				c.trace("file off");
				break;
			}
			default: {
				std::string bad = c.flip() ? d + "/missing/x" : d + "/" + std::string(260, 'n');
				errno = 0;
				int rc = sc_log_set_file(c.flip() || bad.size() < 200 ? (d + "/pa").c_str() : bad.c_str(), bad.c_str());
				int e = errno;
				REQUIRE(c, rc == -1, "the unusable file %s is accepted", quote(bad, 60).c_str());
				REQUIRE(c, e != 0, "refusing the unusable file %s leaves errno unset", quote(bad, 60).c_str());
				file = -1;
				c.trace("refused file");
				break;
			}
			}
			break;
		}
		case 4:
			cb = (int) c.draw(3) - 1;
			if (cb < 0) sc_log_set_callback(NULL, NULL);
			else sc_log_set_callback(&cbs[cb], on_log);
			c.trace("callback %d", cb);
			break;
		case 5: {
			size_t n = c.size(60);
			std::string nm = c.text(n, "abcXYZ %s[]-");
			char *z = strdup(nm.c_str());
			sc_log_set_thread_name(z);
			memset(z, 'q', nm.size());
			free(z);
			shown = nm.substr(0, 31);
			c.trace("thread name %s", quote(nm).c_str());
			break;
		}
		case 6: { // restart: defaults again
			cookie_failures = 0;
			cookie_close_fails = c.chance(1, 4);
			int rc = sc_log_term();
			cookie_close_fails = false;
			if (cookie_failures) {
				REQUIRE(c, rc < 0, "sc_log_term() returns %d although closing the file failed", rc);
				c.label("failed close");
			} else {
				REQUIRE(c, rc == 0 || file == 3, "sc_log_term() fails");
			}
			if (c.chance(1, 4)) REQUIRE(c, sc_log_term() != 0, "a second sc_log_term() does not fail");
			init();
			level = 1;
			to_out = true;
			file = -1;
			cb = -1;
			c.trace("restart");
			break;
		}
		default:
			broken = false;
			cookie_room = c.flip() ? -1 : (long) c.draw(c.flip() ? 60 : 1000);
			cookie_transient = c.flip();
			c.trace("room on the disk: %ld", cookie_room);
			break;
		}
	}
	cookie_failures = 0;
	int trc = sc_log_term();
	REQUIRE(c, trc == 0 || file == 3 || cookie_failures, "sc_log_term() fails");
	for (int f = 0; f < 3; f++) {
		if (fexists[f]) REQUIRE(c, slurp(d + "/" + "abc"[f]) == fcontent[f], "after termination file %c differs", "abc"[f]);
	}
	fclose(of);
	fclose(ef);
	fclose(full);
	fclose(flaky);
	free(ob);
	free(eb);
	if (delivered && suppressed) c.nontrivial();
}

#else

static const size_t LIMIT = SC_LOG_FILE_SIZE;

// an existing log of gigabytes (a hole in the file) counts toward the limit like any other
static void gigabytes(Case &c)
{
	std::string d = dir(), cur = d + "/a", prev = d + "/pa";
	off_t size = ((off_t) 1 << (c.flip() ? 31 : 32)) + (off_t) c.draw(3000) - (c.flip() ? 1000 : 0);
	int fd = open(cur.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_CLOEXEC, 0644);
	bool ok = fd >= 0 && ftruncate(fd, size) == 0;
	if (fd >= 0) close(fd);
	if (!ok) { unlink(cur.c_str()); c.label("no sparse files"); return; }
	c.trace("existing file of %lld bytes", (long long) size);
	sc_log_set_thread_name("g");
	REQUIRE(c, sc_log_init() == 0, "sc_log_init() fails");
	sc_log_set_stdout(false);
	REQUIRE(c, sc_log_set_file(prev.c_str(), cur.c_str()) == 0, "a log file of %lld bytes cannot be opened", (long long) size);
	std::string line[2];
	struct stat sc, sp;
	for (int i = 0; i < 2; i++) {
		std::string text = c.text(1 + c.draw(50), "abc");
		line[i] = header(1, "g") + text + "\n";
		REQUIRE(c, sc_log_log(SC_LOG_INFO, "%s\n", text.c_str()) == 0, "logging to a file of %lld bytes fails", (long long) size);
		fflush(NULL);
		REQUIRE(c, stat(cur.c_str(), &sc) == 0 && stat(prev.c_str(), &sp) == 0, "a file of %lld bytes was not rotated by message %d", (long long) size, i);
		REQUIRE(c, sp.st_size == size + (off_t) line[0].size() || sp.st_size == size + 1 + (off_t) line[0].size(), "the previous file has %lld bytes, expected %lld", (long long) sp.st_size,
			(long long) size + (long long) line[0].size());
		REQUIRE(c, slurp(cur) == (i ? line[1] : ""), "after message %d the fresh file holds %s", i, quote(slurp(cur).substr(0, 200)).c_str());
	}
	std::string tail(line[0].size(), 0);
	fd = open(prev.c_str(), O_RDONLY | O_CLOEXEC);
	ok = fd >= 0 && pread(fd, &tail[0], tail.size(), sp.st_size - (off_t) tail.size()) == (ssize_t) tail.size();
	if (fd >= 0) close(fd);
	REQUIRE(c, ok && tail == line[0], "the previous file ends with %s", quote(tail).c_str());
	REQUIRE(c, sc_log_term() == 0, "sc_log_term() fails");
	unlink(prev.c_str());
	unlink(cur.c_str());
	c.label("gigabytes");
	c.nontrivial();
}

void run_case(Case &c)
{
	fresh_dir();
	fake_on = true;
	clock_zone(c);
	if (c.chance(1, 100)) return gigabytes(c);
	std::string d = dir(), cur = padded(d, "a", some_length(c, 249)), prev = padded(d, "pa", some_length(c, 249));
	std::map<std::string, std::string> others; // contents of the files in use before
	size_t names = 1;
	std::string M, P = "<missing>"; // expected contents of the current and the previous file
	bool exists = false;
	if (c.chance(5, 6)) {
		size_t n = c.weighted({1, 5, 1}) == 1 ? LIMIT - c.draw(c.flip() ? 600 : 60000) : c.size(4000);
		if (c.chance(1, 10)) n = LIMIT + c.draw(1000);
		M.assign(n, 'o');
		for (size_t i = 79; i < n; i += 80) M[i] = '\n';
		int fd = open(cur.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_CLOEXEC, 0644);
		if (fd < 0 || write(fd, M.data(), n) != (ssize_t) n) c.error("cannot prepare the log file");
		close(fd);
		exists = true;
		c.trace("existing file of %zu bytes", n);
	}
	if (c.chance(1, 4)) {
		P = "old previous\n";
		int fd = open(prev.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_CLOEXEC, 0644);
		if (fd < 0 || write(fd, P.data(), P.size()) < 0) c.error("cannot prepare");
		close(fd);
	}
	(void) exists;
	std::string name = c.text(c.size(31), "abcXYZ");
	sc_log_set_thread_name(name.c_str());
	REQUIRE(c, sc_log_init() == 0, "sc_log_init() fails");
	sc_log_set_stdout(false);
	auto open_it = [&] {
		REQUIRE(c, sc_log_set_file(prev.c_str(), cur.c_str()) == 0, "sc_log_set_file() fails");
		fflush(NULL);
		std::string got = slurp(cur);
		REQUIRE(c, got == M || got == M + "\n", "re-opening does not keep the existing log (%zu bytes, expected %zu)", got.size(), M.size());
		M = got;
	};
	open_it();
	unsigned rot = 0, msgs = 0;
	size_t steps = 1 + c.draw(24);
	size_t written = 0;
	for (size_t s = 0; s < steps && written < 8u * 1024 * 1024; s++) {
		switch (c.weighted({10, 1, 1, 1, 1})) {
		case 0: {
			size_t n;
			switch (c.weighted({4, 3, 2, 1})) {
			case 0: n = c.draw(200); break;
			case 1: n = c.draw(5000); break;
			case 2: n = M.size() < LIMIT ? LIMIT - M.size() : 10; n = (size_t) std::max<int64_t>(0, (int64_t) n - c.range(-3, 90)); if (n > 900000) n = c.draw(900000); break;
			default: n = c.draw(900000); break;
			}
			size_t times = n < 300 && c.chance(1, 8) ? 1 + c.draw(40) : 1;
			for (size_t k = 0; k < times; k++) {
				std::string tag = std::to_string(msgs) + ":", body = tag + std::string(n, (char) ('a' + msgs % 26));
				int lv = 1 + (int) c.draw(3);
				bool nofiles = M.size() + n > LIMIT - 5000 && c.chance(1, 6); // nothing can be opened meanwhile
				struct rlimit rl, zero;
				if (nofiles) {
					getrlimit(RLIMIT_NOFILE, &rl);
					zero = rl;
					zero.rlim_cur = 0;
					setrlimit(RLIMIT_NOFILE, &zero);
				}
				int rc = sc_log_log((enum sc_log_level) lv, "%s\n", body.c_str());
				if (nofiles) {
					setrlimit(RLIMIT_NOFILE, &rl);
					if (rc != 0) {
						std::string line = header(lv, name) + body + "\n";
						c.trace("rotating failed");
						c.label("no fresh file");
						fflush(NULL);
						std::string gc = slurp(cur), gp = slurp(prev);
						if (gc == "<missing>") gc = "";
						else gp = gp == P ? "" : gp; // not moved at all
						std::string all = gp + gc;
						REQUIRE(c, all == M + line || all == M, "logging %zu bytes to %zu failed and left %zu and %zu bytes that are not the messages logged", line.size(),
							M.size(), gp.size(), gc.size());
						REQUIRE(c, M.size() + line.size() >= LIMIT, "logging %zu bytes to %zu fails", line.size(), M.size());
						if (c.flip()) sc_log_log(SC_LOG_ERROR, "x%dy\n", 5); // may go nowhere
						sc_log_set_file(NULL, NULL);
						gc = slurp(cur);
						M = gc == "<missing>" ? "" : gc;
						P = slurp(prev);
						written += line.size();
						msgs++;
						open_it();
						continue;
					}
				}
				REQUIRE(c, rc == 0, "logging %zu bytes fails", n);
				fflush(NULL);
				std::string line = header(lv, name) + body + "\n";
				written += line.size();
				msgs++;
				struct stat st;
				size_t got = stat(cur.c_str(), &st) == 0 ? (size_t) st.st_size : (size_t) -1;
				size_t before = M.size();
				if (got == M.size() + line.size() && !(got == 0)) {
					M += line;
					REQUIRE(c, before <= LIMIT, "the current file holds %zu bytes (limit %zu) but is not rotated: it grew to %zu", before, LIMIT, got);
				} else {
					// rotated: the message is the last of the previous or the first of the new file
					rot++;
					std::string gc = slurp(cur), gp = slurp(prev);
					c.trace("rotated: current %zu, previous %zu bytes", gc.size(), gp.size());
					if (gc.empty()) {
						REQUIRE(c, gp == M + line, "after rotation the previous file has %zu bytes and is not the %zu bytes logged until then", gp.size(), M.size() + line.size());
					} else {
						REQUIRE(c, gp == M && gc == line, "after logging %zu bytes to %zu: current %zu bytes, previous %zu bytes; not the messages logged",
							line.size(), M.size(), gc.size(), gp.size());
					}
					REQUIRE(c, M.size() + line.size() >= LIMIT, "rotated at %zu bytes, the limit is %zu", M.size() + line.size(), LIMIT);
					P = gp;
					M = gc;
				}
				REQUIRE(c, M.size() <= LIMIT + line.size(), "the current file holds %zu bytes", M.size());
			}
			c.trace("%zu message(s) of %zu bytes, current file now %zu", times, n, M.size());
			break;
		}
		case 1:
			c.trace("re-open");
			open_it();
			break;
		case 4: { // other files, coming back to the former ones later
			static const char *CUR[] = {"a", "b"}, *PREV[] = {"pa", "pb", "pc"};
			fflush(NULL);
			others[file_of(cur)] = M;
			others[file_of(prev)] = P;
			if (c.flip()) cur = padded(d, CUR[c.draw(2)], cur.size());
			if (c.chance(3, 4)) prev = padded(d, PREV[c.draw(3)], prev.size());
			for (auto *f : {&cur, &prev}) if (!others.count(file_of(*f))) others[file_of(*f)] = f == &cur ? "" : "<missing>";
			M = others[file_of(cur)];
			P = others[file_of(prev)];
			c.trace("now to %s and %s", file_of(cur).c_str(), file_of(prev).c_str());
			names++;
			open_it();
			break;
		}
		case 2:
			c.trace("restart");
			REQUIRE(c, sc_log_term() == 0, "sc_log_term() fails");
			REQUIRE(c, slurp(cur) == M, "after termination the current file differs");
			REQUIRE(c, sc_log_init() == 0, "sc_log_init() fails");
			sc_log_set_stdout(false);
			open_it();
			break;
		default: {
			fflush(NULL);
			std::string gc = slurp(cur), gp = slurp(prev);
			REQUIRE(c, gc == M, "the current file differs from the messages logged (%zu bytes, expected %zu)", gc.size(), M.size());
			REQUIRE(c, gp == P, "the previous file differs from what was rotated (%zu bytes, expected %zu)", gp.size(), P.size());
			break;
		}
		}
	}
	REQUIRE(c, sc_log_term() == 0, "sc_log_term() fails");
	REQUIRE(c, slurp(cur) == M, "in the end the current file differs from the messages logged");
	REQUIRE(c, slurp(prev) == P, "in the end the previous file differs from what was rotated");
	for (auto &o : others)
		if (o.first != file_of(cur) && o.first != file_of(prev)) REQUIRE(c, slurp(d + "/" + o.first) == o.second, "the file %s was altered although others are in use", o.first.c_str());
	if (names > 1 && rot) c.label("several files");
	if (rot && msgs > 1) c.nontrivial();
	if (rot > 1) c.label("several rotations");
	c.count("messages", msgs);
	c.count("rotations", rot);
}
#endif
