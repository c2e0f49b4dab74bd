// C20: the signal-safe formatter against the C library's.
#include "pbt.h"
#include <fcntl.h>
#include <stdlib.h>
#include <unistd.h>
extern "C" {
#include "sc_signal.h"
}
using namespace pbt;

const HarnessInfo harness_info = {
	"a format of 0..14 pieces (literal text, %s %u %lu %llu %d %ld %lld %p %%), argument values boundary-biased over 64 bits (so narrow "
	"conversions see garbage in the unused half), strings of 0..300 bytes or NULL, destination of 0..400 bytes in exactly sized memory; "
	"every fifth case one unsupported conversion at a random position; every eighth through the log function into a pipe. "
	"Non-trivial: at least two conversions, or a truncation."};

static int call_v(char *buf, size_t sz, const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	int rc = sc_signal_vsnprintf(buf, sz, fmt, va);
	va_end(va);
	return rc;
}

static int pipefd[2] = {-1, -1};
static pid_t pipe_owner;

void run_case(Case &c)
{
	static const std::vector<std::string> conv = {"%d", "%u", "%s", "%ld", "%lu", "%lld", "%llu", "%p", "%%"};
	static const std::vector<std::string> bad = {"%c", "%x", "%X", "%i", "%o", "%f", "%5d", "%-d", "%.3s", "%lx", "%llx", "%ls", "%lp", "%hd", "%zu",
		"%jd", "%n", "%+d", "%08lx", "%l", "%ll", "%", "%l%", "%ll%", "% d", "%#p", "%lllu", "%llld", "%k", "%S", "%D", "%U", "%L", "%\xff"};
	std::string fmt, want;
	uint64_t a[16] = {0};
	std::vector<char *> strs;
	size_t nargs = 0, nconv = 0, n = c.size(14);
	bool is_bad = c.chance(1, 5), did_bad = false, tail = false, rel = true;
	size_t bad_at = is_bad ? c.draw(n + 1) : SIZE_MAX;
	for (size_t i = 0; i <= n && !tail; i++) {
		if (i == bad_at) {
			const std::string &b = c.pick(bad);
			// a format that ends inside a conversion really ends there
			tail = b == "%" || b == "%l" || b == "%ll";
			fmt += b;
			did_bad = true;
			continue;
		}
		if (i == n) break;
		if (c.chance(1, 3)) {
			std::string t = c.text(c.size(c.chance(1, 20) ? 300 : 8), "abl dsup10\n-\xe9");
			fmt += t;
			want += t;
			continue;
		}
		if (nargs >= 14) break;
		const std::string &v = c.pick(conv);
		fmt += v;
		nconv++;
		if (v == "%%") { want += "%"; continue; }
		uint64_t x = c.flip() ? c.u64() : c.ubits();
		if (v == "%s") {
			if (c.chance(1, 10)) {
				x = 0;
				want += "(null)";
			} else {
				std::string s = c.text(c.size(c.chance(1, 10) ? 300 : 10), "abc%d\xff\x01 ");
				if (c.chance(1, 20000)) s += std::string(65000 + c.draw(2000), 'w');
				char *p = (char *) malloc(s.size() + 1);
				memcpy(p, s.c_str(), s.size() + 1);
				strs.push_back(p);
				x = (uint64_t) (uintptr_t) p;
				want += s;
			}
			rel = false;
		} else {
			if (v == "%p" && x == 0) x = 1; // how NULL looks is up to each library
			char t[64];
			int k = v == "%d" ? snprintf(t, sizeof t, "%d", (int) x) : v == "%u" ? snprintf(t, sizeof t, "%u", (unsigned) x) :
				v == "%ld" ? snprintf(t, sizeof t, "%ld", (long) x) : v == "%lu" ? snprintf(t, sizeof t, "%lu", (unsigned long) x) :
				v == "%lld" ? snprintf(t, sizeof t, "%lld", (long long) x) : v == "%llu" ? snprintf(t, sizeof t, "%llu", (unsigned long long) x) :
				snprintf(t, sizeof t, "%p", (void *) (uintptr_t) x);
			want.append(t, (size_t) k);
		}
		a[nargs++] = x;
	}
	(void) rel;
	char *f = (char *) malloc(fmt.size() + 1);
	memcpy(f, fmt.c_str(), fmt.size() + 1);
	size_t sz;
	switch (c.weighted({4, 4, 2, 1})) {
	case 0: sz = want.size() + 1 + c.draw(20); break;
	case 1: { int64_t z = (int64_t) want.size() + c.range(-2, 3); sz = z < 0 ? 0 : (size_t) z; break; }
	case 2: sz = c.draw(want.size() + 2); break;
	default: sz = c.draw(3); break;
	}
	char *d = (char *) malloc(sz ? sz : 1), *ref = (char *) malloc(sz + 1);
	memset(d, 0x55, sz ? sz : 1);
	std::string args;
	for (size_t i = 0; i < nargs; i++) { char t[32]; snprintf(t, sizeof t, " %llx", (unsigned long long) a[i]); args += t; }
	c.trace("format %s size %zu args%s", quote(fmt, 2000).c_str(), sz, args.c_str());
#define ARGS a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13]
	if (!did_bad) {
		// the expected text above must be what the C library produces for the same call
		memset(ref, 0x55, sz + 1);
		int rc = snprintf(ref, sz, f, ARGS);
		if (rc != (int) want.size()) c.error("reference disagrees with snprintf for %s", quote(fmt).c_str());
	}
	bool log = sz < 60000 && c.chance(1, 8);
	if (log) {
		if (pipe_owner != getpid()) {
			pipe_owner = getpid();
			if (pipe2(pipefd, O_NONBLOCK | O_CLOEXEC) != 0) c.error("pipe");
		}
		sc_signal_log(pipefd[1], d, sz, f, ARGS);
		char got[70000];
		ssize_t k = read(pipefd[0], got, sizeof got);
		std::string g(got, k > 0 ? (size_t) k : 0);
		while (k > 0 && (k = read(pipefd[0], got, sizeof got)) > 0) {}
		if (did_bad) {
			REQUIRE(c, g.empty(), "logging the unsupported format %s writes %zu bytes: %s", quote(fmt).c_str(), g.size(), quote(g).c_str());
		} else {
			std::string w = want.substr(0, sz ? sz - 1 : 0);
			REQUIRE(c, g == w, "logging %s with %zu bytes writes %s, expected %s", quote(fmt).c_str(), sz, quote(g).c_str(), quote(w).c_str());
		}
		c.label("log");
	} else {
		int rc = c.flip() ? sc_signal_snprintf(d, sz, f, ARGS) : call_v(d, sz, f, ARGS);
		if (did_bad) {
			REQUIRE(c, rc == -1, "the unsupported format %s is reported as %d", quote(fmt).c_str(), rc);
			c.label("unsupported");
		} else {
			int w = (int) (sz == 0 ? 0 : want.size() < sz - 1 ? want.size() : sz - 1);
			REQUIRE(c, rc == w, "format %s into %zu bytes reports %d characters, expected %d", quote(fmt).c_str(), sz, rc, w);
			if (sz == 0) {
				REQUIRE(c, d[0] == 0x55, "format %s writes to a destination of 0 bytes", quote(fmt).c_str());
			} else {
				REQUIRE(c, strlen(ref) == (size_t) w && memcmp(d, ref, (size_t) w + 1) == 0, "format %s args%s into %zu bytes gives %s, the C library gives %s",
					quote(fmt).c_str(), args.c_str(), sz, quote(std::string(d, (size_t) w + 1)).c_str(), quote(ref).c_str());
			}
			if (want.size() + 1 > sz) c.label("truncated");
		}
	}
	REQUIRE(c, memcmp(f, fmt.c_str(), fmt.size() + 1) == 0, "the format was modified");
	if (nconv >= 2 || want.size() + 1 > sz) c.nontrivial();
	for (auto p : strs) free(p);
	free(f);
	free(d);
	free(ref);
}
