// C30: clock readings and sleeps under simulated clocks (and, rarely, the real ones).
#include "pbt.h"
#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
extern "C" {
#include "sc_time.h"
}
using namespace pbt;

const HarnessInfo harness_info = {
	"1..20 readings of the four functions under simulated wall, monotonic and other clocks whose seconds and nanoseconds are chosen at their "
	"limits (0, 999999999, 2^31, the largest value whose conversion fits), and sleeps of 0..2^64-1 ms interrupted 0..6 times at any point or "
	"refused; 1 of 4000 cases sleeps for real under a stream of signals. Non-trivial: a reading with a truncated part or an interrupted sleep.",
	true};

static bool on;
static struct timespec wall, mono, other;
static int interrupts, fail_errno, calls;
static unsigned __int128 slept;
static std::vector<uint64_t> cut; // where each interruption falls
static bool bad_request;

extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t id, struct timespec *t)
{
	if (!on) return __real_clock_gettime(id, t);
	*t = id == CLOCK_REALTIME ? wall : id == CLOCK_MONOTONIC ? mono : other;
	return 0;
}
int __real_gettimeofday(struct timeval *, void *);
int __wrap_gettimeofday(struct timeval *t, void *z)
{
	if (!on) return __real_gettimeofday(t, z);
	t->tv_sec = wall.tv_sec;
	t->tv_usec = wall.tv_nsec / 1000;
	return 0;
}
time_t __real_time(time_t *);
time_t __wrap_time(time_t *t)
{
	if (!on) return __real_time(t);
	if (t) *t = wall.tv_sec;
	return wall.tv_sec;
}
static void advance(unsigned __int128 ns) // the clock goes on while the process sleeps
{
	ns += (unsigned __int128) mono.tv_nsec;
	mono.tv_sec += (time_t) (ns / 1000000000u);
	mono.tv_nsec = (long) (ns % 1000000000u);
}
static int sim_sleep(const struct timespec *t, struct timespec *rem)
{
	calls++;
	if (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec > 999999999) { bad_request = true; return EINVAL; }
	unsigned __int128 ns = (unsigned __int128) t->tv_sec * 1000000000u + (unsigned) t->tv_nsec;
	if (interrupts > 0) {
		interrupts--;
		uint64_t share = cut[(size_t) interrupts % cut.size()]; // of 1000
		unsigned __int128 done = share >= 1000 ? ns : ns / 1000 * share + (share * 7919) % (ns < 1000 ? 1 : 1000);
		if (done > ns) done = ns;
		slept += done;
		advance(done);
		if (rem) {
			ns -= done;
			rem->tv_sec = (time_t) (ns / 1000000000u);
			rem->tv_nsec = (long) (ns % 1000000000u);
		}
		return EINTR;
	}
	if (fail_errno) return fail_errno;
	slept += ns;
	advance(ns);
	return 0;
}
int __real_nanosleep(const struct timespec *, struct timespec *);
int __wrap_nanosleep(const struct timespec *t, struct timespec *rem)
{
	if (!on) return __real_nanosleep(t, rem);
	int e = sim_sleep(t, rem);
	if (!e) return 0;
	errno = e;
	return -1;
}
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __wrap_clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem)
{
	if (!on) return __real_clock_nanosleep(id, flags, t, rem);
	if (!(flags & TIMER_ABSTIME)) return sim_sleep(t, rem);
	if (id != CLOCK_MONOTONIC) { bad_request = true; return EINVAL; }
	__int128 d = ((__int128) t->tv_sec - mono.tv_sec) * 1000000000 + t->tv_nsec - mono.tv_nsec;
	if (d <= 0) return 0;
	struct timespec r = {(time_t) (d / 1000000000), (long) (d % 1000000000)};
	return sim_sleep(&r, NULL);
}
}

static struct timespec clock_value(Case &c, uint64_t max_sec)
{
	struct timespec t;
	switch (c.weighted({3, 2, 2, 2})) {
	case 0: t.tv_sec = (time_t) c.draw(max_sec < 4000000000u ? max_sec : 4000000000u); break;
	case 1: t.tv_sec = (time_t) (max_sec - c.draw(3)); break;
	case 2: t.tv_sec = (time_t) c.draw(4); break;
	default: t.tv_sec = (time_t) (c.ubits() % (max_sec + 1)); break;
	}
	switch (c.weighted({3, 1, 1, 2})) {
	case 0: t.tv_nsec = (long) c.draw(1000000000); break;
	case 1: t.tv_nsec = 0; break;
	case 2: t.tv_nsec = 999999999 - (long) c.draw(2); break;
	default: t.tv_nsec = (long) c.draw(1000) * 1000000 + (c.flip() ? 0 : c.flip() ? 999999 : 1); if (t.tv_nsec > 999999999) t.tv_nsec = 999999999; break;
	}
	return t;
}
static void on_alarm(int) {}

void run_case(Case &c)
{
	on = false;
	fail_errno = interrupts = 0;
	if (c.chance(1, 4000)) { // the real thing
		struct sigaction sa;
		memset(&sa, 0, sizeof sa);
		sa.sa_handler = on_alarm;
		sigaction(SIGALRM, &sa, nullptr);
		struct itimerval it = {{0, 700}, {0, 500}}, none = {{0, 0}, {0, 0}};
		uint64_t ms = 1 + c.draw(12);
		struct timespec a, b;
		uint64_t m0 = sc_time_mono_ms(), n0 = sc_time_mono_ns();
		__real_clock_gettime(CLOCK_MONOTONIC, &a);
		if (c.flip()) setitimer(ITIMER_REAL, &it, nullptr);
		int rc = sc_time_sleep(ms);
		setitimer(ITIMER_REAL, &none, nullptr);
		__real_clock_gettime(CLOCK_MONOTONIC, &b);
		uint64_t m1 = sc_time_mono_ms(), n1 = sc_time_mono_ns();
		int64_t el = (b.tv_sec - a.tv_sec) * 1000000000ll + b.tv_nsec - a.tv_nsec;
		c.trace("slept %lu ms for %.3f ms", (unsigned long) ms, (double) el / 1e6);
		REQUIRE(c, rc == 0, "sleeping fails");
		REQUIRE(c, el >= (int64_t) ms * 1000000, "a sleep of %lu ms ended after %.3f ms", (unsigned long) ms, (double) el / 1e6);
		REQUIRE(c, m1 >= m0 + ms - 1 && n1 >= n0 + ms * 1000000, "the monotonic readings did not advance by the sleep");
		struct timespec w;
		__real_clock_gettime(CLOCK_REALTIME, &w);
		uint64_t wn = sc_time_ns(), wm = sc_time_ms();
		uint64_t ref = (uint64_t) w.tv_sec * 1000000000u + (uint64_t) w.tv_nsec;
		REQUIRE(c, wn + 1000000000ull > ref && wn < ref + 60000000000ull, "the wall reading is far from the wall clock");
		REQUIRE(c, wm + 1 >= wn / 1000000 && wm < wn / 1000000 + 60000, "the wall readings disagree");
		c.nontrivial();
		return;
	}
	size_t n = 1 + c.draw(20);
	for (size_t i = 0; i < n; i++) {
		int op = (int) c.weighted({2, 2, 2, 2, 4});
		if (op < 4) {
			bool ns = op & 1;
			uint64_t max = ns ? 18446744072ull : 9223372036854774ull;
			wall = clock_value(c, max);
			mono = clock_value(c, max);
			other = clock_value(c, max);
			on = true;
			uint64_t v = op == 0 ? sc_time_ms() : op == 1 ? sc_time_ns() : op == 2 ? sc_time_mono_ms() : sc_time_mono_ns();
			on = false;
			struct timespec t = op < 2 ? wall : mono;
			unsigned __int128 x = (unsigned __int128) t.tv_sec * 1000000000u + (unsigned) t.tv_nsec;
			if (!ns) x /= 1000000;
			static const char *N[] = {"sc_time_ms", "sc_time_ns", "sc_time_mono_ms", "sc_time_mono_ns"};
			c.trace("%s at %ld.%09ld = %lu", N[op], (long) t.tv_sec, t.tv_nsec, (unsigned long) v);
			REQUIRE(c, v == (uint64_t) x, "%s at %ld.%09ld (wall %ld.%09ld, monotonic %ld.%09ld) is %lu, expected %lu", N[op], (long) t.tv_sec, t.tv_nsec,
				(long) wall.tv_sec, wall.tv_nsec, (long) mono.tv_sec, mono.tv_nsec, (unsigned long) v, (unsigned long) x);
			if (t.tv_nsec % 1000000) c.nontrivial();
		} else {
			uint64_t ms = c.chance(1, 4) ? c.u64() : c.chance(1, 3) ? c.draw(3) : c.draw(100000);
			interrupts = c.flip() ? 0 : 1 + (int) c.draw(c.chance(1, 30) ? 300 : 6);
			mono.tv_sec = (time_t) c.draw(100000);
			mono.tv_nsec = (long) c.draw(1000000000);
			int want_int = interrupts;
			cut.clear();
			for (int k = 0; k < 6; k++) cut.push_back(c.chance(1, 6) ? 1000 : c.draw(1000));
			fail_errno = c.chance(1, 8) ? (c.flip() ? EINVAL : EFAULT) : 0;
			int fe = fail_errno;
			slept = 0;
			calls = 0;
			bad_request = false;
			errno = EINTR; // left over from the caller
			on = true;
			int rc = sc_time_sleep(ms);
			int e = errno;
			on = false;
			unsigned __int128 want = (unsigned __int128) ms * 1000000;
			c.trace("sleep %lu ms, %d interruptions%s -> %d", (unsigned long) ms, want_int, fe ? ", failing" : "", rc);
			REQUIRE(c, !bad_request, "a sleep of %lu ms requests an invalid interval", (unsigned long) ms);
			REQUIRE(c, slept <= want, "a sleep of %lu ms slept longer", (unsigned long) ms);
			if (fe && !(rc == 0 && slept == want)) {
				REQUIRE(c, rc < 0 && e == fe, "a failing sleep returns %d, errno %d", rc, e);
			} else {
				REQUIRE(c, rc == 0, "a sleep of %lu ms, interrupted %d times, fails", (unsigned long) ms, want_int);
				REQUIRE(c, slept == want, "a sleep of %lu ms, interrupted %d times, slept %lu ns short", (unsigned long) ms, want_int, (unsigned long) (want - slept));
			}
			if (want_int && ms) c.nontrivial();
			interrupts = fail_errno = 0;
		}
	}
}
