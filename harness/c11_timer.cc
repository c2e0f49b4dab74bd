// C11: timers fire exactly once, never early, never lost. -DOOM_CASES: allocation failures (C10).
#include "pbt.h"
#include <algorithm>
#include <climits>
extern "C" {
#include "sc_timer.h"
}
using namespace pbt;

#ifdef OOM_CASES
#define OOM 1
#else
#define OOM 0
#endif

const HarnessInfo harness_info = {
	"histories of 1..120 steps on a timer started at any clock value: adds (delay 0..2^40, clustered on slots so that slots overflow), "
	"cancels, clock advances of 0, part of a tick, one tick, several ticks, a full turn, or a huge jump, or exactly the suggested wait "
	"plus an overshoot; callbacks add and cancel timers; clear and term; non-trivial: at least 3 timers fired and the wheel grew or a "
	"callback added or cancelled a timer"
#ifdef OOM_CASES
	", and an allocation failure was injected"
#endif
};

static const uint64_t TICK = 16;

struct T {
	uint64_t due, type, id, want_slots, slots0;
	uint64_t since_due = 0;
	enum { LIVE, FIRED, GONE } st = LIVE;
	bool capped = false;
};

struct Ctx {
	Case *c;
	struct sc_timer t;
	std::vector<T> v;
	uint64_t now, base; // base: clock value at the last processed advance
	uint64_t slots = 0;
	int depth = 0;
	unsigned fired = 0, cb_ops = 0, budget = 0;
	bool limited = false, idle = false; // idle: the last advance suggested no wait at all
};

static bool do_add(Ctx &x, uint64_t delay)
{
	Case &c = *x.c;
	T n;
	n.type = c.chance(1, 3) ? c.u64() : x.v.size();
	long f0 = pbt_alloc_failed;
	long n0 = pbt_alloc_count;
	{
		Alloc a;
		n.id = sc_timer_add(&x.t, delay, n.type, (void *) (x.v.size() + 1));
	}
	c.trace("%sadd #%zu delay %llu -> id %llx", x.depth ? "  (callback) " : "", x.v.size(), (unsigned long long) delay, (unsigned long long) n.id);
	if (n.id == SC_TIMER_INVALID) {
#ifdef SC_TIMER_MAX
		size_t live = 0;
		for (auto &o : x.v) live += o.st == T::LIVE;
		if (pbt_alloc_failed == f0) {
			REQUIRE(c, live >= SC_TIMER_MAX / 2, "add failed with %zu timers pending although no allocation failed", live);
			c.label("limit reached");
			x.limited = true;
			return false;
		}
#endif
		REQUIRE(c, pbt_alloc_failed > f0, "add failed although no allocation failed");
		c.label("oom");
		return false;
	}
	REQUIRE(c, pbt_alloc_failed == f0, "allocation failed but add succeeded");
	if (pbt_alloc_count > n0 && !x.v.empty()) c.label("grew");
	n.due = x.now + delay;
	n.want_slots = (delay + (x.now - x.base)) / TICK + 2;
	n.slots0 = x.slots;
	for (auto &o : x.v)
		if (o.st == T::LIVE) REQUIRE(c, o.id != n.id, "two pending timers share the handle %llx", (unsigned long long) n.id);
	x.v.push_back(n);
	if (x.depth) x.cb_ops++;
	return true;
}

static void do_cancel(Ctx &x)
{
	Case &c = *x.c;
	std::vector<size_t> live;
	for (size_t i = 0; i < x.v.size(); i++)
		if (x.v[i].st == T::LIVE) live.push_back(i);
	if (live.empty()) {
		uint64_t id = SC_TIMER_INVALID;
		sc_timer_cancel(&x.t, &id);
		return;
	}
	size_t i = live[c.draw(live.size())];
	c.trace("%scancel #%zu", x.depth ? "  (callback) " : "", i);
	uint64_t id = x.v[i].id;
	sc_timer_cancel(&x.t, &id);
	REQUIRE(c, id == SC_TIMER_INVALID, "cancel leaves the handle %llx", (unsigned long long) id);
	sc_timer_cancel(&x.t, &id); // an invalid handle is ignored
	x.v[i].st = T::GONE;
	if (x.depth) x.cb_ops++;
}

static uint64_t delay(Ctx &x)
{
	Case &c = *x.c;
	switch (c.weighted({4, 4, 3, 2, 1})) {
	case 0: return c.draw(300);
	case 1: return 16 * c.draw(4) + c.draw(2);
	case 2: return 256 * c.draw(6) + c.draw(40);
	case 3: return c.draw(20000);
	default: return c.ubits() & ((1ull << 40) - 1);
	}
}

static void on_timeout(void *arg, uint64_t timeout, uint64_t type, void *data)
{
	Ctx &x = *(Ctx *) arg;
	Case &c = *x.c;
	size_t i = (size_t) data - 1;
	REQUIRE(c, i < x.v.size(), "callback with data %p that was never added", data);
	T &t = x.v[i];
	c.trace("  fires #%zu (due %llu, now %llu)", i, (unsigned long long) t.due, (unsigned long long) x.now);
	REQUIRE(c, t.st == T::LIVE, "timer #%zu fires although it was %s", i, t.st == T::FIRED ? "fired before" : "cancelled");
	REQUIRE(c, t.due <= x.now, "timer #%zu fires at %llu, it is due at %llu", i, (unsigned long long) x.now, (unsigned long long) t.due);
	REQUIRE(c, timeout == t.due, "timer #%zu reports timeout %llu, expected %llu", i, (unsigned long long) timeout, (unsigned long long) t.due);
	REQUIRE(c, type == t.type, "timer #%zu reports type %llx, expected %llx", i, (unsigned long long) type, (unsigned long long) t.type);
	t.st = T::FIRED;
	x.fired++;
	if (x.budget && c.chance(1, 4)) {
		x.budget--;
		x.depth++;
		size_t n = 1 + c.draw(c.chance(1, 6) ? 12 : 2);
		uint64_t d = delay(x);
		for (size_t k = 0; k < n; k++) {
			if (c.chance(1, 4)) do_cancel(x);
			else do_add(x, c.flip() ? d : delay(x));
		}
		x.depth--;
	}
}

static uint64_t advance(Ctx &x, uint64_t now)
{
	Case &c = *x.c;
	REQUIRE(c, now >= x.now, "harness: clock went backwards");
	bool moved = now != x.now;
	x.now = now;
	uint64_t d = now - x.base, s = d / TICK;
	if (s) {
		x.base = now;
		x.slots += s;
	}
	c.trace("advance to %llu (%llu ticks)", (unsigned long long) now, (unsigned long long) s);
	x.depth = 0;
	for (auto &t : x.v) {
		if (t.st != T::LIVE) continue;
		if (s > 16) t.capped = true;
		if (s && t.due <= now) t.since_due += s;
	}
	size_t n = x.v.size();
	uint64_t r;
	{
		Alloc a;
		int on = pbt_alloc_on;
		pbt_alloc_on = 0;
		r = sc_timer_timeout(&x.t, now, &x, on_timeout);
		pbt_alloc_on = on;
	}
	REQUIRE(c, r <= TICK, "suggested wait is %llu, the tick is %llu", (unsigned long long) r, (unsigned long long) TICK);
	REQUIRE(c, moved || r || !x.idle, "no wait is suggested again and again: the clock does not get anywhere");
	x.idle = r == 0;
	for (size_t i = 0; i < n; i++) {
		T &t = x.v[i];
		if (t.st != T::LIVE) continue;
		REQUIRE(c, t.capped || x.slots - t.slots0 < t.want_slots, "timer #%zu due at %llu has not fired at %llu (%llu ticks after it was added)", i,
			(unsigned long long) t.due, (unsigned long long) now, (unsigned long long) (x.slots - t.slots0));
		REQUIRE(c, t.since_due < 17, "timer #%zu due at %llu has not fired at %llu, %llu ticks later", i, (unsigned long long) t.due,
			(unsigned long long) now, (unsigned long long) t.since_due);
	}
	return r;
}

// one slot with very many timers: handles must stay distinct and each cancel must hit its own timer
struct Crowd {
	Case *c;
	std::vector<char> st; // 0: pending, 1: cancelled, 2: fired
	uint64_t due, now;
};

static void on_crowd(void *arg, uint64_t timeout, uint64_t type, void *data)
{
	Crowd &w = *(Crowd *) arg;
	Case &c = *w.c;
	size_t i = (size_t) data - 1;
	REQUIRE(c, i < w.st.size() || i >= 2 * w.st.size(), "a cleared timer fires");
	REQUIRE(c, i < w.st.size() && type == i, "callback with wrong data %zu, type %llu", i, (unsigned long long) type);
	REQUIRE(c, w.st[i] == 0, "timer #%zu of %zu fires although it was %s", i, w.st.size(), w.st[i] == 1 ? "cancelled" : "fired before");
	REQUIRE(c, timeout == w.due && w.now >= w.due, "timer #%zu due at %llu fires at %llu as %llu", i, (unsigned long long) w.due,
		(unsigned long long) w.now, (unsigned long long) timeout);
	w.st[i] = 2;
}

static void crowd(Case &c)
{
	struct sc_timer t;
	Crowd w;
	size_t n = c.chance(1, 10) ? 66000 + c.draw(3000) : c.chance(1, 4) ? 1000 + c.draw(5000) : 100 + c.draw(800);
	uint64_t start = c.ubits() >> 2, d = c.draw(500);
	w.c = &c;
	w.due = start + d;
	w.now = start;
	w.st.assign(n, 0);
	std::vector<uint64_t> id(n);
	c.trace("crowd: %zu timers in %llu", n, (unsigned long long) d);
	sc_timer_init(&t, start);
	if (c.chance(1, 3)) {
		bool spread = c.flip();
		c.trace("timers added and cleared before%s", spread ? ", in all slots" : "");
		Alloc a;
		for (size_t i = 0; i < (spread || n < 7000 ? n : 7000); i++) sc_timer_add(&t, spread ? i % (20 * TICK) : d, i, (void *) (n + i + 1));
		sc_timer_clear(&t);
	}
	{
		Alloc a;
		for (size_t i = 0; i < n; i++) {
			id[i] = sc_timer_add(&t, d, i, (void *) (i + 1));
			REQUIRE(c, id[i] != SC_TIMER_INVALID, "add #%zu fails", i);
		}
	}
	std::vector<uint64_t> s = id;
	std::sort(s.begin(), s.end());
	REQUIRE(c, std::adjacent_find(s.begin(), s.end()) == s.end(), "two pending timers share a handle");
	size_t k = c.draw(20);
	for (size_t i = 0; i < k; i++) {
		size_t v = c.flip() ? n - 1 - c.draw(n < 5000 ? n : 5000) : c.draw(n);
		if (w.st[v]) continue;
		c.trace("cancel #%zu", v);
		sc_timer_cancel(&t, &id[v]);
		w.st[v] = 1;
	}
	for (w.now = start; w.now <= w.due + 3 * TICK;) {
		w.now += TICK * (1 + c.draw(3));
		sc_timer_timeout(&t, w.now, &w, on_crowd);
	}
	for (size_t i = 0; i < n; i++) REQUIRE(c, w.st[i] != 0, "timer #%zu of %zu due at %llu has not fired at %llu", i, n,
					       (unsigned long long) w.due, (unsigned long long) w.now);
	{
		Alloc a;
		sc_timer_term(&t);
	}
	REQUIRE(c, pbt_alloc_live == 0, "%ld allocations left after term", pbt_alloc_live);
	c.label(n > 65536 ? "more than 65536 timers in a slot" : "crowded slot");
	c.nontrivial();
}

void run_case(Case &c)
{
	pbt_alloc_reset();
	if (!OOM && c.chance(1, 5000)) {
		crowd(c);
		return;
	}
	Ctx x;
	x.c = &c;
	x.budget = 20;
	switch (c.draw(3)) {
	case 0: x.now = 0; break;
	case 1: x.now = c.draw(100000); break;
	default: x.now = c.u64() >> 2; break;
	}
	x.base = x.now;
	memset(&x.t, 0xd7, sizeof x.t);
	sc_timer_init(&x.t, x.now);
	c.trace("init at %llu", (unsigned long long) x.now);
	size_t steps = 1 + c.draw(120);
	uint64_t wait = TICK;
	int mode = (int) c.draw(3); // 0: mixed steps, 1: follow the suggestion with overshoot, 2: whole ticks
	for (size_t s = 0; s < steps; s++) {
		if (OOM && c.chance(1, 6)) {
			pbt_alloc_fail_at = c.flip() ? (long) c.draw(2) : -1;
			pbt_alloc_fail_sticky = c.flip();
		}
		switch (c.weighted({6, 8, 2, 1, 1})) {
		case 0: {
			uint64_t d = delay(x);
#ifdef SC_TIMER_MAX
			if (c.chance(1, 6)) { // more timers for one moment than a slot may ever hold
				size_t k = 0, most = 2 * SC_TIMER_MAX;
				while (k < most && do_add(x, d)) k++;
				REQUIRE(c, k <= SC_TIMER_MAX, "%zu timers fit into one slot, the limit is %u", k, (unsigned) SC_TIMER_MAX);
				break;
			}
#endif
			size_t n = c.chance(1, 6) ? 1 + c.draw(30) : 1;
			for (size_t k = 0; k < n; k++) do_add(x, c.chance(2, 3) ? d : delay(x));
			break;
		}
		case 1: {
			uint64_t step;
			if (mode == 1 && !c.chance(1, 10)) step = wait + (c.flip() ? c.draw(20) : 0);
			else if (mode == 2) step = 16 * c.weighted({2, 6, 3, 2, 1, 1, 1, 1});
			else switch (c.weighted({2, 4, 4, 3, 2, 1, 1})) {
			case 0: step = 0; break;
			case 1: step = c.draw(16); break;
			case 2: step = 15 + c.draw(4); break;
			case 3: step = c.draw(100); break;
			case 4: step = 240 + c.draw(40); break;
			case 5: step = c.draw(5000); break;
			default: step = c.ubits() & ((1ull << 41) - 1); break;
			}
			wait = advance(x, x.now + step);
			break;
		}
		case 2: do_cancel(x); break;
		case 3:
			if (!c.chance(1, 5)) break;
			c.trace("clear");
			sc_timer_clear(&x.t);
			for (auto &t : x.v)
				if (t.st == T::LIVE) t.st = T::GONE;
			break;
		default:
			if (!c.chance(1, 8)) break;
			c.trace("term and init");
			{
				Alloc a;
				sc_timer_term(&x.t);
			}
			if (c.flip()) {
				sc_timer_init(&x.t, x.now);
				x.base = x.now;
			}
			for (auto &t : x.v)
				if (t.st == T::LIVE) t.st = T::GONE;
		}
	}
	// drive until everything has fired
	pbt_alloc_fail_at = -1;
	x.budget = 0;
	uint64_t last = x.now;
	for (auto &t : x.v)
		if (t.st == T::LIVE) last = std::max(last, t.due);
	if (last - x.now > 100000) advance(x, last - c.draw(100000));
	for (int k = 0; k < 9000; k++) {
		bool live = false;
		for (auto &t : x.v) live |= t.st == T::LIVE;
		if (!live) break;
		advance(x, x.now + (k < 20 ? 16 : 64));
	}
	for (size_t i = 0; i < x.v.size(); i++)
		REQUIRE(c, x.v[i].st != T::LIVE, "timer #%zu never fired", i);
	unsigned before = x.fired;
	advance(x, x.now + 10000);
	REQUIRE(c, before == x.fired, "a timer fired again");
	{
		Alloc a;
		sc_timer_term(&x.t);
	}
	REQUIRE(c, pbt_alloc_live == 0, "%ld allocations left after term", pbt_alloc_live);
	if (x.cb_ops) c.label("callback added or cancelled");
	if (x.fired >= 3 && (x.cb_ops || x.v.size() > 5) && (!OOM || pbt_alloc_failed || x.limited)) c.nontrivial();
}
