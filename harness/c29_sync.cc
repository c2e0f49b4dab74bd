// C29: threads, mutexes and condition signals. Default build: pthread_* replaced by a simulation in which the
// choice sequence decides every context switch, spurious wakeup and failure. -DSYNC_MT: real threads, TSan.
#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <errno.h>
#include <functional>
#include <map>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <stdlib.h>
#include <thread>
#include <unistd.h>
extern "C" {
#include "sc_cond.h"
#include "sc_mutex.h"
#include "sc_thread.h"
}
using namespace pbt;

// ---- history of one condition, checked against a one-place slot -------------
struct Op {
	bool is_wait, done = false;
	void *data;
	long inv, res;
};
struct Hist {
	std::vector<Op> ops;
	std::set<std::pair<uint64_t, int>> dead;
	bool need_empty;
	bool go(uint64_t mask, int slot)
	{
		// slot: -1 empty, else index of the signal in it
		bool all = true;
		long limit = -1;
		for (size_t i = 0; i < ops.size(); i++) {
			if (mask >> i & 1 || !ops[i].done) continue;
			all = false;
			if (limit < 0 || ops[i].res < limit) limit = ops[i].res;
		}
		if (all && (!need_empty || slot < 0)) return true;
		if (!dead.insert({mask, slot}).second) return false;
		for (size_t i = 0; i < ops.size(); i++) {
			if (mask >> i & 1 || !ops[i].done) continue;
			if (ops[i].inv > limit) continue;
			if (ops[i].is_wait) {
				if (slot >= 0 && ops[(size_t) slot].data == ops[i].data && go(mask | 1ull << i, -1)) return true;
			} else if (go(mask | 1ull << i, (int) i)) {
				return true;
			}
		}
		return false;
	}
	bool ok(bool empty)
	{
		dead.clear();
		need_empty = empty;
		return go(0, -1);
	}
	std::string show()
	{
		std::vector<std::pair<long, std::string>> e;
		char b[80];
		for (size_t i = 0; i < ops.size(); i++) {
			Op &o = ops[i];
			snprintf(b, sizeof b, "%s#%zu begins", o.is_wait ? "wait" : "signal", i);
			e.push_back({o.inv, b});
			if (!o.done) continue;
			snprintf(b, sizeof b, "%s#%zu ends with %p", o.is_wait ? "wait" : "signal", i, o.data);
			e.push_back({o.res, b});
		}
		std::sort(e.begin(), e.end());
		std::string s;
		for (auto &x : e) s += (s.empty() ? "" : ", ") + x.second;
		return s;
	}
};

#ifdef SYNC_MT
// ============================================================================
const HarnessInfo harness_info = {
	"2..5 real threads with random scripts of signals, waits and critical sections over 2 conditions and 2 mutexes, payloads written before "
	"the signal and read after the wait; left over waits are released by the main thread. ThreadSanitizer, a slot model "
	"(linearizability) of each condition, exclusion counters, arguments and results of the threads. Non-trivial: a wait began before its signal.",
	true, 60, 60};

struct Payload { int n; };
static std::atomic<long> tick;
static std::atomic<unsigned> progress, inwait;
static unsigned jit;
static void jitter(unsigned &r)
{
	r = r * 1103515245u + 12345u;
	unsigned k = r >> 24 & jit;
	if (k & 1) sched_yield();
	if ((k & 14) == 14) usleep(20);
}
struct Env {
	struct sc_cond cond[2];
	struct sc_mutex mtx[2];
	long plain[2] = {0, 0};
	int inside[2] = {0, 0};
};
struct Ev { int k; Op o; int payload; };
struct Th {
	struct sc_thread t;
	Env *env;
	std::vector<std::pair<int, int>> script; // op, object
	std::vector<std::unique_ptr<Payload>> pay;
	std::vector<Ev> log;
	unsigned seed;
	long sections[2] = {0, 0};
	bool over = false;
	std::string err;
	int runs = 0;
};
static void *body(void *a)
{
	Th *t = (Th *) a;
	t->runs++;
	unsigned r = t->seed;
	for (auto &s : t->script) {
		jitter(r);
		int k = s.second;
		if (s.first == 0) {
			t->pay.emplace_back(new Payload{(int) r});
			Ev e;
			e.k = k;
			e.payload = (int) r;
			e.o.is_wait = false;
			e.o.data = t->pay.back().get();
			e.o.inv = tick.fetch_add(1, std::memory_order_relaxed);
			sc_cond_signal(&t->env->cond[k], e.o.data);
			e.o.res = tick.fetch_add(1, std::memory_order_relaxed);
			e.o.done = true;
			t->log.push_back(e);
		} else if (s.first == 1) {
			Ev e;
			e.k = k;
			e.o.is_wait = true;
			inwait.fetch_add(1, std::memory_order_relaxed);
			e.o.inv = tick.fetch_add(1, std::memory_order_relaxed);
			e.o.data = sc_cond_wait(&t->env->cond[k]);
			e.o.res = tick.fetch_add(1, std::memory_order_relaxed);
			inwait.fetch_sub(1, std::memory_order_relaxed);
			e.o.done = true;
			e.payload = e.o.data ? ((Payload *) e.o.data)->n : -1;
			t->log.push_back(e);
		} else {
			sc_mutex_lock(&t->env->mtx[k]);
			if (t->env->inside[k]++) t->err = "two threads are inside one mutex";
			long v = t->env->plain[k];
			jitter(r);
			t->env->plain[k] = v + 1;
			t->env->inside[k]--;
			sc_mutex_unlock(&t->env->mtx[k]);
			t->sections[k]++;
		}
		progress.fetch_add(1, std::memory_order_relaxed);
	}
	t->over = true;
	progress.fetch_add(1, std::memory_order_relaxed);
	return &t->seed;
}

void run_case(Case &c)
{
	Env env;
	memset(env.cond, 0xa5, sizeof env.cond);
	memset(env.mtx, 0xa5, sizeof env.mtx);
	for (int i = 0; i < 2; i++) {
		REQUIRE(c, sc_cond_init(&env.cond[i]) == 0, "sc_cond_init fails");
		REQUIRE(c, sc_mutex_init(&env.mtx[i]) == 0, "sc_mutex_init fails");
	}
	size_t n = 2 + c.draw(4);
	std::vector<std::unique_ptr<Th>> th;
	tick = 0;
	progress = 0;
	inwait = 0;
	jit = (unsigned) c.draw(16);
	size_t waits = 0, finished = 0;
	for (size_t i = 0; i < n; i++) {
		th.emplace_back(new Th);
		Th &t = *th.back();
		t.env = &env;
		t.seed = (unsigned) c.draw(1u << 30);
		size_t k = 1 + c.draw(i == 0 ? 12 : 7);
		for (size_t j = 0; j < k; j++) {
			int op = (int) c.weighted({4, 3, 3});
			t.script.push_back({op, (int) c.draw(op == 2 ? 2 : 4) == 1});
			waits += op == 1;
		}
		std::string s;
		for (auto &x : t.script) s += std::string(" ") + (x.first == 0 ? "signal" : x.first == 1 ? "wait" : "section") + std::to_string(x.second);
		c.trace("thread %zu:%s", i, s.c_str());
	}
	for (auto &t : th) {
		memset(&t->t, 0xa5, sizeof t->t);
		sc_thread_init(&t->t);
		REQUIRE(c, sc_thread_start(&t->t, body, t.get()) == 0, "starting a thread fails");
	}
	// release waits nobody signals
	size_t expected = 0;
	for (auto &t : th) expected += t->script.size() + 1;
	static Payload left{77};
	std::vector<Ev> drain;
	unsigned last = ~0u, still = 0;
	size_t limit = 0;
	while (progress.load(std::memory_order_relaxed) < expected) {
		unsigned p = progress.load(std::memory_order_relaxed);
		usleep(100);
		if (p != last) { last = p; still = 0; continue; }
		if (++still < 8) continue;
		still = 0;
		if (++limit > 3000) c.fail("threads are stuck: %u of %zu steps done", p, expected);
		if (drain.size() > 24) { usleep(1000); continue; }
		for (int k = 0; k < 2; k++) {
			Ev e;
			e.k = k;
			e.payload = 77;
			e.o.is_wait = false;
			e.o.data = &left;
			e.o.inv = tick.fetch_add(1, std::memory_order_relaxed);
			sc_cond_signal(&env.cond[k], &left);
			e.o.res = tick.fetch_add(1, std::memory_order_relaxed);
			e.o.done = true;
			drain.push_back(e);
		}
	}
	(void) finished;
	for (size_t i = 0; i < n; i++) {
		Th &t = *th[i];
		void *ret = nullptr;
		REQUIRE(c, sc_thread_join(&t.t, &ret) == 0, "joining fails: %s", sc_thread_err(&t.t));
		REQUIRE(c, t.over, "joining returned before the thread finished");
		REQUIRE(c, ret == &t.seed, "joining returned the wrong result");
		REQUIRE(c, t.runs == 1, "the thread function ran %d times", t.runs);
		REQUIRE(c, t.err.empty(), "%s", t.err.c_str());
		REQUIRE(c, sc_thread_term(&t.t) == 0, "terminating a joined thread fails");
	}
	for (int k = 0; k < 2; k++) {
		long want = 0;
		for (auto &t : th) want += t->sections[k];
		REQUIRE(c, env.plain[k] == want, "%ld critical sections counted %ld", want, env.plain[k]);
		Hist h;
		bool early = false;
		std::map<void *, int> content;
		content[&left] = 77;
		for (auto &t : th) for (auto &e : t->log) if (!e.o.is_wait) content[e.o.data] = e.payload;
		for (auto &t : th)
			for (auto &e : t->log) {
				if (e.k != k) continue;
				h.ops.push_back(e.o);
				if (e.o.is_wait) {
					REQUIRE(c, content.count(e.o.data), "a wait received %p, which nobody signalled", e.o.data);
					REQUIRE(c, content[e.o.data] == e.payload, "a wait saw stale data behind its pointer");
				}
			}
		for (auto &e : drain) if (e.k == k) h.ops.push_back(e.o);
		for (auto &w : h.ops) for (auto &s : h.ops) if (w.is_wait && !s.is_wait && w.data == s.data && w.inv < s.inv) early = true;
		if (h.ops.size() <= 60) REQUIRE(c, h.ok(false), "signals and waits do not match: %s", h.show().c_str());
		if (early) c.nontrivial();
		REQUIRE(c, sc_cond_term(&env.cond[k]) == 0, "sc_cond_term fails");
		REQUIRE(c, sc_cond_term(&env.cond[k]) == 0, "a second sc_cond_term fails");
		REQUIRE(c, sc_mutex_term(&env.mtx[k]) == 0, "sc_mutex_term fails");
	}
}

#else
// ============================================================================
#include <ucontext.h>
#include <sanitizer/common_interface_defs.h>

const HarnessInfo harness_info = {
	"2..5 simulated threads with random scripts of signals, waits, nested critical sections, thread starts and joins over 2 conditions and "
	"3 mutexes; the choice sequence decides each context switch, spurious wakeup, which waiter a signal wakes, and failures of the "
	"primitives. Oracles: slot model (linearizability) of each condition incl. its final state, exclusion, thread results, balanced "
	"initialisation. Non-trivial: a waiter blocked or two threads contended."};

enum St { READY, ON_MUTEX, ON_COND, ON_JOIN, DONE };
struct Task {
	ucontext_t ctx;
	char *stack;
	St st = READY;
	const void *on = nullptr;
	std::function<void()> fn;
	void *ret = nullptr;
	bool joined = false, spurious = false;
	unsigned long id;
};
static const size_t STACK = 128 << 10;
static Case *C;
static std::vector<std::unique_ptr<Task>> tasks;
static Task *cur;
static ucontext_t sched_ctx;
static std::vector<char *> stacks;
static bool sim; // wrappers active
static unsigned contended, spurious_left;

struct Mtx { bool live = true; Task *owner = nullptr; };
static std::map<const void *, Mtx> mtxs;
static std::map<const void *, bool> conds;
static int attrs, tattrs;
static int fail_where, fail_code; // 1 mutexattr_init 2 mutex_init 3 cond_init 4 mutex_destroy 5 cond_destroy 6 attr_init 7 create 8 join
static int fail_skip;
static bool fail_hit;

static bool inject(int where)
{
	if (fail_where != where || fail_hit) return false;
	if (fail_skip-- > 0) return false;
	fail_hit = true;
	return true;
}
static const void *sched_bottom;
static size_t sched_size;
static void to_sched()
{
	Task *me = cur;
	void *fake;
	__sanitizer_start_switch_fiber(me->st == DONE ? nullptr : &fake, sched_bottom, sched_size);
	swapcontext(&me->ctx, &sched_ctx);
	__sanitizer_finish_switch_fiber(fake, &sched_bottom, &sched_size);
}
static void yield() { if (sim && cur) to_sched(); }
static void entry()
{
	__sanitizer_finish_switch_fiber(nullptr, &sched_bottom, &sched_size);
	cur->fn();
	cur->st = DONE;
	for (auto &t : tasks) if (t->st == ON_JOIN && t->on == cur) t->st = READY;
	to_sched();
}
static Task *spawn(std::function<void()> f)
{
	auto t = std::make_unique<Task>();
	if (!stacks.empty()) { t->stack = stacks.back(); stacks.pop_back(); }
	else t->stack = (char *) malloc(STACK);
	t->fn = std::move(f);
	t->id = 1000 + tasks.size();
	getcontext(&t->ctx);
	t->ctx.uc_stack.ss_sp = t->stack;
	t->ctx.uc_stack.ss_size = STACK;
	t->ctx.uc_link = nullptr;
	makecontext(&t->ctx, entry, 0);
	tasks.push_back(std::move(t));
	return tasks.back().get();
}
static void run_until_quiet()
{
	for (size_t step = 0;; step++) {
		if (step > 20000) C->fail("the threads never come to rest");
		std::vector<Task *> r;
		if (cur && cur->st == READY) r.push_back(cur);
		for (auto &t : tasks) {
			if (t->st == READY && t.get() != cur) r.push_back(t.get());
		}
		if (spurious_left && C->chance(1, 12)) { // spurious wakeup
			for (auto &t : tasks)
				if (t->st == ON_COND) { t->st = READY; spurious_left--; r.push_back(t.get()); break; }
		}
		if (r.empty()) break;
		cur = r[r.size() == 1 ? 0 : C->draw(r.size())];
		void *fake;
		__sanitizer_start_switch_fiber(&fake, cur->stack, STACK);
		swapcontext(&sched_ctx, &cur->ctx);
		__sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
	}
	cur = nullptr;
}

static Mtx &mtx_of(const void *m, const char *what)
{
	auto it = mtxs.find(m);
	if (it == mtxs.end()) C->fail("%s on a mutex that was never initialised", what);
	if (!it->second.live) C->fail("%s on a destroyed mutex", what);
	return it->second;
}
static void take(const void *m, const char *what)
{
	for (;;) {
		Mtx &x = mtx_of(m, what);
		if (!x.owner) { x.owner = cur; return; }
		if (x.owner == cur) C->fail("%s: the thread already holds the mutex", what);
		contended++;
		cur->st = ON_MUTEX;
		cur->on = m;
		to_sched();
	}
}
static void drop(const void *m, const char *what)
{
	Mtx &x = mtx_of(m, what);
	if (x.owner != cur) C->fail("%s on a mutex that the thread does not hold", what);
	x.owner = nullptr;
	for (auto &t : tasks) if (t->st == ON_MUTEX && t->on == m) t->st = READY;
}
static void cond_of(const void *k, const char *what)
{
	auto it = conds.find(k);
	if (it == conds.end()) C->fail("%s on a condition that was never initialised", what);
	if (!it->second) C->fail("%s on a destroyed condition", what);
}
static pthread_t last_id;

extern "C" {
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	if (!sim) return __real_pthread_mutex_init(m, a);
	if (inject(2)) return fail_code;
	auto it = mtxs.find(m);
	if (it != mtxs.end() && it->second.live) C->fail("a live mutex is initialised again");
	memset(m, 0x5a, sizeof *m);
	mtxs[m] = Mtx();
	return 0;
}
int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
	if (!sim) return __real_pthread_mutex_destroy(m);
	Mtx &x = mtx_of(m, "destroy");
	if (x.owner) return EBUSY;
	if (inject(4)) { x.live = false; return fail_code; }
	x.live = false;
	return 0;
}
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	if (!sim || !cur) return __real_pthread_mutex_lock(m);
	yield();
	take(m, "lock");
	return 0;
}
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
	if (!sim || !cur) return __real_pthread_mutex_trylock(m);
	yield();
	Mtx &x = mtx_of(m, "trylock");
	if (x.owner) return EBUSY;
	x.owner = cur;
	return 0;
}
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (!sim || !cur) return __real_pthread_mutex_unlock(m);
	drop(m, "unlock");
	yield();
	return 0;
}
int __real_pthread_mutexattr_init(pthread_mutexattr_t *);
int __wrap_pthread_mutexattr_init(pthread_mutexattr_t *a)
{
	if (sim && inject(1)) return fail_code;
	if (sim) attrs++;
	return __real_pthread_mutexattr_init(a);
}
int __real_pthread_mutexattr_destroy(pthread_mutexattr_t *);
int __wrap_pthread_mutexattr_destroy(pthread_mutexattr_t *a)
{
	if (sim) attrs--;
	return __real_pthread_mutexattr_destroy(a);
}
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);
int __wrap_pthread_cond_init(pthread_cond_t *k, const pthread_condattr_t *a)
{
	if (!sim) return __real_pthread_cond_init(k, a);
	if (inject(3)) return fail_code;
	if (conds.count(k) && conds[k]) C->fail("a live condition is initialised again");
	conds[k] = true;
	return 0;
}
int __real_pthread_cond_destroy(pthread_cond_t *);
int __wrap_pthread_cond_destroy(pthread_cond_t *k)
{
	if (!sim) return __real_pthread_cond_destroy(k);
	cond_of(k, "destroy");
	conds[k] = false;
	if (inject(5)) return fail_code;
	return 0;
}
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __wrap_pthread_cond_wait(pthread_cond_t *k, pthread_mutex_t *m)
{
	if (!sim || !cur) return __real_pthread_cond_wait(k, m);
	cond_of(k, "wait");
	drop(m, "cond_wait");
	contended++;
	cur->st = ON_COND;
	cur->on = k;
	to_sched();
	take(m, "cond_wait");
	return 0;
}
int __real_pthread_cond_signal(pthread_cond_t *);
int __wrap_pthread_cond_signal(pthread_cond_t *k)
{
	if (!sim || !cur) return __real_pthread_cond_signal(k);
	yield();
	cond_of(k, "signal");
	std::vector<Task *> w;
	for (auto &t : tasks) if (t->st == ON_COND && t->on == k) w.push_back(t.get());
	if (!w.empty()) w[w.size() == 1 ? 0 : C->draw(w.size())]->st = READY;
	yield();
	return 0;
}
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __wrap_pthread_cond_broadcast(pthread_cond_t *k)
{
	if (!sim || !cur) return __real_pthread_cond_broadcast(k);
	yield();
	cond_of(k, "broadcast");
	for (auto &t : tasks) if (t->st == ON_COND && t->on == k) t->st = READY;
	yield();
	return 0;
}
int __real_pthread_attr_init(pthread_attr_t *);
int __wrap_pthread_attr_init(pthread_attr_t *a)
{
	if (sim && inject(6)) return fail_code;
	if (sim) tattrs++;
	return __real_pthread_attr_init(a);
}
int __real_pthread_attr_destroy(pthread_attr_t *);
int __wrap_pthread_attr_destroy(pthread_attr_t *a)
{
	if (sim) tattrs--;
	return __real_pthread_attr_destroy(a);
}
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *id, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	if (!sim) return __real_pthread_create(id, a, fn, arg);
	if (inject(7)) { *id = (pthread_t) 0xdead0000; return fail_code; } // contents are undefined on failure
	int det = PTHREAD_CREATE_JOINABLE;
	if (a) pthread_attr_getdetachstate(a, &det);
	if (det != PTHREAD_CREATE_JOINABLE) C->fail("the thread is created detached");
	yield();
	Task *t = spawn(nullptr);
	t->fn = [t, fn, arg] { t->ret = fn(arg); };
	last_id = *id = (pthread_t) t->id;
	yield();
	return 0;
}
int __real_pthread_join(pthread_t, void **);
int __wrap_pthread_join(pthread_t id, void **ret)
{
	if (!sim) return __real_pthread_join(id, ret);
	if (inject(8)) return fail_code;
	Task *t = nullptr;
	for (auto &x : tasks) if (x->id == (unsigned long) id) t = x.get();
	if (!t || t->joined) C->fail("joining a thread that does not exist (any more)");
	if (t == cur) return EDEADLK;
	t->joined = true;
	yield();
	while (t->st != DONE) {
		cur->st = ON_JOIN;
		cur->on = t;
		contended++;
		to_sched();
	}
	if (ret) *ret = t->ret;
	return 0;
}
}

struct Step { int op, k, k2, n; };
struct World {
	struct sc_cond cond[2];
	struct sc_mutex mtx[3];
	Hist h[2];
	long tick = 0;
	int inside[3] = {0, 0, 0};
	long plain[3] = {0, 0, 0}, sections[3] = {0, 0, 0};
	unsigned datas = 0;
};
static World *W;

static void do_signal(int k, void *d)
{
	Op o;
	o.is_wait = false;
	o.data = d;
	o.inv = W->tick++;
	size_t i = W->h[k].ops.size();
	W->h[k].ops.push_back(o);
	sc_cond_signal(&W->cond[k], d);
	W->h[k].ops[i].res = W->tick++;
	W->h[k].ops[i].done = true;
}
static void do_wait(int k)
{
	Op o;
	o.is_wait = true;
	o.inv = W->tick++;
	size_t i = W->h[k].ops.size();
	W->h[k].ops.push_back(o);
	void *d = sc_cond_wait(&W->cond[k]);
	W->h[k].ops[i].data = d;
	W->h[k].ops[i].res = W->tick++;
	W->h[k].ops[i].done = true;
}
static void section(int m, int m2)
{
	sc_mutex_lock(&W->mtx[m]);
	if (W->inside[m]++) C->fail("two threads are inside mutex %d", m);
	long v = W->plain[m];
	if (m2 > m) section(m2, 0);
	yield();
	W->plain[m] = v + 1;
	W->sections[m]++;
	W->inside[m]--;
	sc_mutex_unlock(&W->mtx[m]);
}
struct Kid {
	struct sc_thread t;
	std::vector<Step> script;
	int runs = 0;
	bool over = false;
	void *ret;
	int started = 0;
	pthread_t id = 0;
};
static void steps(const std::vector<Step> &s)
{
	for (auto &x : s) {
		switch (x.op) {
		case 0: do_signal(x.k, x.n == 0 ? nullptr : (void *) (uintptr_t) (x.n == 1 ? 0x10 : 0x1000 + W->datas++)); break;
		case 1: do_wait(x.k); break;
		case 2: section(x.k, x.k2); break;
		default: yield(); break;
		}
	}
}
static void *kid_fn(void *a)
{
	Kid *k = (Kid *) a;
	k->runs++;
	k->over = false;
	steps(k->script);
	k->over = true;
	return k->ret;
}
static void start_kid(Kid &k)
{
	bool f = C->chance(1, 6);
	if (f) {
		fail_where = C->flip() ? 6 : 7;
		fail_code = fail_where == 6 ? ENOMEM : C->flip() ? EAGAIN : EPERM;
		fail_skip = 0;
		fail_hit = false;
		int rc = sc_thread_start(&k.t, kid_fn, &k);
		fail_where = 0;
		if (fail_hit) {
			C->trace("start fails (%s)", strerror(fail_code));
			REQUIRE(*C, rc == -1, "a thread that could not be created: sc_thread_start() returns %d", rc);
			REQUIRE(*C, !strcmp(sc_thread_err(&k.t), strerror(fail_code)), "the message is '%s', the system reported '%s'", sc_thread_err(&k.t), strerror(fail_code));
			REQUIRE(*C, k.runs == k.started, "the function of a thread that could not be created runs");
			void *r = (void *) 1;
			if (C->flip()) REQUIRE(*C, sc_thread_join(&k.t, &r) == 0 && !r, "joining a thread that never started fails");
			if (C->flip()) REQUIRE(*C, sc_thread_term(&k.t) == 0, "terminating a thread that never started fails");
		} else {
			k.started++;
			REQUIRE(*C, rc == 0, "starting fails");
			k.id = last_id;
			return;
		}
	}
	REQUIRE(*C, sc_thread_start(&k.t, kid_fn, &k) == 0, "starting a thread fails: %s", sc_thread_err(&k.t));
	k.started++;
	k.id = last_id;
}
static void join_kid(Kid &k)
{
	void *r = (void *) 0x77;
	bool with = C->chance(2, 3);
	int how = (int) C->draw(3);
	if (C->chance(1, 12)) {
		fail_where = 8;
		fail_code = C->flip() ? EINVAL : EDEADLK;
		fail_skip = 0;
		fail_hit = false;
		int rc = sc_thread_join(&k.t, with ? &r : nullptr);
		fail_where = 0;
		if (fail_hit) {
			REQUIRE(*C, rc == -1, "a failed join returns %d", rc);
			REQUIRE(*C, !strcmp(sc_thread_err(&k.t), strerror(fail_code)), "a failed join leaves the message '%s'", sc_thread_err(&k.t));
			// the thread is still there: wait for it outside the library
			pthread_join(k.id, nullptr);
			return;
		}
	} else if (how == 2) {
		int rc = sc_thread_term(&k.t);
		REQUIRE(*C, rc == 0, "terminating fails");
		with = false;
	} else {
		int rc = sc_thread_join(&k.t, with ? &r : nullptr);
		REQUIRE(*C, rc == 0, "joining fails: %s", sc_thread_err(&k.t));
	}
	REQUIRE(*C, k.runs == k.started && k.over, "joining returned although the thread %s", k.runs == k.started ? "has not finished" : "never ran");
	if (with) REQUIRE(*C, r == k.ret, "joining returned the result %p, the thread returned %p", r, k.ret);
	if (C->chance(1, 3)) {
		r = (void *) 1;
		REQUIRE(*C, sc_thread_join(&k.t, &r) == 0 && !r, "joining twice fails");
	}
	if (C->chance(1, 3)) REQUIRE(*C, sc_thread_term(&k.t) == 0, "terminating a joined thread fails");
}

static size_t live_count()
{
	size_t n = 0;
	for (auto &m : mtxs) n += m.second.live;
	for (auto &k : conds) n += k.second;
	return n;
}

void run_case(Case &c)
{
	C = &c;
	sim = true;
	cur = nullptr;
	tasks.clear();
	mtxs.clear();
	conds.clear();
	attrs = tattrs = 0;
	fail_where = 0;
	contended = 0;
	spurious_left = (unsigned) c.draw(6);
	World w;
	W = &w;
	memset(w.cond, 0xa5, sizeof w.cond);
	memset(w.mtx, 0xa5, sizeof w.mtx);
	if (c.chance(1, 6)) { // failing initialisation and termination
		int what = 1 + (int) c.draw(5);
		bool cond = what == 3 || what == 5 || c.flip();
		fail_where = what;
		fail_code = what < 4 ? (c.flip() ? ENOMEM : EAGAIN) : EBUSY;
		fail_skip = 0;
		fail_hit = false;
		errno = 0;
		int rc = cond ? sc_cond_init(&w.cond[0]) : sc_mutex_init(&w.mtx[0]);
		c.trace("%s, primitive %d fails: init %d", cond ? "condition" : "mutex", what, rc);
		if (fail_hit) {
			int e = errno;
			REQUIRE(c, cond ? rc < 0 : rc == -1, "a failed initialisation returns %d", rc);
			if (cond) REQUIRE(c, e == fail_code, "a failed initialisation sets errno to %d, the system reported %d", e, fail_code);
			REQUIRE(c, live_count() == 0 && attrs == 0, "a failed initialisation leaves objects behind");
			if (cond) REQUIRE(c, sc_cond_term(&w.cond[0]) == 0, "terminating after a failed initialisation fails");
		} else {
			REQUIRE(c, rc == 0, "initialisation fails");
			errno = 0;
			rc = cond ? sc_cond_term(&w.cond[0]) : sc_mutex_term(&w.mtx[0]);
			int e = errno;
			if (fail_hit) {
				REQUIRE(c, cond ? rc < 0 : rc == -1, "a failed termination returns %d", rc);
				if (cond) REQUIRE(c, e == fail_code, "a failed termination sets errno to %d", e);
			} else {
				REQUIRE(c, rc == 0, "termination fails");
			}
			REQUIRE(c, live_count() == 0 && attrs == 0, "termination leaves objects behind");
			if (cond) REQUIRE(c, sc_cond_term(&w.cond[0]) == 0, "terminating twice fails");
		}
		fail_where = 0;
		mtxs.clear();
		conds.clear();
	}
	for (auto &k : w.cond) REQUIRE(c, sc_cond_init(&k) == 0, "sc_cond_init fails");
	for (auto &m : w.mtx) REQUIRE(c, sc_mutex_init(&m) == 0, "sc_mutex_init fails");
	REQUIRE(c, attrs == 0, "attributes are left behind");
	REQUIRE(c, live_count() == 7, "%zu objects for 2 conditions and 3 mutexes", live_count());
	size_t n = 1 + c.draw(5);
	std::vector<Kid> kids(n);
	size_t ops = 0;
	auto script = [&](size_t max) {
		std::vector<Step> s;
		size_t k = c.draw(max + 1);
		std::string t;
		for (size_t i = 0; i < k && ops < 40; i++, ops++) {
			Step x;
			x.op = (int) c.weighted({5, 4, 3, 1});
			x.k = (int) c.draw(x.op == 2 ? 3 : 4);
			if (x.op != 2) x.k = x.k == 1;
			x.k2 = x.op == 2 ? (int) c.draw(3) : 0;
			x.n = x.op == 0 ? (int) c.draw(8) : 0;
			static const char *N[] = {"signal", "wait", "section", "yield"};
			t += std::string(" ") + N[x.op] + std::to_string(x.k);
			s.push_back(x);
		}
		c.trace("script:%s", t.c_str());
		return s;
	};
	for (auto &k : kids) {
		memset(&k.t, 0xa5, sizeof k.t);
		sc_thread_init(&k.t);
		if (c.chance(1, 8)) {
			void *r = (void *) 1;
			REQUIRE(c, sc_thread_join(&k.t, &r) == 0 && !r, "joining a thread that never started fails");
			REQUIRE(c, sc_thread_term(&k.t) == 0, "terminating a thread that never started fails");
		}
		k.script = script(6);
		k.ret = (void *) (uintptr_t) (c.chance(1, 6) ? 0 : 0x5000 + (&k - kids.data()));
	}
	std::vector<Step> mine = script(4);
	bool again = c.chance(1, 5);
	bool root_done = false;
	spawn([&] {
		for (auto &k : kids) start_kid(k);
		steps(mine);
		for (auto &k : kids) join_kid(k);
		if (again) {
			start_kid(kids[0]);
			join_kid(kids[0]);
		}
		root_done = true;
	})->joined = true;
	size_t rounds = 0;
	for (;;) {
		run_until_quiet();
		bool waiting[2] = {false, false};
		for (int k = 0; k < 2; k++) {
			for (auto &o : w.h[k].ops) {
				if (o.done) continue;
				REQUIRE(c, o.is_wait, "a signal never returns: %s", w.h[k].show().c_str());
				waiting[k] = true;
			}
			if (w.h[k].ops.size() <= 60)
				REQUIRE(c, w.h[k].ok(waiting[k]), "%s: %s", w.h[k].ok(false) ? "a waiter is left sleeping although a signal was given" : "signals and waits do not match",
					w.h[k].show().c_str());
		}
		bool all = true;
		for (auto &t : tasks) all &= t->st == DONE;
		if (all) break;
		REQUIRE(c, waiting[0] || waiting[1], "the threads are deadlocked");
		REQUIRE(c, ++rounds < 100, "threads never finish");
		int k = waiting[0] ? 0 : 1;
		spawn([k] { do_signal(k, (void *) (uintptr_t) 0x77); })->joined = true;
	}
	REQUIRE(c, root_done, "the threads are deadlocked");
	for (int m = 0; m < 3; m++) REQUIRE(c, w.plain[m] == w.sections[m] && !w.inside[m], "%ld critical sections counted %ld", w.sections[m], w.plain[m]);
	for (auto &k : kids) REQUIRE(c, k.runs == k.started && k.over, "a thread function ran %d times for %d starts", k.runs, k.started);
	for (auto &k : w.cond) REQUIRE(c, sc_cond_term(&k) == 0, "sc_cond_term fails");
	for (auto &m : w.mtx) REQUIRE(c, sc_mutex_term(&m) == 0, "sc_mutex_term fails");
	REQUIRE(c, live_count() == 0 && attrs == 0 && tattrs == 0, "objects are left behind");
	for (auto &t : tasks) stacks.push_back(t->stack);
	sim = false;
	if (contended) c.nontrivial();
}
#endif
