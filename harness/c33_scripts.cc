// C33: distinct objects are independent of each other, whatever threads use them.
// -DCFG_ALLOC (C34): all memory goes through the allocators the user configured.
#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <time.h>
#include <thread>
#include <unistd.h>
#include "pbt.h"
extern "C" {
#include "c06_shim.h"
#include "c07_shim.h"
#include "sc_buf.h"
#include "sc_heap.h"
#include "sc_map.h"
#include "sc_sock.h"
#include "sc_str.h"
#include "sc_timer.h"
#include "sc_uri.h"
#ifndef CFG_ALLOC
#include "sc.h"
#include "sc_cond.h"
#include "sc_crc32.h"
#include "sc_ini.h"
#include "sc_list.h"
#include "sc_mmap.h"
#include "sc_mutex.h"
#include "sc_option.h"
#include "sc_signal.h"
#include "sc_time.h"
#endif
}
using namespace pbt;

struct Op {
	unsigned op;
	uint64_t a, b;
	std::string s, t;
};
struct Script {
	int kind;
	uint64_t seed;
	uint64_t big; // how many times more elements per operation
	std::vector<Op> ops;
};
struct Log {
	std::string text;
	void add(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		char b[1024];
		va_list va;
		va_start(va, fmt);
		vsnprintf(b, sizeof b, fmt, va);
		va_end(va);
		text += b;
		text += '\n';
	}
};
// runs another script between two operations (or inside a callback) of this one
static thread_local std::function<void()> nested;
static void NEST()
{
	if (!nested) return;
	auto f = nested;
	nested = nullptr;
	f();
	nested = f;
}
#ifdef CFG_ALLOC
#define LIB(x) do { Alloc al_; x; } while (0)
#else
#define LIB(x) do { x; } while (0)
#endif

static void run_map(const Script &s, Log &l)
{
	struct sc_map_64 m;
	struct sc_map_sv n;
	std::vector<std::unique_ptr<std::string>> keep;
	bool ok1, ok2;
	LIB(ok1 = sc_map_init_64(&m, (uint32_t) (s.seed & 15), 0));
	LIB(ok2 = sc_map_init_sv(&n, (uint32_t) (s.seed >> 4 & 15), 0));
	l.add("%d %d", ok1, ok2);
	for (auto &o : s.ops) {
		NEST();
		uint64_t r = 0;
		void *p = nullptr;
		const char *k = o.s.c_str();
		switch (o.op % 6) {
		case 0:
			for (uint64_t i = 0; i < s.big; i++) LIB(r = sc_map_put_64(&m, (o.a + i) % (64 * s.big), o.b));
			l.add("%d", (int) sc_map_found(&m));
			break;
		case 1: LIB(r = sc_map_get_64(&m, o.a % 64)); l.add("%d", (int) sc_map_found(&m)); break;
		case 2: LIB(r = sc_map_del_64(&m, o.a % 64)); l.add("%d", (int) sc_map_found(&m)); break;
		case 3:
			for (uint64_t i = 1; i < s.big; i++) {
				keep.emplace_back(new std::string(o.s + std::to_string(i)));
				LIB(sc_map_put_sv(&n, keep.back()->c_str(), nullptr));
			}
			keep.emplace_back(new std::string(o.s));
			LIB(p = sc_map_put_sv(&n, keep.back()->c_str(), (void *) (uintptr_t) o.b));
			l.add("%d", (int) sc_map_found(&n));
			break;
		case 4: LIB(p = sc_map_get_sv(&n, k)); l.add("%d", (int) sc_map_found(&n)); break;
		default: LIB(p = sc_map_del_sv(&n, k)); l.add("%d", (int) sc_map_found(&n)); break;
		}
		if (o.op % 97 == 0) LIB(sc_map_clear_64(&m));
		l.add("%llx %llx %u %u", (unsigned long long) r, (unsigned long long) (uintptr_t) p, sc_map_size_64(&m), sc_map_size_sv(&n));
	}
	uint64_t k, v, sum = 0;
	sc_map_foreach (&m, k, v) sum += k * 31 + v;
	l.add("%llx", (unsigned long long) sum);
	LIB(sc_map_term_64(&m));
	LIB(sc_map_term_sv(&n));
}

static void run_buf(const Script &s, Log &l)
{
	struct sc_buf b, d;
	LIB(sc_buf_init(&b, s.seed % 40));
	LIB(sc_buf_init(&d, s.seed % 400));
	for (auto &o : s.ops) {
		NEST();
		switch (o.op % 14) {
		case 0: LIB(sc_buf_put_8(&b, (uint8_t) o.a)); break;
		case 1: LIB(sc_buf_put_32(&b, (uint32_t) o.a)); break;
		case 2: LIB(sc_buf_put_64(&b, o.a)); break;
		case 3: LIB(sc_buf_put_str(&b, o.s.c_str())); break;
		case 4: LIB(sc_buf_put_fmt(&b, "%s-%d", o.s.c_str(), (int) o.a)); break;
		case 5: LIB(sc_buf_put_text(&b, "%s/%s", o.s.c_str(), o.t.c_str())); break;
		case 6: {
			std::string big(o.a % 9000 * std::min<uint64_t>(s.big, 12), 'z');
			LIB(sc_buf_put_raw(&b, big.data(), big.size()));
			break;
		}
		case 7: { uint64_t v; LIB(v = sc_buf_get_32(&b)); l.add("%llx", (unsigned long long) v); break; }
		case 8: { const char *v; LIB(v = sc_buf_get_str(&b)); l.add("%s", v ? v : "(null)"); break; }
		case 9: { uint64_t v; LIB(v = sc_buf_get_64(&b)); l.add("%llx", (unsigned long long) v); break; }
		case 10: LIB(sc_buf_compact(&b)); break;
		case 11: LIB(sc_buf_shrink(&b, o.a % 9000 * (o.b & 1 ? s.big : 1))); break;
		case 12: LIB(sc_buf_move(&d, &b)); break;
		default: LIB(sc_buf_clear(o.a & 1 ? &b : &d)); break;
		}
		uint64_t h = 0;
		for (uint64_t i = 0; sc_buf_valid(&b) && i < sc_buf_size(&b); i++) h = h * 131 + ((unsigned char *) sc_buf_rbuf(&b))[i];
		l.add("%llu %llu %d %llx", (unsigned long long) sc_buf_size(&b), (unsigned long long) sc_buf_size(&d), sc_buf_valid(&b),
		      (unsigned long long) h);
	}
	LIB(sc_buf_term(&b));
	LIB(sc_buf_term(&d));
}

static void run_array(const Script &s, Log &l)
{
	const struct arr_ops &o = arr_ops[s.seed % arr_ops_count];
	std::unique_ptr<max_align_t[]> obj(new max_align_t[(o.objsize + sizeof(max_align_t) - 1) / sizeof(max_align_t)]);
	void *a = obj.get();
	LIB(o.init(a));
	for (auto &p : s.ops) {
		NEST();
		size_t n = o.size(a);
		if (p.op % 4 || !n) for (uint64_t i = 0; i <= p.b % 9 * s.big; i++) LIB(o.add(a, (p.a + i) & o.mask, 0));
		else if (p.a % 3 == 0) LIB(o.del(a, p.b % n, 0));
		else if (p.a % 3 == 1) LIB(o.del_un(a, p.b % n, 0));
		else LIB(o.sort(a));
		l.add("%zu %d %llx", o.size(a), o.oom(a), (unsigned long long) (o.size(a) ? o.last(a) : 0));
	}
	for (size_t i = 0; i < o.size(a); i++) l.add("%llx", (unsigned long long) o.at(a, i, 0));
	LIB(o.term(a));
}

static void run_queue(const Script &s, Log &l)
{
	const struct q_ops &o = q_ops_tab[s.seed % q_ops_count];
	std::unique_ptr<max_align_t[]> obj(new max_align_t[(o.objsize + sizeof(max_align_t) - 1) / sizeof(max_align_t)]);
	void *q = obj.get();
	LIB(o.init(q));
	for (auto &p : s.ops) {
		NEST();
		size_t n = o.size(q);
		if (p.op % 3 || !n)
			for (uint64_t i = 0; i <= p.b % 9 * s.big; i++) {
				if (p.a & 1) LIB(o.add_first(q, (p.a + i) & o.mask, 0));
				else LIB(o.add_last(q, (p.a + i) & o.mask, 0));
			}
		else {
			uint64_t v;
			if (p.a & 1) LIB(v = o.del_first(q));
			else LIB(v = o.del_last(q));
			l.add("%llx", (unsigned long long) v);
		}
		l.add("%zu %d", o.size(q), o.oom(q));
	}
	for (size_t i = 0; i < o.size(q); i++) l.add("%llx", (unsigned long long) o.at(q, i, 0));
	LIB(o.term(q));
}

static void run_heap(const Script &s, Log &l)
{
	struct sc_heap h;
	LIB(sc_heap_init(&h, s.seed % 20));
	for (auto &p : s.ops) {
		NEST();
		if (p.op % 3) {
			for (uint64_t i = 0; i <= p.b % 6 * s.big; i++) LIB(sc_heap_add(&h, (int64_t) ((p.a + i * 7919) % 100000), (void *) (uintptr_t) i));
		} else {
			struct sc_heap_data *d;
			LIB(d = sc_heap_pop(&h));
			l.add("%lld", d ? (long long) d->key : -1);
		}
		l.add("%zu", sc_heap_size(&h));
	}
	for (;;) {
		struct sc_heap_data *d;
		LIB(d = sc_heap_pop(&h));
		if (!d) break;
		l.add("%lld", (long long) d->key);
	}
	LIB(sc_heap_term(&h));
}

struct TimerCtx {
	Log *l;
	std::vector<uint64_t> fired;
};
static void on_timer(void *arg, uint64_t timeout, uint64_t type, void *)
{
	TimerCtx *t = (TimerCtx *) arg;
	t->fired.push_back(timeout * 16 + type % 16);
	NEST();
}
static void run_timer(const Script &s, Log &l)
{
	struct sc_timer t;
	uint64_t now = s.seed % 100000;
	TimerCtx ctx{&l, {}};
	std::vector<std::pair<uint64_t, uint64_t>> ids; // id, deadline
	LIB(sc_timer_init(&t, now));
	for (auto &p : s.ops) {
		NEST();
		if (p.op % 4 == 0) {
			now += p.a % 900;
			uint64_t next;
			ctx.fired.clear();
			LIB(next = sc_timer_timeout(&t, now, &ctx, on_timer));
			std::sort(ctx.fired.begin(), ctx.fired.end());
			for (auto f : ctx.fired) l.add("fired %llu", (unsigned long long) f);
			(void) next;
			ids.clear();
		} else if (p.op % 4 == 1 && !ids.empty()) {
			LIB(sc_timer_cancel(&t, &ids[p.a % ids.size()].first));
			l.add("cancelled");
		} else {
			for (uint64_t i = 0; i <= p.b % 5 * s.big; i++) {
				uint64_t id;
				LIB(id = sc_timer_add(&t, p.a % 3000, i, nullptr));
				ids.push_back({id, 0});
				l.add("%d", id != SC_TIMER_INVALID);
			}
		}
	}
	LIB(sc_timer_term(&t));
}

static void run_str(const Script &s, Log &l)
{
	char *x = nullptr;
	for (auto &p : s.ops) {
		NEST();
		bool ok = true;
		switch (p.op % 9) {
		case 0:
			if (s.big > 1) {
				std::string big(p.a % (40 * s.big), 's');
				LIB(ok = sc_str_set_fmt(&x, "%s%s", big.c_str(), p.s.c_str()));
				break;
			}
			LIB(ok = sc_str_set(&x, p.s.c_str()));
			break;
		case 1: LIB(ok = sc_str_append(&x, p.t.c_str())); break;
		case 2: LIB(ok = sc_str_set_fmt(&x, "%s|%d|%s", p.s.c_str(), (int) p.a, p.t.c_str())); break;
		case 3: LIB(ok = sc_str_append_fmt(&x, "%s#%u", p.t.c_str(), (unsigned) p.b)); break;
		case 4: if (x) LIB(ok = sc_str_trim(&x, " ab")); break;
		case 5: {
			size_t n = x ? strlen(x) : 0;
			if (x) LIB(ok = sc_str_substring(&x, (uint32_t) (p.a % (n + 1)), (uint32_t) (p.b % (n + 1))));
			break;
		}
		case 6: if (x && !p.s.empty()) LIB(ok = sc_str_replace(&x, p.s.substr(0, 2).c_str(), p.t.c_str())); break;
		case 7: {
			char *y;
			LIB(y = sc_str_create(p.s.c_str()));
			bool eq;
			LIB(eq = x && sc_str_cmp(x, y));
			l.add("%d %s", eq, y ? y : "(null)");
			LIB(sc_str_destroy(&x));
			x = y;
			break;
		}
		default: {
			if (!x) break;
			char *save = nullptr;
			const char *tok;
			int n = 0;
			LIB(tok = sc_str_token_begin(x, &save, "|a "));
			while (tok && n++ < 50) {
				l.add("tok %s", tok);
				NEST();
				LIB(tok = sc_str_token_begin(x, &save, "|a "));
			}
			LIB(sc_str_token_end(x, &save));
			char *y;
			LIB(y = sc_str_dup(x));
			LIB(sc_str_destroy(&y));
			LIB(y = sc_str_create_len(x, (uint32_t) std::min<size_t>(strlen(x), p.a % 20)));
			l.add("%s", y ? y : "(null)");
			LIB(sc_str_destroy(&y));
			LIB(y = sc_str_create_fmt("%s+%s", x, p.s.c_str()));
			l.add("%s", y ? y : "(null)");
			LIB(sc_str_destroy(&y));
		}
		}
		if (x && strlen(x) > 2000 * s.big) LIB(sc_str_set(&x, "short"));
		l.add("%d %s", ok, x ? x : "(null)");
	}
	LIB(sc_str_destroy(&x));
}

static void run_uri(const Script &s, Log &l)
{
	for (auto &p : s.ops) {
		NEST();
		std::string t = (p.op & 1 ? "http://" : "ftp:") + p.s + (p.op & 2 ? "@" + p.t : "") + (p.op & 4 ? "/" + p.t : "") + (p.op & 8 ? "?" + p.s : "") +
				(p.op & 16 ? "#" + p.t : "");
		if (s.big > 1) t += std::string(p.a % (20 * s.big), 'p') + p.s;
		struct sc_uri *u;
		LIB(u = sc_uri_create(t.c_str()));
		if (!u) {
			l.add("%s refused", t.c_str());
			continue;
		}
		l.add("%s %s %s %s %s %s %s %s", u->str, u->scheme, u->userinfo, u->host, u->port, u->path, u->query, u->fragment);
		LIB(sc_uri_destroy(u));
	}
}

static void run_poll(const Script &s, Log &l)
{
	struct sc_sock_poll p;
	struct sc_sock_pipe pipe[2];
	int rc;
	LIB(rc = sc_sock_poll_init(&p));
	l.add("poll %d", rc);
	for (auto &x : pipe) {
		LIB(rc = sc_sock_pipe_init(&x, 3));
		l.add("pipe %d", rc);
	}
	bool in[2] = {false, false};
	size_t held[2] = {0, 0};
	for (auto &o : s.ops) {
		NEST();
		int k = (int) (o.a & 1);
		switch (o.op % 6) {
		case 0: LIB(rc = sc_sock_poll_add(&p, &pipe[k].fdt, SC_SOCK_READ, &pipe[k])); in[k] = true; l.add("add %d", rc); break;
		case 1:
			if (!in[k]) break;
			LIB(rc = sc_sock_poll_del(&p, &pipe[k].fdt, SC_SOCK_READ, &pipe[k]));
			in[k] = false;
			l.add("del %d", rc);
			break;
		case 2: {
			char b[64];
			memset(b, (int) o.b, sizeof b);
			unsigned n = 1 + (unsigned) (o.b % 64);
			if (held[k] > 10000) break;
			LIB(rc = sc_sock_pipe_write(&pipe[k], b, n));
			held[k] += n;
			l.add("write %d", rc);
			break;
		}
		case 3: {
			char b[64];
			unsigned n = (unsigned) std::min<size_t>(held[k], 1 + o.b % 64);
			if (!n) break;
			LIB(rc = sc_sock_pipe_read(&pipe[k], b, n));
			held[k] -= n;
			l.add("read %d %x", rc, (unsigned char) b[n - 1]);
			break;
		}
		case 4: { // a failing call: the message must be that of this thread's call
			struct sc_sock_fd bad;
			memset(&bad, 0, sizeof bad);
			bad.fd = o.b & 1 ? -1 : p.fds;
			LIB(rc = sc_sock_poll_add(&p, &bad, SC_SOCK_READ, nullptr));
			l.add("bad %d %s", rc, sc_sock_poll_err(&p));
			break;
		}
		default: {
			LIB(rc = sc_sock_poll_wait(&p, 0));
			int got[2] = {-1, -1};
			for (int i = 0; i < rc; i++) {
				void *d = sc_sock_poll_data(&p, i);
				uint32_t e = sc_sock_poll_event(&p, i);
				if (d == &pipe[0]) got[0] = (int) e;
				else if (d == &pipe[1]) got[1] = (int) e;
				else l.add("foreign event");
			}
			l.add("wait %d %d %d", rc, got[0], got[1]);
		}
		}
	}
	for (auto &x : pipe) LIB(sc_sock_pipe_term(&x));
	LIB(sc_sock_poll_term(&p));
}

#ifndef CFG_ALLOC
struct Node {
	struct sc_list l;
	int v;
};
static void run_list(const Script &s, Log &l)
{
	std::vector<std::unique_ptr<Node>> nodes;
	struct sc_list a;
	sc_list_init(&a);
	for (auto &p : s.ops) {
		NEST();
		if (p.op % 4 == 0) {
			struct sc_list *e = p.a & 1 ? sc_list_pop_head(&a) : sc_list_pop_tail(&a);
			l.add("%d", e ? sc_list_entry(e, Node, l)->v : -1);
			continue;
		}
		nodes.emplace_back(new Node);
		Node *n = nodes.back().get();
		sc_list_init(&n->l);
		n->v = (int) (p.b % 1000);
		if (p.op % 4 == 1) sc_list_add_head(&a, &n->l);
		else if (p.op % 4 == 2 || sc_list_is_empty(&a)) sc_list_add_tail(&a, &n->l);
		else sc_list_add_after(&a, sc_list_head(&a), &n->l);
		if (p.a % 5 == 0) sc_list_del(&a, &n->l);
		l.add("%zu", sc_list_count(&a));
	}
	struct sc_list *it;
	sc_list_foreach (&a, it) l.add("%d", sc_list_entry(it, Node, l)->v);
}

static int on_item(void *arg, int line, const char *sec, const char *key, const char *val)
{
	NEST();
	((Log *) arg)->add("%d [%s] %s = %s", line, sec, key, val);
	return 0;
}
static std::string ini_text(const Script &s)
{
	std::string t;
	for (auto &p : s.ops) {
		switch (p.op % 6) {
		case 0: t += "[" + p.s + "]\n"; break;
		case 1: t += p.s + " = " + p.t + "\n"; break;
		case 2: t += "; " + p.s + "\n"; break;
		case 3: t += "  " + p.t + "\n"; break;
		case 4: t += p.s + ":" + p.t + " ; comment\n"; break;
		default: t += p.s + "=" + std::string(p.a % 300, 'v') + "\n"; break;
		}
	}
	return t;
}
static void run_ini(const Script &s, Log &l)
{
	std::string t = ini_text(s);
	l.add("rc %d", sc_ini_parse_string(&l, on_item, t.c_str()));
}
static void run_inifile(const Script &s, Log &l, const std::string &tag)
{
	std::string t = ini_text(s), f = scratch() + "/ini" + tag;
	FILE *fp = fopen(f.c_str(), "w");
	fwrite(t.data(), 1, t.size(), fp);
	fclose(fp);
	l.add("rc %d", sc_ini_parse_file(&l, on_item, f.c_str()));
	unlink(f.c_str());
	l.add("rc %d", sc_ini_parse_file(&l, on_item, f.c_str()));
}

static void run_option(const Script &s, Log &l)
{
	struct sc_option_item items[] = {{'a', "alpha"}, {'b', "beta"}, {'c', nullptr}, {'d', "delta-long"}};
	for (auto &p : s.ops) {
		NEST();
		std::vector<std::string> args{"prog"};
		for (int i = 0; i < 4; i++) {
			static const char *f[] = {"-a", "--alpha", "-b=", "--beta=", "-x", "--delta-long=", "-d", "c", "--"};
			args.push_back(std::string(f[(p.a >> (4 * i)) % 9]) + (p.b >> i & 1 ? p.s : ""));
		}
		std::vector<char *> argv;
		for (auto &x : args) argv.push_back(&x[0]);
		argv.push_back(nullptr);
		struct sc_option opt = {items, 4, argv.data()};
		for (int i = 1; i < 5; i++) {
			char *v;
			char r = sc_option_at(&opt, i, &v);
			l.add("%s: %c %s", args[(size_t) i].c_str(), r, v ? v : "(null)");
		}
	}
}

static void run_misc(const Script &s, Log &l)
{
	unsigned char seed[256];
	for (int i = 0; i < 256; i++) seed[i] = (unsigned char) (s.seed >> (i % 8) ^ (uint64_t) i * 7);
	struct sc_rand r;
	sc_rand_init(&r, seed);
	uint32_t crc = 0;
	for (auto &p : s.ops) {
		NEST();
		char b[64];
		unsigned char out[16];
		sc_rand_read(&r, out, 1 + (int) (p.a % 16));
		l.add("%02x", out[0]);
		char *q = sc_bytes_to_size(b, sizeof b, p.b);
		l.add("%s %lld", q ? q : "(null)", (long long) sc_size_to_bytes(q ? q : "1k"));
		crc = sc_crc32(crc, p.s.data(), p.s.size());
		std::string big(p.a % 5000, (char) p.b);
		crc = sc_crc32(crc, big.data(), big.size());
		l.add("%08x", crc);
		int n = sc_signal_snprintf(b, sizeof b, "%s %d %lu %x", p.s.c_str(), (int) p.a, (unsigned long) p.b, (unsigned) p.b);
		l.add("%d %s", n, n < 0 ? "" : b);
		l.add("%d %llu", sc_is_pow2(p.b), (unsigned long long) sc_to_pow2(p.a % (1ull << 60)));
		uint64_t t1 = sc_time_mono_ns(), t2 = sc_time_mono_ns();
		l.add("%d", t2 >= t1);
		t1 = sc_time_mono_ms(), t2 = sc_time_mono_ms();
		l.add("%d", t2 >= t1);
		struct timespec w1, w2;
		clock_gettime(CLOCK_REALTIME, &w1);
		t1 = sc_time_ms(), t2 = sc_time_ns();
		clock_gettime(CLOCK_REALTIME, &w2);
		uint64_t n1 = (uint64_t) w1.tv_sec * 1000000000 + (uint64_t) w1.tv_nsec, n2 = (uint64_t) w2.tv_sec * 1000000000 + (uint64_t) w2.tv_nsec;
		l.add("%d", n2 < n1 || (t1 >= n1 / 1000000 && t1 <= n2 / 1000000 && t2 >= n1 && t2 <= n2));
	}
}

static void run_mmap(const Script &s, Log &l, const std::string &tag)
{
	std::string f = scratch() + "/map" + tag;
	int k = 0;
	for (auto &p : s.ops) {
		NEST();
		if (++k > 6) break;
		struct sc_mmap m;
		size_t len = 1 + p.a % 20000;
		int rc = sc_mmap_init(&m, p.op % 5 == 0 ? "/nonexistent/x" : f.c_str(), O_RDWR | O_CREAT, PROT_READ | PROT_WRITE, MAP_SHARED, 0, len);
		l.add("init %d", rc);
		if (rc != 0) {
			l.add("%s", sc_mmap_err(&m));
			continue;
		}
		unsigned h = 0;
		for (size_t i = 0; i < len; i += 97) h = h * 31 + m.ptr[i];
		for (size_t i = 0; i < len; i += 97) m.ptr[i] = (unsigned char) (p.b + i);
		l.add("%u %d", h, sc_mmap_msync(&m, 0, len));
		l.add("%d", sc_mmap_term(&m));
	}
	unlink(f.c_str());
}

static std::string untag(std::string e, const std::string &tag)
{
	size_t at;
	while (!tag.empty() && (at = e.find(tag)) != std::string::npos) e.replace(at, tag.size(), "*");
	return e;
}
// every script sends a notification and takes one: each must be the whole text of one script
static int notify_fd = -1;
static void notify_setup()
{
	struct sockaddr_un a;
	memset(&a, 0, sizeof a);
	a.sun_family = AF_UNIX;
	std::string n = scratch() + "/n";
	if (n.size() >= sizeof a.sun_path) return;
	strcpy(a.sun_path, n.c_str());
	unlink(n.c_str());
	int fd = socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0);
	struct timeval tv = {20, 0};
	setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
	if (fd < 0 || bind(fd, (struct sockaddr *) &a, sizeof a)) return;
	setenv("NOTIFY_SOCKET", n.c_str(), 1);
	notify_fd = fd;
}
static unsigned digest(const char *p, size_t n)
{
	unsigned h = 2166136261u;
	while (n--) h = (h ^ (unsigned char) *p++) * 16777619u;
	return h;
}
static void notify(const Op &o, Log &l)
{
	if (notify_fd < 0) return;
	std::string d = o.s + o.t + std::string(o.a % 300, (char) ('a' + o.b % 26));
	char head[16], got[1024];
	snprintf(head, sizeof head, "%08x:", digest(d.data(), d.size()));
	l.add("notify %d", sc_sock_notify_systemd((head + d).c_str()));
	ssize_t n = recv(notify_fd, got, sizeof got, 0);
	bool ok = n >= 9;
	if (ok) {
		snprintf(head, sizeof head, "%08x:", digest(got + 9, (size_t) n - 9));
		ok = !memcmp(head, got, 9);
	}
	l.add("a whole notification %d", ok);
}
static void sock_names(struct sc_sock &srv, struct sc_sock &cl, struct sc_sock &in, Log &l, const std::string &tag)
{
	for (struct sc_sock *x : {&srv, &cl, &in}) {
		char a[256] = "", b[256] = "", c[512] = "";
		const char *p = sc_sock_local_str(x, a, sizeof a), *q = sc_sock_remote_str(x, b, sizeof b);
		sc_sock_print(x, c, sizeof c);
		l.add("%d%d %s %s %s", !!p, !!q, untag(a, tag).c_str(), untag(b, tag).c_str(), untag(c, tag).c_str());
	}
}
// over TCP the addresses differ from run to run, but the two ends must agree about them
static void run_tcp(const Script &s, Log &l)
{
	int fam = s.seed & 2 ? SC_SOCK_INET6 : SC_SOCK_INET;
	const char *host = s.seed & 2 ? "::1" : "127.0.0.1";
	struct sc_sock srv, cl, in;
	sc_sock_init(&srv, 0, true, fam);
	sc_sock_init(&cl, 0, true, fam);
	sc_sock_init(&in, 0, true, fam);
	int rc = sc_sock_listen(&srv, host, "0");
	l.add("listen %d", rc);
	char a[256] = "", b[256] = "", c[512] = "";
	if (rc == 0) {
		sc_sock_local_str(&srv, a, sizeof a);
		const char *port = strrchr(a, ':');
		l.add("%.*s", (int) (port ? port - a : 0), a);
		rc = sc_sock_connect(&cl, host, port ? port + 1 : "", s.seed & 4 ? host : nullptr, s.seed & 4 ? "0" : nullptr);
		l.add("connect %d %s", rc, rc ? sc_sock_error(&cl) : "");
	}
	if (rc == 0) {
		l.add("accept %d", sc_sock_accept(&srv, &in));
		int k = 0;
		for (auto &p : s.ops) {
			NEST();
			if (++k > 8) break;
			if (p.op % 8 == 1) notify(p, l);
			struct sc_sock *x = p.op % 2 ? &cl : &in, *y = p.op % 2 ? &in : &cl;
			sc_sock_local_str(x, a, sizeof a);
			sc_sock_remote_str(y, b, sizeof b);
			l.add("local %d", !strcmp(a, b));
			sc_sock_remote_str(x, b, sizeof b);
			sc_sock_print(x, c, sizeof c);
			l.add("print %d", std::string(c) == "Local(" + std::string(a) + "), Remote(" + b + ") ");
			std::string d = p.s + "|" + p.t;
			rc = sc_sock_send(x, &d[0], (int) d.size(), 0);
			std::string got(d.size(), 0);
			int r2 = rc > 0 ? sc_sock_recv(y, &got[0], rc, 0) : 0;
			l.add("%d %d %s", rc, r2, got.c_str());
		}
		struct linger lg = {1, 0}; // no connection may linger: thousands are made
		setsockopt(cl.fdt.fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
	}
	l.add("%d", sc_sock_term(&cl));
	l.add("%d", sc_sock_term(&in));
	l.add("%d", sc_sock_term(&srv));
}

static void run_sock(const Script &s, Log &l, const std::string &tag)
{
	if (s.seed & 1) {
		run_tcp(s, l);
		return;
	}
	struct sc_sock srv, cl, in;
	std::string name = scratch() + "/s" + tag;
	sc_sock_init(&srv, 0, true, SC_SOCK_UNIX);
	sc_sock_init(&cl, 0, true, SC_SOCK_UNIX);
	sc_sock_init(&in, 0, true, SC_SOCK_UNIX);
	int rc = sc_sock_connect(&cl, name.c_str(), nullptr, nullptr, nullptr);
	std::string e = rc ? sc_sock_error(&cl) : "";
	size_t at;
	while ((at = e.find(tag)) != std::string::npos) e.replace(at, tag.size(), "*");
	l.add("connect without server %d %s", rc, e.c_str());
	sc_sock_term(&cl);
	sc_sock_init(&cl, 0, true, SC_SOCK_UNIX);
	l.add("listen %d", sc_sock_listen(&srv, name.c_str(), nullptr));
	l.add("connect %d", sc_sock_connect(&cl, name.c_str(), nullptr, nullptr, nullptr));
	l.add("accept %d", sc_sock_accept(&srv, &in));
	sock_names(srv, cl, in, l, tag);
	for (auto &p : s.ops) {
		NEST();
		if (p.op % 8 == 0) sock_names(srv, cl, in, l, tag);
		if (p.op % 8 == 1) notify(p, l);
		std::string d = p.s + "|" + p.t;
		rc = sc_sock_send(&cl, &d[0], (int) d.size(), 0);
		std::string got(d.size(), 0);
		int r2 = rc > 0 ? sc_sock_recv(&in, &got[0], rc, 0) : 0;
		l.add("%d %d %s", rc, r2, got.c_str());
	}
	l.add("%d %d %d", sc_sock_term(&cl), sc_sock_term(&in), sc_sock_term(&srv));
	unlink(name.c_str());
}

static void run_sync(const Script &s, Log &l)
{
	struct sc_mutex m;
	struct sc_cond c;
	l.add("%d %d", sc_mutex_init(&m), sc_cond_init(&c));
	for (auto &p : s.ops) {
		NEST();
		sc_mutex_lock(&m);
		sc_cond_signal(&c, (void *) (uintptr_t) p.a);
		l.add("%llx", (unsigned long long) (uintptr_t) sc_cond_wait(&c));
		sc_mutex_unlock(&m);
	}
	l.add("%d %d", sc_cond_term(&c), sc_mutex_term(&m));
}
#endif

static const char *kind_names[] = {"map", "buffer", "array", "queue", "heap", "timer", "string", "uri", "poll and pipe",
#ifndef CFG_ALLOC
				   "list", "ini string", "ini file", "option", "numbers, checksums and formats", "memory map", "socket", "mutex and cond"
#endif
};
static const int nkinds = (int) (sizeof kind_names / sizeof *kind_names);

static void run_script(const Script &s, Log &l, const std::string &tag)
{
	switch (s.kind) {
	case 0: run_map(s, l); break;
	case 1: run_buf(s, l); break;
	case 2: run_array(s, l); break;
	case 3: run_queue(s, l); break;
	case 4: run_heap(s, l); break;
	case 5: run_timer(s, l); break;
	case 6: run_str(s, l); break;
	case 7: run_uri(s, l); break;
	case 8: run_poll(s, l); break;
#ifndef CFG_ALLOC
	case 9: run_list(s, l); break;
	case 10: run_ini(s, l); break;
	case 11: run_inifile(s, l, tag); break;
	case 12: run_option(s, l); break;
	case 13: run_misc(s, l); break;
	case 14: run_mmap(s, l, tag); break;
	case 15: run_sock(s, l, tag); break;
	default: run_sync(s, l); break;
#endif
	}
}

static Script gen_script(Case &c, int kind, size_t maxops)
{
	Script s;
	s.kind = kind;
	s.seed = c.draw(1u << 30);
	s.big = c.chance(1, 16) ? 2 + c.draw(200) : 1;
	size_t n = 1 + c.draw(maxops);
	for (size_t i = 0; i < n; i++) {
		Op o;
		o.op = (unsigned) c.draw(840);
		o.a = c.chance(1, 6) ? c.u64() : c.draw(100000);
		o.b = c.chance(1, 6) ? c.u64() : c.draw(1000);
		o.s = c.text(1 + c.draw(7), "ab|c d.1");
		o.t = c.text(c.draw(7), "xyz a0");
		s.ops.push_back(o);
	}
	return s;
}

#ifdef CFG_ALLOC
const HarnessInfo harness_info = {
	"scripts of 1..40 operations (rarely with up to 200 times as many elements) on a map, buffer, array, queue, heap, timer, string, URI or "
	"poll, each run twice over fresh memory filled differently, with the libraries built under "
	"SC_HAVE_CONFIG_H and a config.h that gives every library an allocator of its own (blocks move on every realloc, belong to one "
	"library, and never come from malloc); non-trivial: at least three blocks were handed out"
};

static Case *cc;
struct Head {
	uint64_t magic, size;
	const char *family;
	uint64_t pad;
};
static const uint64_t MAGIC = 0x5ca110c8d1e5f00dull;
static long cfg_live, cfg_total;
static int cfg_fill = 0xa5;
static void *cfg_alloc(const char *fam, size_t n, bool zero)
{
	int on = pbt_alloc_on;
	pbt_alloc_on = 0;
	if (n > (1u << 24)) cc->fail("%s asks for %zu bytes", fam, n);
	char *p = (char *) malloc(n + sizeof(Head));
	pbt_alloc_on = on;
	Head *h = (Head *) p;
	*h = {MAGIC, n, fam, 0};
	memset(p + sizeof(Head), zero ? 0 : cfg_fill, n);
	cfg_live++, cfg_total++;
	return p + sizeof(Head);
}
static Head *cfg_head(const char *fam, void *p, const char *what)
{
	Head *h = (Head *) ((char *) p - sizeof(Head));
	if (h->magic != MAGIC) cc->fail("%s of %s got memory that did not come from a configured allocator", what, fam);
	if (strcmp(h->family, fam)) cc->fail("%s of %s got memory of %s", what, fam, h->family);
	return h;
}
static void cfg_release(const char *fam, void *p)
{
	if (!p) return;
	Head *h = cfg_head(fam, p, "free");
	h->magic = 0;
	cfg_live--;
	int on = pbt_alloc_on;
	pbt_alloc_on = 0;
	free(h);
	pbt_alloc_on = on;
}
static void *cfg_grow(const char *fam, void *p, size_t n)
{
	if (!p) return cfg_alloc(fam, n, false);
	Head *h = cfg_head(fam, p, "realloc");
	void *q = cfg_alloc(fam, n, false);
	memcpy(q, p, std::min<size_t>(n, h->size));
	cfg_release(fam, p);
	return q;
}
extern "C" {
#undef CFG_FAMILY
#define CFG_DEF(x)                                                                                   \
	void *cfg_##x##_malloc(size_t n) { return cfg_alloc(#x, n, false); }                         \
	void *cfg_##x##_calloc(size_t m, size_t n) { return cfg_alloc(#x, m * n, true); }            \
	void *cfg_##x##_realloc(void *p, size_t n) { return cfg_grow(#x, p, n); }                    \
	void cfg_##x##_free(void *p) { cfg_release(#x, p); }
CFG_DEF(str)
CFG_DEF(uri)
CFG_DEF(array)
CFG_DEF(queue)
CFG_DEF(sock)
CFG_DEF(map)
CFG_DEF(buf)
CFG_DEF(heap)
CFG_DEF(timer)
long foreign;
char *__real_strdup(const char *s);
char *__real_strndup(const char *s, size_t n);
int __real_vasprintf(char **p, const char *fmt, va_list va);
char *__wrap_strdup(const char *s)
{
	if (pbt_alloc_on) foreign++;
	return __real_strdup(s);
}
char *__wrap_strndup(const char *s, size_t n)
{
	if (pbt_alloc_on) foreign++;
	return __real_strndup(s, n);
}
int __wrap_vasprintf(char **p, const char *fmt, va_list va)
{
	if (pbt_alloc_on) foreign++;
	return __real_vasprintf(p, fmt, va);
}
int __wrap_asprintf(char **p, const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	int n = __wrap_vasprintf(p, fmt, va);
	va_end(va);
	return n;
}
}

void run_case(Case &c)
{
	cc = &c;
	pbt_alloc_reset();
	cfg_live = cfg_total = foreign = 0;
	Script s = gen_script(c, (int) c.draw((uint64_t) nkinds), 40);
	Log l, l0;
	cfg_fill = 0xa5;
	run_script(s, l, "");
	pbt_alloc_on = 0;
	cfg_fill = c.flip() ? 0 : 1 + (int) c.draw(254);
	run_script(s, l0, "");
	pbt_alloc_on = 0;
	if (s.kind != 8 && l.text != l0.text) {
		size_t k = 0;
		while (k < l.text.size() && k < l0.text.size() && l.text[k] == l0.text[k]) k++;
		k -= std::min<size_t>(k, 60);
		c.fail("%s: results depend on what fresh memory holds: %s and %s", kind_names[s.kind], quote(l.text.substr(k, 120)).c_str(), quote(l0.text.substr(k, 120)).c_str());
	}
	if (s.big > 1) c.label("many elements");
	c.trace("%s, %zu operations, %ld blocks", kind_names[s.kind], s.ops.size(), cfg_total);
	REQUIRE(c, cfg_live == 0, "%s: %ld blocks of the configured allocator were never given back", kind_names[s.kind], cfg_live);
	REQUIRE(c, pbt_alloc_count == 0 && pbt_alloc_live == 0 && foreign == 0,
		"%s used the C allocator although another one is configured (%ld allocations, %ld frees, %ld duplications)", kind_names[s.kind],
		pbt_alloc_count, -pbt_alloc_live, foreign);
	c.label(kind_names[s.kind]);
	if (cfg_total >= 3) c.nontrivial();
}
#else
const HarnessInfo harness_info = {
	"2..4 threads start together, each running its own scripts of 1..25 operations on its own objects (the same library in all threads, "
	"or a mixture of 17), repeated, half of the time after one of them ran between the operations and in the callbacks of another in one thread; every result must equal that of the same script run alone beforehand; non-trivial: at least two "
	"threads ran at least 3 operations each", true
};

void harness_init()
{
	sc_crc32_init(); // documented to come first
	sc_sock_startup();
}

void run_case(Case &c)
{
	static bool once;
	if (!once) notify_setup();
	once = true;
	size_t nt = 2 + c.draw(3);
	bool same = c.flip();
	int kind = (int) c.draw((uint64_t) nkinds);
	std::vector<std::vector<Script>> scripts(nt);
	std::vector<std::vector<std::string>> expect(nt);
	unsigned busy = 0;
	for (size_t t = 0; t < nt; t++) {
		size_t k = 1 + c.draw(same ? 2 : 3);
		size_t total = 0;
		for (size_t i = 0; i < k; i++) {
			int kd = same ? kind : (int) c.draw((uint64_t) nkinds);
			scripts[t].push_back(gen_script(c, kd, 25));
			total += scripts[t].back().ops.size();
			c.trace("thread %zu: %s, %zu operations", t, kind_names[kd], scripts[t].back().ops.size());
			c.label(kind_names[kd]);
		}
		busy += total >= 3;
	}
	int rounds = 1 + (int) c.draw(4);
	char tag[32];
	for (size_t t = 0; t < nt; t++)
		for (auto &s : scripts[t]) {
			Log l;
			snprintf(tag, sizeof tag, "-t%zu-", t);
			run_script(s, l, tag);
			expect[t].push_back(l.text);
		}
	// the first two scripts in one thread, the second again and again between the operations of the first
	if (c.flip()) {
		const Script &a = scripts[0][0], &b = scripts[1][0];
		int left = 6;
		std::string diff;
		nested = [&] {
			if (left-- <= 0) return;
			Log l;
			run_script(b, l, "-nested-");
			if (l.text != expect[1][0] && diff.empty()) diff = l.text;
		};
		Log l;
		run_script(a, l, "-t0-");
		nested = nullptr;
		REQUIRE(c, diff.empty(), "%s in between the operations of %s gave other results than alone: %s", kind_names[b.kind], kind_names[a.kind],
			quote(diff).c_str());
		REQUIRE(c, l.text == expect[0][0], "%s gave other results with %s in between than alone: %s", kind_names[a.kind], kind_names[b.kind],
			quote(l.text).c_str());
		c.label("one script inside the other");
	}
	std::atomic<size_t> ready{0};
	std::vector<std::string> bad(nt);
	std::vector<std::thread> th;
	for (size_t t = 0; t < nt; t++)
		th.emplace_back([&, t] {
			char mytag[32];
			snprintf(mytag, sizeof mytag, "-t%zu-", t);
			ready++;
			for (int spin = 0; ready < nt; spin++)
				if (spin > 100) sched_yield();
			for (int r = 0; r < rounds && bad[t].empty(); r++)
				for (size_t i = 0; i < scripts[t].size(); i++) {
					Log l;
					run_script(scripts[t][i], l, mytag);
					if (l.text != expect[t][i]) {
						size_t k = 0;
						while (k < l.text.size() && k < expect[t][i].size() && l.text[k] == expect[t][i][k]) k++;
						bad[t] = std::string(kind_names[scripts[t][i].kind]) + ": alone ..." + quote(expect[t][i].substr(k > 20 ? k - 20 : 0, 60)) +
							 ", beside other threads ..." + quote(l.text.substr(k > 20 ? k - 20 : 0, 60));
						break;
					}
				}
		});
	for (auto &x : th) x.join();
	for (size_t t = 0; t < nt; t++) REQUIRE(c, bad[t].empty(), "thread %zu got other results than alone: %s", t, bad[t].c_str());
	if (busy >= 2) c.nontrivial();
}
#endif
