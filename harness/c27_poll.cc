// C27: registrations and waits compared with poll(2) on each descriptor; edge-triggered ones with a model.
// -DPOLL_MT: descriptors are registered on one thread while another one waits.
#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <thread>
#include <time.h>
#include <unistd.h>
extern "C" {
#include "sc_sock.h"
}
using namespace pbt;

#ifndef SC_SOCK_POLL_MAX_EVENTS
#define SC_SOCK_POLL_MAX_EVENTS 1024
#endif

// ---- stand-ins -------------------------------------------------------------
static bool on;
static int ctl_fail, ctl_errno, ctl_hit, eintr, create_fail, wait_fail;
static std::atomic<unsigned> jitter{0};
extern "C" {
int __real_epoll_ctl(int, int, int, struct epoll_event *);
int __wrap_epoll_ctl(int e, int op, int fd, struct epoll_event *ev)
{
	if (on && ctl_fail > 0) {
		ctl_fail--;
		ctl_hit++;
		errno = ctl_errno;
		return -1;
	}
	unsigned j = jitter.load(std::memory_order_relaxed);
	if (j & 1) sched_yield();
	int rc = __real_epoll_ctl(e, op, fd, ev);
	if (j & 2) sched_yield();
	if (j & 4) usleep(40);
	return rc;
}
int __real_epoll_wait(int, struct epoll_event *, int, int);
int __wrap_epoll_wait(int e, struct epoll_event *ev, int n, int t)
{
	if (on && eintr > 0) { eintr--; errno = EINTR; return -1; }
	if (on && wait_fail > 0) { wait_fail--; errno = EBADF; return -1; }
	return __real_epoll_wait(e, ev, n, t);
}
int __real_epoll_create1(int);
int __wrap_epoll_create1(int f)
{
	if (create_fail) { create_fail = 0; errno = EMFILE; return -1; }
	return __real_epoll_create1(f);
}
}

static int count_fds()
{
	int n = 0;
	for (int i = 0; i < 512; i++) if (fcntl(i, F_GETFD) != -1) n++;
	return n;
}
static double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (double) t.tv_sec + (double) t.tv_nsec * 1e-9;
}
void harness_init() { signal(SIGPIPE, SIG_IGN); }

static const char *EV[] = {"none", "read", "write", "read+write", "edge", "read+edge", "write+edge", "read+write+edge"};

#ifdef POLL_MT

const HarnessInfo harness_info = {
	"one thread waits while the main thread registers 1..12 descriptors (already readable, or made readable later), each registration carrying "
	"its own descriptor as data; the waiting thread checks what is reported against the registration and removes it, possibly several rounds. "
	"Registration calls yield at random. Every registration must be reported, as registered, with no data race. Non-trivial: all.",
	true, 30, 30};

struct Obj {
	struct sc_sock_fd fdt; // plain: published through the poll
	int idx, fds[2];
	std::atomic<int> state{0}; // 0 idle, 1 registered, 2 reported and removed
	int want;
	int reports = 0;
};

void run_case(Case &c)
{
	size_t n = 1 + c.draw(12);
	std::vector<Obj> o(n);
	struct sc_sock_poll p;
	REQUIRE(c, sc_sock_poll_init(&p) == 0, "sc_sock_poll_init() fails");
	for (size_t i = 0; i < n; i++) {
		if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, o[i].fds)) c.error("socketpair");
		o[i].idx = (int) i;
	}
	int stop[2];
	if (pipe(stop)) c.error("pipe");
	struct sc_sock_fd stop_fd = {};
	stop_fd.fd = stop[0];
	stop_fd.op = SC_SOCK_NONE;
	REQUIRE(c, sc_sock_poll_add(&p, &stop_fd, SC_SOCK_READ, NULL) == 0, "registering fails");
	std::string err;
	jitter = (unsigned) c.draw(8);
	std::thread t([&] {
		for (;;) {
			int k = sc_sock_poll_wait(&p, 5000);
			if (k <= 0) { err = k == 0 ? "a registration is never reported" : "waiting fails"; return; }
			bool end = false;
			for (int i = 0; i < k; i++) {
				Obj *x = (Obj *) sc_sock_poll_data(&p, i);
				uint32_t ev = sc_sock_poll_event(&p, i);
				if (!x) { end = true; continue; }
				x->reports++;
				if ((int) x->fdt.op != x->want) err = "the descriptor's registration is not visible to the waiting thread";
				if (!(ev & SC_SOCK_READ)) err = "a readable descriptor is not reported readable";
				if (x->fdt.fd != x->fds[0]) err = "the wrong descriptor is reported";
				char b[8];
				if (read(x->fds[0], b, 8) != 1) err = "the reported descriptor has no data";
				if (sc_sock_poll_del(&p, &x->fdt, (enum sc_sock_ev) 7, x) != 0) err = "removing fails";
				x->state = 2;
			}
			if (end) return;
		}
	});
	size_t rounds = 1 + c.draw(4);
	for (size_t r = 0; r < rounds; r++) {
		std::vector<size_t> late;
		for (size_t i = 0; i < n; i++) {
			bool before = c.flip();
			int m = 1 | (c.chance(1, 4) ? 4 : 0);
			Obj &x = o[i];
			x.want = m;
			x.fdt = {};
			x.fdt.fd = x.fds[0];
			x.fdt.op = SC_SOCK_NONE;
			x.state = 1;
			if (before) if (write(x.fds[1], "x", 1) != 1) err = "write";
			if (sc_sock_poll_add(&p, &x.fdt, (enum sc_sock_ev) m, &x) != 0) err = "registering fails";
			if (!before) late.push_back(i);
		}
		for (size_t i : late) if (write(o[i].fds[1], "x", 1) != 1) err = "write";
		double t0 = now();
		for (size_t i = 0; i < n; i++) while (o[i].state.load() != 2 && now() - t0 < 8) sched_yield();
		bool lost = false;
		for (size_t i = 0; i < n; i++) lost |= o[i].state.load() != 2;
		if (lost) { err = "a registration is never reported"; break; }
	}
	jitter = 0;
	if (write(stop[1], "s", 1) != 1) err = "write";
	t.join();
	c.trace("%zu descriptors, %zu rounds", n, rounds);
	REQUIRE(c, err.empty(), "%s", err.c_str());
	for (auto &x : o) REQUIRE(c, x.reports == (int) rounds, "descriptor %d was reported %d times in %zu rounds", x.idx, x.reports, rounds);
	REQUIRE(c, sc_sock_poll_del(&p, &stop_fd, SC_SOCK_READ, NULL) == 0, "removing fails");
	REQUIRE(c, sc_sock_poll_term(&p) == 0, "sc_sock_poll_term() fails");
	for (auto &x : o) { close(x.fds[0]); close(x.fds[1]); }
	close(stop[0]);
	close(stop[1]);
	c.nontrivial();
}

#else

const HarnessInfo harness_info = {
	"a history of 1..60 steps on up to 40 descriptors (both ends of socket pairs and pipes; a few cases with up to 300): registering, "
	"extending, reducing and removing read / write / edge interest, writing, reading, filling, half closing and closing ends, refused "
	"registrations, unusable descriptors and interrupted waits; each wait is compared with poll(2) on every registered descriptor, edge "
	"triggering with a model of what happened since the last report, data with the registration. Non-trivial: a wait reported something "
	"while another registered descriptor was not ready."};

struct D {
	struct sc_sock_fd fdt;
	int peer = -1; // index of the other end
	bool open = false, is_pipe = false, wr_end = false;
	int mask = 0;
	int data = 0, alt = -1; // registered data tag; alternative after a call that changes nothing
	int edge = 0; // 0 nothing new, 1 possibly, 2 something new
};

void run_case(Case &c)
{
	int base = count_fds();
	on = false;
	ctl_fail = ctl_hit = eintr = create_fail = wait_fail = 0;
	pbt_alloc_reset();
	struct sc_sock_poll p;
	memset(&p, 0xa5, sizeof p);
	bool reported_some = false;
	if (c.chance(1, 8)) { // initialisation fails cleanly
		bool mem = c.flip();
		int rc;
		if (mem) pbt_alloc_fail_at = 0; else create_fail = 1;
		{ Alloc a; rc = sc_sock_poll_init(&p); }
		bool hit = mem ? pbt_alloc_failed > 0 : !create_fail;
		create_fail = 0;
		pbt_alloc_fail_at = -1;
		if (hit) {
			REQUIRE(c, rc < 0, "a refused %s is not reported", mem ? "allocation" : "system call");
			const char *e = sc_sock_poll_err(&p);
			REQUIRE(c, !strcmp(e, strerror(mem ? ENOMEM : EMFILE)), "initialisation failed with the message '%s'", e);
			REQUIRE(c, count_fds() == base && pbt_alloc_live == 0, "a failed initialisation leaks");
			REQUIRE(c, sc_sock_poll_wait(&p, 0) < 0, "waiting on a poll that was not initialised succeeds");
			REQUIRE(c, sc_sock_poll_term(&p) == 0, "terminating after a failed initialisation fails");
		} else {
			REQUIRE(c, rc == 0, "sc_sock_poll_init() fails");
			Alloc a;
			sc_sock_poll_term(&p);
		}
		c.trace("failed initialisation");
	}
	{ Alloc a; REQUIRE(c, sc_sock_poll_init(&p) == 0, "sc_sock_poll_init() fails: %s", sc_sock_poll_err(&p)); }
	size_t pairs = c.chance(1, 40) ? 1 + c.draw(150) : 1 + c.size(20);
	std::vector<D> d(pairs * 2);
	auto open_pair = [&](size_t i) {
		int f[2];
		bool pi = c.chance(1, 4);
		if (pi ? pipe2(f, O_NONBLOCK | O_CLOEXEC) : socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, f)) c.error("out of descriptors");
		for (int k = 0; k < 2; k++) {
			D &x = d[i * 2 + (size_t) k];
			x = D();
			memset(&x.fdt, 0, sizeof x.fdt);
			x.fdt.fd = f[k];
			x.fdt.op = SC_SOCK_NONE;
			x.fdt.type = (int) i;
			x.peer = (int) (i * 2 + (size_t) (1 - k));
			x.open = true;
			x.is_pipe = pi;
			x.wr_end = pi && k == 1;
		}
	};
	for (size_t i = 0; i < pairs; i++) open_pair(i);
	std::vector<char> tags(d.size() * 2); // addresses used as data
	unsigned quiet_and_ready = 0;
	auto ready = [&](const D &x) { // what must be reported for x now
		struct pollfd q = {x.fdt.fd, 0, 0};
		if (x.mask & SC_SOCK_READ) q.events |= POLLIN;
		if (x.mask & SC_SOCK_WRITE) q.events |= POLLOUT;
		q.events |= POLLRDHUP;
		if (poll(&q, 1, 0) < 0) return 0u;
		unsigned r = 0;
		if (q.revents & POLLIN) r |= SC_SOCK_READ;
		if (q.revents & POLLOUT) r |= SC_SOCK_WRITE;
		if (q.revents & (POLLHUP | POLLERR | POLLRDHUP)) r = SC_SOCK_READ | SC_SOCK_WRITE;
		return r;
	};
	auto do_wait = [&](int timeout, const char *why) {
		std::vector<unsigned> want(d.size());
		size_t nready = 0, nmust = 0;
		for (size_t i = 0; i < d.size(); i++) {
			if (!d[i].open || !d[i].mask) continue;
			want[i] = ready(d[i]);
			if (!want[i]) continue;
			if ((d[i].mask & SC_SOCK_EDGE) && d[i].edge == 0) continue;
			nready++;
			if (!(d[i].mask & SC_SOCK_EDGE) || d[i].edge == 2) nmust++;
		}
		bool quiet = false;
		for (auto &x : d) if (x.open && x.mask && !ready(x)) quiet = true;
		std::vector<int> seen(d.size(), 0);
		size_t rounds = 1;
		if (d.size() >= SC_SOCK_POLL_MAX_EVENTS) rounds = nready / SC_SOCK_POLL_MAX_EVENTS + 2;
		if (timeout < 0 && nmust == 0) timeout = 0;
		size_t total = 0;
		for (size_t r = 0; r < rounds; r++) {
			double t = now();
			int n;
			on = true;
			n = sc_sock_poll_wait(&p, r ? 0 : timeout);
			on = false;
			t = (now() - t) * 1000;
			REQUIRE(c, n >= 0, "%s: waiting fails: %s", why, sc_sock_poll_err(&p));
			if (r == 0) {
				c.trace("wait %d ms -> %d events", timeout, n);
				if (nready == 0) REQUIRE(c, n == 0, "%s: %d events are reported, nothing is ready", why, n);
				if (n == 0 && timeout > 0) REQUIRE(c, t >= timeout - 1.5, "%s: a wait of %d ms returned nothing after %.2f ms", why, timeout, t);
			}
			REQUIRE(c, n <= SC_SOCK_POLL_MAX_EVENTS, "%d events", n);
			for (int i = 0; i < n; i++) {
				char *dp = (char *) sc_sock_poll_data(&p, i);
				unsigned ev = sc_sock_poll_event(&p, i);
				REQUIRE(c, dp >= tags.data() && dp < tags.data() + tags.size(), "%s: event %d carries data that was never registered", why, i);
				int tag = (int) (dp - tags.data());
				size_t k = (size_t) tag / 2;
				D &x = d[k];
				REQUIRE(c, x.open && x.mask, "%s: descriptor %zu is reported (%s) but not registered", why, k, EV[ev & 7]);
				REQUIRE(c, tag % 2 == x.data || tag % 2 == x.alt, "%s: descriptor %zu is reported with data of an earlier registration", why, k);
				if (rounds == 1) REQUIRE(c, !seen[k], "%s: descriptor %zu is reported twice in one wait", why, k);
				REQUIRE(c, want[k], "%s: descriptor %zu is reported (%s) but not ready", why, k, EV[ev & 7]);
				REQUIRE(c, ev == want[k], "%s: descriptor %zu, registered for %s, is reported %s instead of %s", why, k, EV[x.mask], EV[ev & 7], EV[want[k]]);
				if (x.mask & SC_SOCK_EDGE) REQUIRE(c, x.edge && !seen[k], "%s: descriptor %zu (edge-triggered) is reported again although nothing happened", why, k);
				seen[k]++;
				total++;
			}
		}
		for (size_t i = 0; i < d.size(); i++) {
			if (!want[i]) { if (d[i].edge == 1 && d[i].open && d[i].mask) d[i].edge = 0; continue; }
			bool must = !(d[i].mask & SC_SOCK_EDGE) || d[i].edge == 2;
			if (must) REQUIRE(c, seen[i], "%s: descriptor %zu, registered for %s and ready for %s, is not reported", why, i, EV[d[i].mask], EV[want[i]]);
			d[i].edge = 0;
		}
		if (total && quiet) reported_some = true;
		quiet_and_ready++;
	};
	auto touch = [&](size_t i, int lvl) { if (d[i].edge < lvl) d[i].edge = lvl; };
	auto has_in = [&](const D &x) { struct pollfd q = {x.fdt.fd, POLLIN, 0}; return poll(&q, 1, 0) > 0 && (q.revents & POLLIN); };
	size_t steps = 1 + c.draw(60);
	for (size_t s = 0; s < steps; s++) {
		size_t i = c.draw(d.size());
		D &x = d[i];
		ctl_fail = ctl_hit = eintr = wait_fail = 0;
		switch (c.weighted({8, 5, 5, 2, 2, 1, 2, 6, 1})) {
		case 0:
		case 1: { // register / remove
			bool add = true;
			int ev = (int) c.draw(8);
			if (c.chance(2, 5)) add = false;
			if (!x.open) break;
			int tag = (int) c.draw(2);
			bool f = c.chance(1, 8);
			if (f) { ctl_fail = 1; ctl_errno = c.flip() ? ENOSPC : ENOMEM; }
			int nm = add ? x.mask | ev : x.mask & ~ev;
			if (nm == SC_SOCK_EDGE) nm = 0;
			int rc;
			on = true;
			rc = add ? sc_sock_poll_add(&p, &x.fdt, (enum sc_sock_ev) ev, &tags[i * 2 + (size_t) tag]) : sc_sock_poll_del(&p, &x.fdt, (enum sc_sock_ev) ev, &tags[i * 2 + (size_t) tag]);
			on = false;
			ctl_fail = 0;
			c.trace("%s %zu %s%s -> %d", add ? "add" : "del", i, EV[ev], ctl_hit ? " (refused)" : "", rc);
			if (ctl_hit) {
				REQUIRE(c, rc < 0, "a refused registration is not reported");
				const char *e = sc_sock_poll_err(&p);
				REQUIRE(c, strstr(e, strerror(ctl_errno)), "a refused registration leaves the message '%s', the system reported '%s'", e, strerror(ctl_errno));
				REQUIRE(c, (int) x.fdt.op == x.mask, "a refused registration leaves %s registered, it was %s", EV[x.fdt.op & 7], EV[x.mask]);
				break;
			}
			REQUIRE(c, rc == 0, "%s %s for descriptor %zu fails: %s", add ? "adding" : "removing", EV[ev], i, sc_sock_poll_err(&p));
			REQUIRE(c, (int) x.fdt.op == nm, "after %s %s the descriptor has %s, expected %s", add ? "adding" : "removing", EV[ev], EV[x.fdt.op & 7], EV[nm]);
			if (nm != x.mask) {
				x.data = tag;
				x.alt = -1;
				x.edge = 2;
			} else {
				x.alt = tag;
				touch(i, 1);
			}
			x.mask = nm;
			break;
		}
		case 2: { // write
			if (!x.open || (x.is_pipe && !x.wr_end)) break;
			D &o = d[(size_t) x.peer];
			std::string b((size_t) (1 + c.size(300)), 'w');
			ssize_t n = write(x.fdt.fd, b.data(), b.size());
			c.trace("write to %zu -> %zd", i, n);
			if (o.open) touch((size_t) x.peer, n > 0 && (o.mask & SC_SOCK_READ) ? 2 : 1);
			touch(i, 1);
			break;
		}
		case 3: { // read
			if (!x.open || (x.is_pipe && x.wr_end)) break;
			std::vector<char> b(1 + c.size(400));
			ssize_t n = read(x.fdt.fd, b.data(), b.size());
			c.trace("read from %zu -> %zd", i, n);
			touch(i, 1);
			touch((size_t) x.peer, 1);
			break;
		}
		case 4: { // fill, or drain
			if (!x.open) break;
			if (x.is_pipe ? x.wr_end : c.flip()) {
				static std::vector<char> z(1 << 16);
				D &o = d[(size_t) x.peer];
				bool any = false;
				while (write(x.fdt.fd, z.data(), z.size()) > 0) any = true;
				while (write(x.fdt.fd, z.data(), 64) > 0) any = true;
				c.trace("fill %zu", i);
				if (any && o.open) touch((size_t) x.peer, (o.mask & SC_SOCK_READ) ? 2 : 1);
			} else {
				static std::vector<char> z(1 << 16);
				while (read(x.fdt.fd, z.data(), z.size()) > 0) {}
				c.trace("drain %zu", i);
			}
			touch(i, 1);
			touch((size_t) x.peer, 1);
			break;
		}
		case 5: // half close
			if (!x.open || x.is_pipe) break;
			shutdown(x.fdt.fd, c.flip() ? SHUT_WR : SHUT_RD);
			c.trace("half close %zu", i);
			touch(i, 1);
			touch((size_t) x.peer, 1);
			break;
		case 6: { // close: removed first
			if (!x.open && !d[(size_t) x.peer].open) { // the numbers are used again
				open_pair(i / 2);
				c.trace("open %zu and its peer again", i);
				c.label("descriptors opened again");
				break;
			}
			if (!x.open) break;
			if (x.mask) {
				on = true;
				int rc = sc_sock_poll_del(&p, &x.fdt, (enum sc_sock_ev) (x.mask), NULL);
				on = false;
				REQUIRE(c, rc == 0 && x.fdt.op == SC_SOCK_NONE, "removing descriptor %zu fails", i);
				x.mask = 0;
			}
			close(x.fdt.fd);
			x.open = false;
			c.trace("close %zu", i);
			D &o = d[(size_t) x.peer];
			if (o.open) touch((size_t) x.peer, 2);
			break;
		}
		case 7: {
			int t = (int) c.weighted({10, 3, 1});
			t = t == 0 ? 0 : t == 1 ? -1 : 1 + (int) c.draw(5);
			if (c.chance(1, 6)) eintr = 1 + (int) c.draw(4);
			do_wait(t, eintr ? "interrupted wait" : "wait");
			break;
		}
		default: { // unusable descriptors, a failing wait
			struct sc_sock_fd bad;
			memset(&bad, 0, sizeof bad);
			bad.op = SC_SOCK_NONE;
			bad.fd = -1;
			int fd = -1;
			if (c.flip()) bad.fd = fd = open("/proc/self/status", O_RDONLY | O_CLOEXEC);
			bool file = fd >= 0 && c.flip();
			if (fd >= 0 && !file) { close(fd); fd = -1; }
			if (file) { close(fd); bad.fd = fd = -1; }
			on = true;
			int rc = sc_sock_poll_add(&p, &bad, (enum sc_sock_ev) (1 + c.draw(3)), tags.data());
			on = false;
			REQUIRE(c, rc < 0 && bad.op == SC_SOCK_NONE, "an unusable descriptor is registered (%d)", rc);
			REQUIRE(c, *sc_sock_poll_err(&p), "no message for an unusable descriptor");
			if (fd >= 0) close(fd);
			if (c.flip()) {
				wait_fail = 1;
				on = true;
				rc = sc_sock_poll_wait(&p, 0);
				on = false;
				if (!wait_fail) REQUIRE(c, rc < 0 && strstr(sc_sock_poll_err(&p), strerror(EBADF)), "a failing wait returns %d with '%s'", rc, sc_sock_poll_err(&p));
				wait_fail = 0;
			}
			c.trace("unusable descriptor refused");
			break;
		}
		}
		(void) has_in;
	}
	eintr = 0;
	do_wait(0, "last wait");
	// never reported once removed
	for (size_t i = 0; i < d.size(); i++) {
		if (!d[i].open || !d[i].mask) continue;
		if (c.flip()) {
			on = true;
			int rc = sc_sock_poll_del(&p, &d[i].fdt, (enum sc_sock_ev) 7, NULL);
			on = false;
			REQUIRE(c, rc == 0, "removing fails");
			d[i].mask = 0;
		}
	}
	do_wait(0, "after removals");
	{ Alloc a; REQUIRE(c, sc_sock_poll_term(&p) == 0, "sc_sock_poll_term() fails"); }
	REQUIRE(c, pbt_alloc_live == 0, "memory is left behind");
	REQUIRE(c, sc_sock_poll_wait(&p, 0) < 0, "waiting on a terminated poll succeeds");
	REQUIRE(c, sc_sock_poll_term(&p) == 0, "a second termination fails");
	for (auto &x : d) if (x.open) close(x.fdt.fd);
	REQUIRE(c, count_fds() == base, "descriptors are left behind");
	c.count("waits", quiet_and_ready);
	if (reported_some) c.nontrivial();
}
#endif
