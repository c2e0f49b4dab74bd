// C28: library pipes against a byte queue, service notifications against stand-in supervisors.
#include "pbt.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stddef.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <thread>
#include <unistd.h>
extern "C" {
#include "sc_sock.h"
}
using namespace pbt;

const HarnessInfo harness_info = {
	"either a history of 1..40 writes and reads of 0..9000 bytes on a library pipe (blocking or not, interrupted and shortened at random, "
	"sometimes streaming up to 400 kB through a second thread, or watched by a poll), with refused creation and closing; or notifications of "
	"0..60000 bytes to path and abstract sockets (1..107 bytes, too long, malformed, missing, wrong type, failing calls) with decoys at "
	"the cut address. Non-trivial: bytes crossed a chunk boundary, or a notification was delivered or had to be refused.",
	true};

// ---- stand-ins -------------------------------------------------------------
static bool on;
static int eintr, io_errno, short_to, pipe_fail, close_fail, sock_fail, send_fail, hits;
extern "C" {
#define FAULT(flag) (on && (flag) && (errno = (flag), (flag) = 0, hits++, true))
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (on && eintr > 0) { eintr--; errno = EINTR; return -1; }
	if (FAULT(io_errno)) return -1;
	if (on && short_to > 0 && n > (size_t) short_to) { n = (size_t) short_to; short_to = 0; }
	return __real_write(fd, b, n);
}
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (on && eintr > 0) { eintr--; errno = EINTR; return -1; }
	if (FAULT(io_errno)) return -1;
	if (on && short_to > 0 && n > (size_t) short_to) { n = (size_t) short_to; short_to = 0; }
	return __real_read(fd, b, n);
}
int __real_pipe(int *);
int __wrap_pipe(int *f)
{
	if (FAULT(pipe_fail)) return -1;
	return __real_pipe(f);
}
int __real_pipe2(int *, int);
int __wrap_pipe2(int *f, int k)
{
	if (FAULT(pipe_fail)) return -1;
	return __real_pipe2(f, k);
}
int __real_close(int);
int __wrap_close(int fd)
{
	int rc = __real_close(fd);
	if (rc == 0 && on && close_fail > 0 && --close_fail == 0) { errno = EIO; hits++; return -1; }
	return rc;
}
int __real_socket(int, int, int);
int __wrap_socket(int a, int b, int k)
{
	if (FAULT(sock_fail)) return -1;
	return __real_socket(a, b, k);
}
ssize_t __real_sendmsg(int, const struct msghdr *, int);
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int f)
{
	if (FAULT(send_fail)) return -1;
	return __real_sendmsg(fd, m, f);
}
ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l)
{
	if (FAULT(send_fail)) return -1;
	return __real_sendto(fd, b, n, f, a, l);
}
}
static bool sigpiped;
static void on_pipe(int) { sigpiped = true; }
void harness_init() { signal(SIGPIPE, on_pipe); }

static int count_fds()
{
	int n = 0;
	for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++;
	return n;
}
static std::string data(Case &c, size_t n)
{
	std::string s(n, 0);
	uint32_t r = (uint32_t) c.draw(1u << 31);
	for (auto &b : s) { r = r * 1664525u + 1013904223u; b = (char) (r >> 24); }
	return s;
}

static void pipes(Case &c)
{
	struct sc_sock_pipe p;
	memset(&p, 0xa5, sizeof p);
	int type = (int) c.draw(1000);
	if (c.chance(1, 8)) {
		pipe_fail = c.flip() ? EMFILE : ENFILE;
		int e = pipe_fail;
		on = true;
		int rc = sc_sock_pipe_init(&p, type);
		on = false;
		if (hits) {
			REQUIRE(c, rc < 0, "a pipe that could not be created: init returns %d", rc);
			REQUIRE(c, strstr(sc_sock_pipe_err(&p), strerror(e)), "the message of a refused pipe is '%s'", sc_sock_pipe_err(&p));
			REQUIRE(c, sc_sock_pipe_term(&p) == 0, "terminating a pipe that was not created fails");
		} else {
			sc_sock_pipe_term(&p);
		}
		pipe_fail = hits = 0;
	}
	REQUIRE(c, sc_sock_pipe_init(&p, type) == 0, "sc_sock_pipe_init() fails: %s", sc_sock_pipe_err(&p));
	REQUIRE(c, p.fdt.type == type && p.fdt.op == SC_SOCK_NONE && p.fdt.fd == p.fds[0], "the pipe's poll descriptor is type %d op %d fd %d, reading end %d",
		p.fdt.type, (int) p.fdt.op, (int) p.fdt.fd, (int) p.fds[0]);
	bool nb = c.flip();
	if (nb) for (int i = 0; i < 2; i++) fcntl(p.fds[i], F_SETFL, O_NONBLOCK);
	bool watched = c.chance(1, 4);
	struct sc_sock_poll poll;
	if (watched) {
		REQUIRE(c, sc_sock_poll_init(&poll) == 0, "sc_sock_poll_init fails");
		REQUIRE(c, sc_sock_poll_add(&poll, &p.fdt, SC_SOCK_READ, &p) == 0, "the pipe cannot be watched");
	}
	std::string q; // what is in the pipe
	size_t steps = 1 + c.draw(40);
	size_t big = c.chance(1, 30) ? 1 + c.draw(400000) : 0;
	bool crossed = false;
	for (size_t s = 0; s < steps; s++) {
		bool w = c.flip();
		size_t n = c.chance(1, 12) ? 0 : c.chance(1, 6) ? 1 + c.draw(9000) : 1 + c.size(200);
		eintr = c.chance(1, 4) ? 1 + (int) c.draw(3) : 0;
		short_to = c.chance(1, 6) ? 1 + (int) c.draw(n + 1) : 0;
		io_errno = c.chance(1, 16) ? (c.flip() ? EIO : ENOBUFS) : 0;
		hits = 0;
		if (w) {
			if (!nb && q.size() + n > 24000) continue; // each page of the pipe may be half empty: what does not fit a page starts the next
			std::string b = data(c, n), copy = b;
			on = true;
			int rc = sc_sock_pipe_write(&p, &b[0], (unsigned) n);
			on = false;
			c.trace("write %zu%s%s -> %d", n, nb ? " nb" : "", hits ? " (failing)" : "", rc);
			REQUIRE(c, b == copy, "writing changes the caller's data");
			REQUIRE(c, rc <= (int) n, "writing %zu bytes returns %d", n, rc);
			if (rc > 0) q.append(b, 0, (size_t) rc);
			if (hits) REQUIRE(c, rc < (int) n || n == 0, "a failing write returns %d", rc);
			else if (!nb && n && !eintr) REQUIRE(c, rc >= 1, "writing %zu bytes returns %d", n, rc);
			int have = 0;
			ioctl(p.fds[0], FIONREAD, &have);
			REQUIRE(c, have == (int) q.size(), "after a write that returned %d the pipe holds %d bytes, expected %zu", rc, have, q.size());
		} else {
			if (!nb && q.empty()) continue;
			std::vector<char> b(n + 16, 0x55);
			on = true;
			int rc = sc_sock_pipe_read(&p, b.data(), (unsigned) n);
			on = false;
			c.trace("read %zu%s%s -> %d", n, nb ? " nb" : "", hits ? " (failing)" : "", rc);
			REQUIRE(c, rc <= (int) n, "reading %zu bytes returns %d", n, rc);
			for (size_t i = rc > 0 ? (size_t) rc : 0; i < b.size(); i++) REQUIRE(c, b[i] == 0x55, "a read that returned %d wrote byte %zu", rc, i);
			if (rc > 0) {
				REQUIRE(c, (size_t) rc <= q.size(), "reading returns %d bytes, %zu were written", rc, q.size());
				REQUIRE(c, !memcmp(b.data(), q.data(), (size_t) rc), "the bytes read differ from the bytes written");
				if (q.size() > (size_t) rc) crossed = true;
				q.erase(0, (size_t) rc);
			} else if (!hits) {
				REQUIRE(c, n == 0 || q.empty(), "reading %zu of %zu bytes returns %d", n, q.size(), rc);
			}
			if (n && q.empty() && !rc) REQUIRE(c, nb, "end of stream");
			if (hits) REQUIRE(c, rc < (int) n || n == 0, "a failing read returns %d", rc);
		}
		eintr = short_to = io_errno = 0;
		if (watched && c.chance(1, 3)) {
			int k = sc_sock_poll_wait(&poll, 0);
			REQUIRE(c, k == (q.empty() ? 0 : 1), "a pipe holding %zu bytes: poll returns %d", q.size(), k);
			if (k == 1) REQUIRE(c, sc_sock_poll_data(&poll, 0) == &p && sc_sock_poll_event(&poll, 0) == SC_SOCK_READ, "the poll reports the pipe wrongly");
		}
	}
	if (big && !nb) { // blocking transfer through another thread
		std::string b = data(c, big), got;
		size_t chunk = 1 + c.draw(70000), rchunk = 1 + c.draw(30000);
		std::string err;
		std::thread t([&] {
			for (size_t o = 0; o < b.size();) {
				size_t n = std::min(chunk, b.size() - o);
				int rc = sc_sock_pipe_write(&p, &b[o], (unsigned) n);
				if (rc <= 0) { err = "a blocking write fails"; return; }
				o += (size_t) rc;
			}
		});
		std::vector<char> r(rchunk);
		while (got.size() < q.size() + b.size()) {
			int rc = sc_sock_pipe_read(&p, r.data(), (unsigned) rchunk);
			if (rc <= 0) break;
			got.append(r.data(), (size_t) rc);
		}
		t.join();
		c.trace("streamed %zu bytes", big);
		REQUIRE(c, err.empty(), "%s", err.c_str());
		REQUIRE(c, got == q + b, "%zu bytes streamed through the pipe arrive changed", b.size());
		crossed = true;
	}
	if (watched) {
		REQUIRE(c, sc_sock_poll_del(&poll, &p.fdt, SC_SOCK_READ, &p) == 0, "the pipe cannot be removed");
		sc_sock_poll_term(&poll);
	}
	close_fail = c.chance(1, 6) ? 1 + (int) c.draw(2) : 0;
	hits = 0;
	on = true;
	int rc = sc_sock_pipe_term(&p);
	on = false;
	close_fail = 0;
	if (hits) REQUIRE(c, rc < 0 && strstr(sc_sock_pipe_err(&p), strerror(EIO)), "closing failed, term returns %d with '%s'", rc, sc_sock_pipe_err(&p));
	else REQUIRE(c, rc == 0, "sc_sock_pipe_term() fails: %s", sc_sock_pipe_err(&p));
	REQUIRE(c, sc_sock_pipe_term(&p) == 0, "a second termination fails");
	if (crossed) c.nontrivial();
}

// ---- notifications ---------------------------------------------------------
static int supervisor(const std::string &name, int type)
{
	struct sockaddr_un a;
	memset(&a, 0, sizeof a);
	a.sun_family = AF_UNIX;
	memcpy(a.sun_path, name.data(), std::min(name.size(), sizeof a.sun_path));
	if (name[0] == '@') a.sun_path[0] = 0;
	int fd = socket(AF_UNIX, type | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
	socklen_t len = (socklen_t) (offsetof(struct sockaddr_un, sun_path) + name.size());
	if (bind(fd, (struct sockaddr *) &a, len) != 0) { close(fd); return -1; }
	int big = 1 << 20;
	setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big);
	if (type == SOCK_STREAM) listen(fd, 4);
	return fd;
}
static std::string pad(Case &c, std::string s, size_t to)
{
	// extend to a given length with name characters, keeping path components short enough
	static const char A[] = "abcdefghijklmnopqrstuvwxyz0123456789";
	while (s.size() < to) s += A[c.draw(36)];
	return s;
}

static void notify(Case &c)
{
	enum { PATH, ABSTRACT, LONG_PATH, LONG_ABSTRACT, UNSET, MALFORMED, MISSING, STREAM, GONE };
	int kind = (int) c.weighted({6, 6, 3, 3, 1, 3, 1, 1, 1});
	std::string dir = scratch(), name;
	static unsigned serial;
	char u[64];
	snprintf(u, sizeof u, "%d-%u", (int) getpid(), serial++);
	std::string base = kind == ABSTRACT || kind == LONG_ABSTRACT ? std::string("@vp-") + u + "-" : dir + "/n" + u + "-";
	size_t want = base.size() + c.size(107 - base.size());
	if (c.chance(1, 3)) want = 107 - c.draw(3);
	if (kind == LONG_PATH || kind == LONG_ABSTRACT) want = 108 + (c.flip() ? c.draw(3) : c.draw(100));
	name = pad(c, base, want);
	std::vector<int> fds, decoys;
	int fd = -1;
	switch (kind) {
	case PATH:
	case ABSTRACT:
		fd = supervisor(name, SOCK_DGRAM);
		if (fd < 0) c.error("bind %s: %s", name.c_str(), strerror(errno));
		if (name.size() > base.size()) decoys.push_back(supervisor(name.substr(0, name.size() - 1), SOCK_DGRAM));
		if (kind == ABSTRACT && name.size() < 107) decoys.push_back(supervisor(name + std::string(1, '\0'), SOCK_DGRAM));
		if (kind == ABSTRACT) decoys.push_back(supervisor(name + std::string(108 - name.size(), '\0'), SOCK_DGRAM));
		break;
	case LONG_PATH:
	case LONG_ABSTRACT:
		for (size_t l = 106; l <= 108; l++) decoys.push_back(supervisor(name.substr(0, l), SOCK_DGRAM));
		if (kind == LONG_ABSTRACT) decoys.push_back(supervisor(name.substr(0, 107) + std::string(1, '\0'), SOCK_DGRAM));
		break;
	case STREAM: decoys.push_back(supervisor(name, SOCK_STREAM)); break;
	case GONE: close(supervisor(name, SOCK_DGRAM)); break;
	case MALFORMED: {
		static const char *M[] = {"", "/", "@", "relative", "n", " /run/x", "vsock:2:1"};
		name = M[c.draw(7)];
		break;
	}
	default: break;
	}
	decoys.erase(std::remove(decoys.begin(), decoys.end(), -1), decoys.end());
	if (kind == UNSET) unsetenv("NOTIFY_SOCKET");
	else setenv("NOTIFY_SOCKET", name.c_str(), 1);
	bool ok = kind == PATH || kind == ABSTRACT;
	size_t rounds = 1 + c.draw(3);
	int before = count_fds();
	for (size_t r = 0; r < rounds; r++) {
		std::string msg = c.chance(1, 8) ? "" : c.chance(1, 3) ? "READY=1\n" : c.text(1 + (c.chance(1, 10) ? c.draw(60000) : c.size(300)), "ABC=\n xyz019%\\\x80\xff");
		hits = 0;
		sock_fail = c.chance(1, 10) ? (c.flip() ? EMFILE : EACCES) : 0;
		send_fail = c.chance(1, 10) ? (c.flip() ? ENOBUFS : ECONNREFUSED) : 0;
		int e1 = sock_fail, e2 = send_fail;
		errno = 0;
		on = true;
		int rc = sc_sock_notify_systemd(msg.c_str());
		int e = errno;
		on = false;
		int inj = sock_fail != e1 ? e1 : send_fail != e2 ? e2 : 0;
		sock_fail = send_fail = 0;
		c.trace("notify %s (%zu bytes) with %zu bytes -> %d errno %d", quote(name, 40).c_str(), name.size(), msg.size(), rc, e);
		if (inj) {
			REQUIRE(c, rc < 0 && e == inj, "a failing call (%s) is reported as %d, errno %d", strerror(inj), rc, e);
		} else if (ok) {
			REQUIRE(c, rc == 0, "a notification of %zu bytes to a %s of %zu bytes fails: %s", msg.size(), kind == PATH ? "path" : "abstract name", name.size(), strerror(e));
		} else {
			REQUIRE(c, rc < 0, "a notification to an %s is reported as sent", kind == LONG_PATH || kind == LONG_ABSTRACT ? "address that is too long" :
				kind == UNSET ? "unset address" : kind == MALFORMED ? "invalid address" : "address nobody listens on");
			REQUIRE(c, e != 0, "a refused notification leaves errno unset");
		}
		if (ok && !inj) {
			std::vector<char> b(70000);
			ssize_t n = recv(fd, b.data(), b.size(), 0);
			REQUIRE(c, n >= 0, "the supervisor received nothing");
			REQUIRE(c, std::string(b.data(), (size_t) n) == msg, "the supervisor received %s instead of %s", quote(std::string(b.data(), (size_t) n)).c_str(), quote(msg).c_str());
		}
		if (fd >= 0) {
			char b[8];
			REQUIRE(c, recv(fd, b, sizeof b, 0) < 0, "the supervisor received an extra datagram");
		}
		for (int d : decoys) {
			struct pollfd q = {d, POLLIN, 0};
			REQUIRE(c, poll(&q, 1, 0) == 0, "a socket at another address received the notification for an address of %zu bytes", name.size());
		}
		REQUIRE(c, count_fds() == before, "a notification leaves %d descriptors open", count_fds() - before);
		const char *env = getenv("NOTIFY_SOCKET");
		REQUIRE(c, kind == UNSET ? !env : env && name == env, "the environment is changed");
	}
	if (fd >= 0) close(fd);
	for (int d : decoys) close(d);
	if (kind != ABSTRACT && kind != LONG_ABSTRACT && kind != MALFORMED && kind != UNSET)
		for (size_t l = 106; l <= name.size(); l++) unlink(name.substr(0, l).c_str());
	if (kind != MALFORMED && kind != UNSET && name[0] == '/') { unlink(name.c_str()); unlink(name.substr(0, name.size() - 1).c_str()); }
	if (!decoys.empty() || ok) c.nontrivial();
}

void run_case(Case &c)
{
	on = false;
	eintr = io_errno = short_to = pipe_fail = close_fail = sock_fail = send_fail = hits = 0;
	sigpiped = false;
	scratch();
	int base = count_fds();
	if (c.flip()) pipes(c);
	else notify(c);
	REQUIRE(c, !sigpiped, "SIGPIPE");
	REQUIRE(c, count_fds() == base, "descriptors are left behind");
}
