// C26: connections over TCP and unix sockets against a byte-queue model, with refused and interrupted calls.
#include "pbt.h"
#include <algorithm>
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>
extern "C" {
#include "sc_sock.h"
}
using namespace pbt;

const HarnessInfo harness_info = {
	"a server of a generated family (IPv4 on any 127/8 address, IPv6, unix path), blocking or not, and one or two clients (source address or "
	"port chosen, family preference not matching, names): 0..40 steps of sending, receiving, peeking, half closing, mode and timeout changes "
	"and address queries; system calls are interrupted, cut short or refused at generated points; unusable addresses, refused and "
	"conflicting ones are mixed in. Received bytes, end of stream, errno, modes, timeouts, address texts, messages and descriptors are "
	"compared with a model. Non-trivial: bytes went through a connection, or a call was refused and its cleanup checked.",
	false, 30, 60};

// ---- stand-ins -------------------------------------------------------------
enum { F_NONE, F_SOCKET, F_BIND, F_LISTEN, F_CONNECT, F_ACCEPT, F_SETSOCKOPT, F_FCNTL, F_GAI, F_NAME, F_PEER, F_GETSOCKOPT, F_SEND, F_RECV, F_CLOSE, F_N };
static bool on;
static int f_kind, f_skip, f_err, f_times, f_hit, f_short;
static long gai_live;
static const void *seen_buf;
static size_t seen_len;
static int seen_flags, calls;
static ssize_t seen_ret;
static bool refuse(int k)
{
	if (!on || f_kind != k || f_times <= 0) return false;
	if (f_skip-- > 0) return false;
	f_skip = 0;
	f_times--;
	f_hit++;
	errno = f_err;
	return true;
}
static int alarm_fd = -1;
static std::vector<std::string> g_several;
extern "C" {
int __real_socket(int, int, int);
int __wrap_socket(int a, int b, int c) { return refuse(F_SOCKET) ? -1 : __real_socket(a, b, c); }
int __real_bind(int, const struct sockaddr *, socklen_t);
int __wrap_bind(int a, const struct sockaddr *b, socklen_t c) { return refuse(F_BIND) ? -1 : __real_bind(a, b, c); }
int __real_listen(int, int);
int __wrap_listen(int a, int b) { return refuse(F_LISTEN) ? -1 : __real_listen(a, b); }
int __real_connect(int, const struct sockaddr *, socklen_t);
int __wrap_connect(int a, const struct sockaddr *b, socklen_t c) { return refuse(F_CONNECT) ? -1 : __real_connect(a, b, c); }
int __real_accept(int, struct sockaddr *, socklen_t *);
int __wrap_accept(int a, struct sockaddr *b, socklen_t *c) { return refuse(F_ACCEPT) ? -1 : __real_accept(a, b, c); }
int __real_accept4(int, struct sockaddr *, socklen_t *, int);
int __wrap_accept4(int a, struct sockaddr *b, socklen_t *c, int d) { return refuse(F_ACCEPT) ? -1 : __real_accept4(a, b, c, d); }
int __real_setsockopt(int, int, int, const void *, socklen_t);
int __wrap_setsockopt(int a, int b, int c, const void *d, socklen_t e) { return refuse(F_SETSOCKOPT) ? -1 : __real_setsockopt(a, b, c, d, e); }
int __real_getsockopt(int, int, int, void *, socklen_t *);
int __wrap_getsockopt(int a, int b, int c, void *d, socklen_t *e) { return refuse(F_GETSOCKOPT) ? -1 : __real_getsockopt(a, b, c, d, e); }
int __real_fcntl(int, int, ...);
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list va;
	va_start(va, cmd);
	long arg = va_arg(va, long);
	va_end(va);
	if (refuse(F_FCNTL)) return -1;
	return __real_fcntl(fd, cmd, arg);
}
int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
void __real_freeaddrinfo(struct addrinfo *);
int __wrap_getaddrinfo(const char *h, const char *s, const struct addrinfo *i, struct addrinfo **r)
{
	if (refuse(F_GAI)) return f_err;
	int rc;
	if (on && h && strcmp(h, "several.test") == 0) { // a name with the addresses of g_several
		struct addrinfo **at = r;
		*r = NULL;
		for (auto &x : g_several) {
			if ((rc = __real_getaddrinfo(x.c_str(), s, i, at)) != 0) {
				if (*r) __real_freeaddrinfo(*r);
				return rc;
			}
			while (*at) at = &(*at)->ai_next;
		}
		gai_live++;
		return 0;
	}
	rc = __real_getaddrinfo(h, s, i, r);
	if (rc == 0 && on) gai_live++;
	return rc;
}
void __real_freeaddrinfo(struct addrinfo *);
void __wrap_freeaddrinfo(struct addrinfo *a) { if (on && a) gai_live--; __real_freeaddrinfo(a); }
int __real_getsockname(int, struct sockaddr *, socklen_t *);
int __wrap_getsockname(int a, struct sockaddr *b, socklen_t *c) { return refuse(F_NAME) ? -1 : __real_getsockname(a, b, c); }
int __real_getpeername(int, struct sockaddr *, socklen_t *);
int __wrap_getpeername(int a, struct sockaddr *b, socklen_t *c) { return refuse(F_PEER) ? -1 : __real_getpeername(a, b, c); }
int __real_close(int);
int __wrap_close(int fd)
{
	if (!refuse(F_CLOSE)) return __real_close(fd);
	int e = errno;
	__real_close(fd); // gone all the same
	errno = e;
	return -1;
}
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl)
{
	if (!on) return __real_send(fd, b, n, fl);
	calls++;
	seen_buf = b; seen_len = n; seen_flags = fl;
	if (refuse(F_SEND)) return seen_ret = -1;
	if (f_short && n > (size_t) f_short) n = (size_t) f_short;
	return seen_ret = __real_send(fd, b, n, fl);
}
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl)
{
	if (!on) return __real_recv(fd, b, n, fl);
	calls++;
	seen_buf = b; seen_len = n; seen_flags = fl;
	if (refuse(F_RECV)) return seen_ret = -1;
	if (f_short && n > (size_t) f_short) n = (size_t) f_short;
	return seen_ret = __real_recv(fd, b, n, fl);
}
}

static void clear_fault() { f_kind = F_NONE; f_times = f_hit = f_skip = f_short = 0; }
struct Lib { Lib() { on = true; errno = 0; calls = 0; } ~Lib() { int e = errno; on = false; errno = e; } };

static const int MAXFD = 128;
static std::string fds()
{
	std::string r(MAXFD, '0');
	for (int i = 0; i < MAXFD; i++) if (__real_fcntl(i, F_GETFD) != -1) r[(size_t) i] = '1';
	return r;
}
static int count_fds() { std::string s = fds(); return (int) std::count(s.begin(), s.end(), '1'); }

static double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (double) t.tv_sec + (double) t.tv_nsec * 1e-9;
}
static bool wait_fd(int fd, short ev, int ms)
{
	struct pollfd p = {fd, ev, 0};
	return poll(&p, 1, ms) > 0;
}
static bool nonblock(int fd) { return __real_fcntl(fd, F_GETFL) & O_NONBLOCK; }

static bool nodelay(int fd)
{
	int v = 0;
	socklen_t l = sizeof v;
	return __real_getsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &v, &l) == 0 && v;
}

// a socket on that port that is not just waiting for its time to pass
static bool port_in_use(int port)
{
	for (const char *f : {"/proc/net/tcp", "/proc/net/tcp6"}) {
		FILE *fp = fopen(f, "re");
		if (!fp) continue;
		char b[512];
		while (fgets(b, sizeof b, fp)) {
			unsigned lp, st;
			if (sscanf(b, " %*d: %*[0-9A-F]:%x %*[0-9A-F]:%*x %x", &lp, &st) != 2 || (int) lp != port) continue;
			if (st == 1 || st == 2 || st == 3 || st == 10) { fclose(fp); return true; }
		}
		fclose(fp);
	}
	return false;
}

static bool have_v6()
{
	static int v = -1;
	if (v < 0) {
		int fd = __real_socket(AF_INET6, SOCK_STREAM, 0);
		struct sockaddr_in6 a = {};
		a.sin6_family = AF_INET6;
		a.sin6_addr = in6addr_loopback;
		v = fd >= 0 && __real_bind(fd, (struct sockaddr *) &a, sizeof a) == 0;
		if (fd >= 0) close(fd);
	}
	return v == 1;
}

static std::string addr_text(int fd, bool peer)
{
	struct sockaddr_storage st;
	memset(&st, 0, sizeof st);
	socklen_t l = sizeof st;
	if ((peer ? __real_getpeername(fd, (struct sockaddr *) &st, &l) : __real_getsockname(fd, (struct sockaddr *) &st, &l)) != 0) return "<none>";
	char b[INET6_ADDRSTRLEN] = "";
	if (st.ss_family == AF_INET) {
		auto *a = (struct sockaddr_in *) &st;
		inet_ntop(AF_INET, &a->sin_addr, b, sizeof b);
		return std::string(b) + ":" + std::to_string(ntohs(a->sin_port));
	}
	if (st.ss_family == AF_INET6) {
		auto *a = (struct sockaddr_in6 *) &st;
		inet_ntop(AF_INET6, &a->sin6_addr, b, sizeof b);
		return std::string(b) + ":" + std::to_string(ntohs(a->sin6_port));
	}
	auto *u = (struct sockaddr_un *) &st;
	if (l <= offsetof(struct sockaddr_un, sun_path)) return "";
	return std::string(u->sun_path, strnlen(u->sun_path, l - offsetof(struct sockaddr_un, sun_path)));
}
static int port_of(int fd)
{
	std::string t = addr_text(fd, false);
	return atoi(t.c_str() + t.rfind(':') + 1);
}

struct Side {
	struct sc_sock s;
	bool live = false, blocking = true, wr_shut = false;
	std::string in; // bytes sent by the other side, not yet received
	unsigned chunks = 0;
	bool eof = false, reset = false;
};
struct Conn { Side e[2]; bool live = false; };

static std::string message(struct sc_sock *s)
{
	const char *e = sc_sock_error(s);
	return std::string(e, strnlen(e, 128));
}

static void dirty(struct sc_sock *s, unsigned char b) { memset(s, b, sizeof *s); }

static void check_text(Case &c, Side &x, const char *who, int fam)
{
	std::string l = addr_text(x.s.fdt.fd, false), r = addr_text(x.s.fdt.fd, true);
	bool gone = r == "<none>"; // both directions are shut: no peer any more
	if (gone) r = "";
	size_t n = c.chance(1, 4) ? 1 + c.draw(20) : 200;
	char *b = (char *) malloc(n);
	memset(b, 'Q', n);
	{
		// leave something on the stack for uninitialised reads to show
		volatile char junk[1024];
		memset((void *) junk, 'J', sizeof junk);
	}
	const char *p;
	{ Lib o; p = sc_sock_local_str(&x.s, b, n); }
	REQUIRE(c, p && memchr(b, 0, n), "%s: the local address is not a string", who);
	REQUIRE(c, std::string(b) == l.substr(0, n - 1), "%s: the local address is %s, the socket has %s (buffer %zu)", who, quote(b).c_str(), quote(l).c_str(), n);
	memset(b, 'Q', n);
	{ Lib o; p = sc_sock_remote_str(&x.s, b, n); }
	REQUIRE(c, !p == gone && memchr(b, 0, n), "%s: the remote address is not a string", who);
	REQUIRE(c, std::string(b) == r.substr(0, n - 1), "%s: the remote address is %s, the socket has %s (buffer %zu)", who, quote(b).c_str(), quote(r).c_str(), n);
	if (fam != AF_UNIX || true) {
		memset(b, 'Q', n);
		{ Lib o; sc_sock_print(&x.s, b, n); }
		std::string want = "Local(" + l.substr(0, 127) + "), Remote(" + r.substr(0, 127) + ")";
		REQUIRE(c, memchr(b, 0, n), "%s: sc_sock_print() writes no string", who);
		std::string got = b;
		while (!got.empty() && got.back() == ' ') got.pop_back();
		std::string w = want.substr(0, n - 1);
		while (!w.empty() && w.back() == ' ') w.pop_back();
		REQUIRE(c, got == w, "%s: printed as %s, expected %s", who, quote(got).c_str(), quote(w).c_str());
	}
	free(b);
}

// a refused name lookup on a live socket
static void check_text_fault(Case &c, Side &x)
{
	clear_fault();
	bool peer = c.flip();
	f_kind = peer ? F_PEER : F_NAME;
	f_err = ENOTCONN;
	f_times = 1;
	char b[32];
	memset(b, 'Q', sizeof b);
	const char *p;
	{ Lib o; p = peer ? sc_sock_remote_str(&x.s, b, sizeof b) : sc_sock_local_str(&x.s, b, sizeof b); }
	bool hit = f_hit;
	clear_fault();
	if (!hit) return;
	REQUIRE(c, !p && b[0] == 0, "an unknown address is reported as %s", quote(std::string(b, strnlen(b, 32))).c_str());
	REQUIRE(c, message(&x.s) == strerror(ENOTCONN), "an unknown address leaves the message %s", quote(message(&x.s)).c_str());
}

static unsigned g_faults;
// expect a clean failure
static void failed(Case &c, struct sc_sock *s, int rc, int before, const char *op, const char *msg)
{
	REQUIRE(c, rc < 0, "%s succeeds although it cannot (%s)", op, msg ? msg : "");
	std::string m = message(s);
	if (msg) REQUIRE(c, m == msg, "%s failed with the message %s, the system reported '%s'", op, quote(m).c_str(), msg);
	REQUIRE(c, !m.empty() && m != strerror(0), "%s failed with the message %s", op, quote(m).c_str());
	int n = count_fds();
	REQUIRE(c, n == before, "a failed %s leaves %d descriptor(s) behind", op, n - before);
	REQUIRE(c, gai_live == 0, "a failed %s leaks address information", op);
	if (c.flip()) {
		int t;
		{ Lib o; t = sc_sock_term(s); }
		REQUIRE(c, t == 0 && count_fds() == before, "terminating after a failed %s returns %d", op, t);
	}
	g_faults++;
}

static const char *FN[] = {"", "socket", "bind", "listen", "connect", "accept", "setsockopt", "fcntl", "getaddrinfo", "getsockname", "getpeername", "getsockopt", "send", "recv", "close"};
static bool arm(Case &c, std::initializer_list<int> kinds, int fam)
{
	clear_fault();
	std::vector<int> k(kinds);
	f_kind = k[c.draw(k.size())];
	switch (f_kind) {
	case F_GAI: { static const int E[] = {EAI_AGAIN, EAI_MEMORY, EAI_FAIL, EAI_NONAME}; f_err = E[c.draw(4)]; break; }
	case F_SOCKET: f_err = c.flip() ? EMFILE : ENOBUFS; break;
	case F_CONNECT: f_err = c.flip() ? ECONNREFUSED : ENETUNREACH; break;
	case F_ACCEPT: f_err = c.flip() ? EMFILE : ECONNABORTED; break;
	case F_BIND: f_err = c.flip() ? EADDRINUSE : EACCES; break;
	default: f_err = c.flip() ? ENOMEM : EINVAL; break;
	}
	f_times = 1;
	f_skip = f_kind == F_SETSOCKOPT || f_kind == F_FCNTL ? (int) c.draw(3) : 0;
	(void) fam;
	return true;
}
static std::string fault_msg() { return f_kind == F_GAI ? gai_strerror(f_err) : strerror(f_err); }

static std::string unix_path(Case &c, const std::string &d)
{
	std::string p = d + "/u";
	size_t room = 107 - p.size();
	switch (c.weighted({4, 1, 1})) {
	case 0: p += c.text(c.size(20), "abcXYZ09 .%"); break;
	case 1: p += std::string(room - c.draw(3), 'm'); break; // longest names
	default: p += c.text(c.draw(room), "abcXYZ09_"); break;
	}
	return p;
}

void harness_init()
{
	signal(SIGPIPE, SIG_IGN);
}

void run_case(Case &c)
{
	static std::string d;
	if (d.empty()) {
		d = scratch();
	}
	clear_fault();
	gai_live = 0;
	g_faults = 0;
	on = false;
	int base = count_fds();
	size_t moved = 0;
	int fam = c.weighted({4, have_v6() ? 2u : 0u, 4}) == 0 ? AF_INET : -1;
	if (fam < 0) fam = have_v6() && c.chance(1, 3) ? AF_INET6 : AF_UNIX;
	bool blocking = c.flip();
	std::string host, path, chost;
	if (fam == AF_INET) {
		switch (c.weighted({3, 3, 1, 1})) {
		case 0: host = "127.0.0.1"; break;
		case 1: host = "127." + std::to_string(c.draw(256)) + "." + std::to_string(c.draw(256)) + "." + std::to_string(1 + c.draw(254)); break;
		case 2: host = "0.0.0.0"; chost = "127.0.0.1"; break;
		default: host = "localhost"; chost = "127.0.0.1"; break;
		}
	} else if (fam == AF_INET6) {
		if (c.chance(1, 4)) { host = "::"; chost = "::1"; }
		else host = "::1";
	} else {
		host = path = unix_path(c, d);
		if (c.chance(1, 4)) { // something is there already: replaced
			int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0644);
			if (fd >= 0) close(fd);
		}
	}
	if (chost.empty()) chost = host;
	static const char *FAM[] = {"ipv4", "ipv6", "unix"};
	const char *fname = FAM[fam == AF_INET ? 0 : fam == AF_INET6 ? 1 : 2];
	c.trace("server: %s %s at %s", blocking ? "blocking" : "non-blocking", fname, quote(host).c_str());
	c.label(fname);

	// ---- unusable addresses
	if (c.chance(1, 3)) {
		Side x;
		dirty(&x.s, 0x5a);
		int before = count_fds();
		sc_sock_init(&x.s, 7, c.flip(), fam);
		bool lis = c.flip();
		std::string h = chost, p = "0", msg;
		bool know = true;
		if (fam == AF_UNIX) {
			switch (c.draw(3)) {
			case 0: {
				h = d + "/" + c.text(200, "l");
				h.resize(108 + c.draw(60), 'l');
				struct stat st;
				std::string cut = h.substr(0, 107);
				int rc;
				{ Lib o; rc = lis ? sc_sock_listen(&x.s, h.c_str(), "") : sc_sock_connect(&x.s, h.c_str(), "", NULL, NULL); }
				bool left = lstat(cut.c_str(), &st) == 0;
				unlink(cut.c_str());
				REQUIRE(c, rc < 0, "a unix path of %zu bytes is accepted", h.size());
				REQUIRE(c, !left, "a unix path of %zu bytes was cut to %zu", h.size(), cut.size());
				failed(c, &x.s, rc, before, lis ? "listen" : "connect", NULL);
				h.clear();
				break;
			}
			case 1: h = d + "/missing/sock"; msg = strerror(ENOENT); break;
			default:
				if (lis) { h = d; msg = strerror(EADDRINUSE); }
				else { h = d + "/nosuch"; msg = strerror(ENOENT); }
				break;
			}
		} else {
			switch (c.draw(3)) {
			case 0: p = "no-such-service"; know = false; break;
			case 1:
				if (lis) { h = fam == AF_INET ? "203.0.113.77" : "2001:db8::77"; msg = strerror(EADDRNOTAVAIL); }
				else { // a port nobody listens on
					int fd = __real_socket(AF_INET, SOCK_STREAM, 0);
					struct sockaddr_in a = {};
					a.sin_family = AF_INET;
					a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
					if (__real_bind(fd, (struct sockaddr *) &a, sizeof a)) c.error("bind");
					p = std::to_string(port_of(fd));
					h = "127.0.0.1";
					x.blocking = x.s.blocking;
					int rc;
					{ Lib o; rc = sc_sock_connect(&x.s, h.c_str(), p.c_str(), NULL, NULL); }
					int e = errno;
					c.trace("connect to a closed port, %s -> %d (%s)", x.blocking ? "blocking" : "non-blocking", rc, strerror(e));
					REQUIRE(c, rc < 0, "connecting to a closed port succeeds");
					if (!x.blocking && e == EAGAIN) {
						if (!wait_fd(x.s.fdt.fd, POLLOUT, 5000)) c.error("the connection attempt does not end");
						{ Lib o; rc = sc_sock_finish_connect(&x.s); }
						REQUIRE(c, rc < 0 && message(&x.s) == strerror(ECONNREFUSED), "finishing a refused connection returns %d with %s", rc, quote(message(&x.s)).c_str());
						{ Lib o; sc_sock_term(&x.s); }
						REQUIRE(c, count_fds() == before + 1, "a descriptor is left behind");
						g_faults++;
					} else {
						failed(c, &x.s, rc, before + 1, "connect", strerror(ECONNREFUSED));
					}
					close(fd);
					h.clear();
				}
				break;
			default: p = "-1x"; know = false; break;
			}
		}
		if (!h.empty()) {
			int rc;
			{ Lib o; rc = lis ? sc_sock_listen(&x.s, h.c_str(), p.c_str()) : sc_sock_connect(&x.s, h.c_str(), p.c_str(), NULL, NULL); }
			c.trace("%s %s %s -> %d (%s)", lis ? "listen" : "connect", h.c_str(), p.c_str(), rc, message(&x.s).c_str());
			failed(c, &x.s, rc, before, lis ? "listen" : "connect", know ? msg.c_str() : NULL);
		}
	}

	// ---- the server
	Side srv;
	dirty(&srv.s, (unsigned char) c.draw(256));
	sc_sock_init(&srv.s, 42, blocking, fam);
	REQUIRE(c, srv.s.fdt.type == 42 && srv.s.fdt.op == SC_SOCK_NONE, "initialising does not keep the user's type");
	for (int tries = 0;; tries++) {
		bool f = tries < 3 && c.chance(1, 3);
		if (f && fam == AF_UNIX) arm(c, {F_SOCKET, F_BIND, F_LISTEN, F_FCNTL}, fam);
		else if (f) arm(c, {F_SOCKET, F_BIND, F_LISTEN, F_SETSOCKOPT, F_FCNTL, F_GAI}, fam);
		int before = count_fds(), rc;
		char *h = strdup(host.c_str());
		{ Lib o; rc = sc_sock_listen(&srv.s, h, fam == AF_UNIX ? "ignored" : "0"); }
		memset(h, 'x', strlen(h));
		free(h);
		c.trace("listen%s%s -> %d", f_hit ? " refused: " : "", f_hit ? FN[f_kind] : "", rc);
		if (f_hit) {
			std::string m = fault_msg();
			// with several addresses one refused socket() may be tolerated
			clear_fault();
			failed(c, &srv.s, rc, before, "listen", m.c_str());
			continue;
		}
		clear_fault();
		REQUIRE(c, rc == 0, "listening on %s fails: %s", quote(host).c_str(), message(&srv.s).c_str());
		REQUIRE(c, count_fds() == before + 1 && gai_live == 0, "listening opens %d descriptors", count_fds() - before);
		break;
	}
	srv.live = true;
	REQUIRE(c, nonblock(srv.s.fdt.fd) == !blocking, "the listening socket is %s, asked for %s", blocking ? "non-blocking" : "blocking", blocking ? "blocking" : "non-blocking");
	{
		char b[256];
		const char *p;
		{ Lib o; p = sc_sock_local_str(&srv.s, b, sizeof b); }
		std::string w = addr_text(srv.s.fdt.fd, false);
		REQUIRE(c, p && w == b, "the server's address is %s, bound to %s", quote(b).c_str(), quote(w).c_str());
		if (fam == AF_UNIX) REQUIRE(c, path == b, "the server's address is %s, bound to %s", quote(b).c_str(), quote(path).c_str());
		else if (host != "localhost") REQUIRE(c, w.compare(0, host.size() + 1, host + ":") == 0, "the server is bound to %s instead of %s", w.c_str(), host.c_str());
		{ Lib o; p = sc_sock_remote_str(&srv.s, b, sizeof b); }
		REQUIRE(c, !p && !*b, "a listening socket has the remote address %s", quote(b).c_str());
		int v = 0;
		socklen_t vl = sizeof v;
		__real_getsockopt(srv.s.fdt.fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &vl);
		REQUIRE(c, v, "the socket is not listening");
	}
	std::string port = fam == AF_UNIX ? "" : std::to_string(port_of(srv.s.fdt.fd));
	if (fam != AF_UNIX && c.chance(1, 6)) { // the address is taken
		struct sc_sock x;
		dirty(&x, 1);
		sc_sock_init(&x, 0, blocking, fam);
		int before = count_fds(), rc;
		{ Lib o; rc = sc_sock_listen(&x, host.c_str(), port.c_str()); }
		c.trace("listen on the same port -> %d", rc);
		failed(c, &x, rc, before, "listen on a taken port", strerror(EADDRINUSE));
	}
	if (!blocking && c.chance(1, 3)) {
		struct sc_sock x;
		sc_sock_init(&x, 0, true, fam);
		int rc, before = count_fds();
		{ Lib o; rc = sc_sock_accept(&srv.s, &x); }
		REQUIRE(c, rc < 0 && errno == EAGAIN, "accepting without a client returns %d, errno %d", rc, errno);
		REQUIRE(c, count_fds() == before, "accepting without a client leaks");
	}

	if (fam == AF_INET6 && c.chance(1, 3)) { // the port's IPv4 side is not the server's business
		int fd = __real_socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), v = 0;
		struct sockaddr_in a = {};
		a.sin_family = AF_INET;
		a.sin_port = htons((uint16_t) atoi(port.c_str()));
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		int rc = __real_bind(fd, (struct sockaddr *) &a, sizeof a);
		c.trace("an IPv4 socket takes the port of the IPv6 server -> %d", rc);
		close(fd);
		socklen_t l = sizeof v; // somebody else may have the port
		if (rc != 0 && host == "::") REQUIRE(c, __real_getsockopt(srv.s.fdt.fd, IPPROTO_IPV6, IPV6_V6ONLY, &v, &l) == 0 && v, "the IPv6 server takes the port for IPv4, too");
	}

	// ---- a name with several addresses, the first ones of which refuse
	if (fam != AF_UNIX && c.chance(1, 3)) {
		g_several.clear();
		size_t k = 2 + c.draw(3), dead = 0;
		std::string good = chost == "localhost" ? "127.0.0.1" : chost;
		bool deadlist = fam == AF_INET && host != "0.0.0.0" && c.flip(); // addresses nobody listens on
		for (size_t i = 0; i < k; i++) {
			bool last = i + 1 == k;
			std::string a = good;
			if (deadlist && (!last || c.chance(1, 4))) a = "127.250.251." + std::to_string(1 + i);
			else if (host == "0.0.0.0") a = "127.0.0." + std::to_string(1 + i);
			if (a == good || host == "0.0.0.0") { g_several.push_back(a); continue; }
			if (dead == g_several.size()) dead++;
			g_several.push_back(a);
		}
		Side x;
		x.blocking = deadlist || c.flip();
		dirty(&x.s, (unsigned char) c.draw(256));
		sc_sock_init(&x.s, 1, x.blocking, fam);
		int refused = 0;
		if (!deadlist) {
			refused = (int) c.draw((uint64_t) k + 2);
			f_kind = c.chance(2, 3) ? F_CONNECT : F_SOCKET;
			f_err = f_kind == F_CONNECT ? (c.flip() ? ECONNREFUSED : ENETUNREACH) : c.flip() ? EMFILE : EAFNOSUPPORT;
			f_times = refused;
		}
		bool any = deadlist ? dead < k : refused < (int) k;
		int kind = f_kind, err = deadlist ? ECONNREFUSED : f_err, before = count_fds(), rc, e;
		{ Lib o; rc = sc_sock_connect(&x.s, "several.test", port.c_str(), NULL, NULL); }
		e = errno;
		clear_fault();
		c.trace("connect to %zu addresses, %d refused, %s -> %d (%s)", k, deadlist ? (int) dead : refused, x.blocking ? "blocking" : "non-blocking", rc, rc ? strerror(e) : "");
		REQUIRE(c, gai_live == 0, "connecting leaks address information");
		if (rc != 0 && !x.blocking && e == EAGAIN) {
			REQUIRE(c, wait_fd(x.s.fdt.fd, POLLOUT, 5000), "the pending connection is never established");
			{ Lib o; rc = sc_sock_finish_connect(&x.s); }
		}
		if (!any) {
			failed(c, &x.s, rc, before, "connect to several addresses", kind == F_SOCKET ? NULL : strerror(err));
		} else {
			REQUIRE(c, rc == 0, "connecting fails (%s) although address %d of %zu accepts", message(&x.s).c_str(), deadlist ? (int) dead : refused, k);
			REQUIRE(c, count_fds() == before + 1, "connecting to several addresses opens %d descriptors", count_fds() - before);
			REQUIRE(c, nonblock(x.s.fdt.fd) == !x.blocking, "the client's socket is %s, asked for %s", x.blocking ? "non-blocking" : "blocking", x.blocking ? "blocking" : "non-blocking");
			if (!wait_fd(srv.s.fdt.fd, POLLIN, 5000)) c.fail("the connection does not arrive at the server");
			Side y;
			sc_sock_init(&y.s, 1, true, fam);
			{ Lib o; rc = sc_sock_accept(&srv.s, &y.s); }
			REQUIRE(c, rc == 0, "accepting fails: %s", message(&y.s).c_str());
			std::string a = addr_text(x.s.fdt.fd, false), b = addr_text(y.s.fdt.fd, true);
			REQUIRE(c, a == b, "the accepted connection comes from %s, the client is %s", b.c_str(), a.c_str());
			{ Lib o; sc_sock_term(&x.s); sc_sock_term(&y.s); }
			REQUIRE(c, count_fds() == before, "a descriptor is left behind");
		}
		g_faults += !any || refused || dead;
		c.label("several addresses");
	}

	// ---- a name with addresses of both families, all of which accept: the family asked for is preferred
	if (fam != AF_UNIX && have_v6() && c.chance(1, 8)) {
		int ofam = fam == AF_INET ? AF_INET6 : AF_INET, other = __real_socket(ofam, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1, rc, e;
		struct sockaddr_storage st = {};
		st.ss_family = (sa_family_t) ofam;
		if (ofam == AF_INET6) {
			__real_setsockopt(other, IPPROTO_IPV6, IPV6_V6ONLY, &one, sizeof one);
			((struct sockaddr_in6 *) &st)->sin6_addr = in6addr_loopback;
			((struct sockaddr_in6 *) &st)->sin6_port = htons((uint16_t) atoi(port.c_str()));
		} else {
			((struct sockaddr_in *) &st)->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
			((struct sockaddr_in *) &st)->sin_port = htons((uint16_t) atoi(port.c_str()));
		}
		if (__real_bind(other, (struct sockaddr *) &st, ofam == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6)) == 0 && __real_listen(other, 5) == 0) {
			std::string own = chost == "localhost" ? "127.0.0.1" : chost, oth = ofam == AF_INET ? "127.0.0.1" : "::1";
			g_several.clear();
			for (size_t i = 0, k = 1 + c.draw(2); i < k; i++) g_several.push_back(oth);
			g_several.insert(g_several.begin() + (long) c.draw(g_several.size() + 1), own);
			bool refused = c.chance(1, 3);
			if (refused) { f_kind = F_CONNECT; f_err = ECONNREFUSED; f_times = 1; }
			Side x;
			sc_sock_init(&x.s, 1, x.blocking = c.flip(), fam);
			int before = count_fds();
			{ Lib o; rc = sc_sock_connect(&x.s, "several.test", port.c_str(), NULL, NULL); }
			e = errno;
			clear_fault();
			c.trace("connect to a name of both families%s -> %d", refused ? ", the first one refused" : "", rc);
			REQUIRE(c, rc == 0 || (!x.blocking && e == EAGAIN), "connecting fails (%s) although an address accepts", message(&x.s).c_str());
			std::string peer = addr_text(x.s.fdt.fd, true), want = (refused ? oth : own) + ":" + port;
			REQUIRE(c, peer == want, "connected to %s, of the addresses%s %s was to be preferred", peer.c_str(), refused ? " left" : "", want.c_str());
			if (!refused) {
				Side y;
				sc_sock_init(&y.s, 1, true, fam);
				if (!wait_fd(srv.s.fdt.fd, POLLIN, 5000)) c.fail("the connection does not arrive at the server");
				{ Lib o; rc = sc_sock_accept(&srv.s, &y.s); }
				REQUIRE(c, rc == 0, "accepting fails: %s", message(&y.s).c_str());
				{ Lib o; sc_sock_term(&y.s); }
			}
			{ Lib o; sc_sock_term(&x.s); }
			REQUIRE(c, count_fds() == before, "a descriptor is left behind");
			c.label("both families");
		}
		close(other);
	}

	// ---- connections
	Conn cs[2];
	size_t want = 1 + c.draw(2);
	for (size_t k = 0; k < want; k++) {
		Side &cl = cs[k].e[0], &ac = cs[k].e[1];
		cl.blocking = c.flip();
		int cfam = fam;
		if (fam == AF_INET && have_v6() && c.chance(1, 6)) cfam = AF_INET6;
		if (fam == AF_INET6 && c.chance(1, 6)) cfam = AF_INET;
		std::string dst = chost;
		if (host == "localhost" && c.flip() && cl.blocking) dst = "localhost";
		std::string src, sport;
		if (fam == AF_INET && c.chance(1, 3)) src = chost.compare(0, 4, "127.") || c.flip() ? "127.0.0.1" : "127.9." + std::to_string(c.draw(250)) + ".4";
		if (fam == AF_INET6 && c.chance(1, 3)) src = "::1";
		int want_port = 0;
		if (fam != AF_UNIX && c.chance(1, 8)) {
			int fd = __real_socket(fam, SOCK_STREAM, 0);
			if (fam == AF_INET) {
				struct sockaddr_in a = {};
				a.sin_family = AF_INET;
				if (__real_bind(fd, (struct sockaddr *) &a, sizeof a) == 0) want_port = port_of(fd);
			} else {
				struct sockaddr_in6 a = {};
				a.sin6_family = AF_INET6;
				if (__real_bind(fd, (struct sockaddr *) &a, sizeof a) == 0) want_port = port_of(fd);
			}
			close(fd);
			sport = std::to_string(want_port);
		} else if (fam != AF_UNIX && c.chance(1, 8)) {
			sport = "0";
		}
		bool ok = false;
		for (int tries = 0; !ok; tries++) {
			dirty(&cl.s, (unsigned char) c.draw(256));
			sc_sock_init(&cl.s, 3, cl.blocking, cfam);
			bool f = tries < 3 && c.chance(1, 3);
			if (f && fam == AF_UNIX) arm(c, {F_SOCKET, F_CONNECT, F_FCNTL}, fam);
			else if (f && !src.empty()) arm(c, {F_SOCKET, F_CONNECT, F_SETSOCKOPT, F_FCNTL, F_GAI, F_BIND}, fam);
			else if (f) arm(c, {F_SOCKET, F_CONNECT, F_SETSOCKOPT, F_FCNTL, F_GAI}, fam);
			if (f && f_kind == F_GAI && (!src.empty() || !sport.empty())) f_skip = (int) c.draw(2);
			if (f && (f_kind == F_SETSOCKOPT || f_kind == F_FCNTL)) f_skip = (int) c.draw(2);
			int before = count_fds(), rc;
			char *h = strdup(dst.c_str()), *p = strdup(port.c_str());
			{ Lib o; rc = sc_sock_connect(&cl.s, h, p, src.empty() ? NULL : src.c_str(), sport.empty() ? NULL : sport.c_str()); }
			int e = errno;
			free(h);
			free(p);
			c.trace("client %zu: %s connect to %s %s from %s %s%s%s -> %d (%s)", k, cl.blocking ? "blocking" : "non-blocking", quote(dst).c_str(), port.c_str(), src.c_str(), sport.c_str(),
				f_hit ? ", refused: " : "", f_hit ? FN[f_kind] : "", rc, rc ? strerror(e) : "");
			if (f_hit) {
				std::string m = fault_msg();
				int kind = f_kind;
				clear_fault();
				if (dst == "localhost" || (src.empty() && !sport.empty())) { // several addresses: another one may serve
					if (rc == 0) { ok = true; break; }
					failed(c, &cl.s, rc, before, "connect", NULL);
				} else {
					failed(c, &cl.s, rc, before, "connect", kind == F_SOCKET && fam != AF_UNIX ? NULL : m.c_str());
				}
				continue;
			}
			clear_fault();
			REQUIRE(c, gai_live == 0, "connecting leaks address information");
			if (rc != 0 && !cl.blocking && e == EAGAIN && fam != AF_UNIX) {
				REQUIRE(c, cl.s.fdt.fd >= 0, "a pending connection has no descriptor");
				REQUIRE(c, wait_fd(cl.s.fdt.fd, POLLOUT, 5000), "the pending connection is never established");
				{ Lib o; rc = sc_sock_finish_connect(&cl.s); }
				REQUIRE(c, rc == 0, "finishing the connection fails: %s", message(&cl.s).c_str());
			} else if (rc != 0 && want_port && (message(&cl.s) == strerror(EADDRINUSE) || (src.empty() && message(&cl.s) == strerror(EINVAL)))) {
				failed(c, &cl.s, rc, before, "connect", NULL); // somebody took the port meanwhile
				sport.clear();
				want_port = 0;
				continue;
			}
			REQUIRE(c, rc == 0, "connecting to %s %s fails: %s", quote(dst).c_str(), port.c_str(), message(&cl.s).c_str());
			REQUIRE(c, count_fds() == before + 1, "connecting opens %d descriptors", count_fds() - before);
			ok = true;
		}
		cl.live = true;
		REQUIRE(c, nonblock(cl.s.fdt.fd) == !cl.blocking, "the client's socket is %s, asked for %s", cl.blocking ? "non-blocking" : "blocking", cl.blocking ? "blocking" : "non-blocking");
		if (fam != AF_UNIX) REQUIRE(c, nodelay(cl.s.fdt.fd), "the client holds small messages back");
		if (!wait_fd(srv.s.fdt.fd, POLLIN, 5000)) c.fail("the connection does not arrive at the server");
		bool f = c.chance(1, 8);
		dirty(&ac.s, (unsigned char) c.draw(256));
		sc_sock_init(&ac.s, 9, c.flip(), fam);
		if (f) {
			arm(c, {F_ACCEPT, F_SETSOCKOPT, F_FCNTL}, fam);
			f_skip = f_kind == F_FCNTL ? (int) c.draw(2) : 0;
		}
		int before = count_fds(), rc;
		{ Lib o; rc = sc_sock_accept(&srv.s, &ac.s); }
		c.trace("accept%s%s -> %d", f_hit ? " refused: " : "", f_hit ? FN[f_kind] : "", rc);
		if (f_hit) {
			std::string m = fault_msg();
			bool taken = f_kind != F_ACCEPT;
			clear_fault();
			REQUIRE(c, rc < 0 && message(&srv.s) == m, "a refused accept returns %d with %s, the system reported %s", rc, quote(message(&srv.s)).c_str(), m.c_str());
			REQUIRE(c, count_fds() == before, "a refused accept leaks %d descriptors", count_fds() - before);
			g_faults++;
			{ Lib o; REQUIRE(c, sc_sock_term(&ac.s) == 0, "terminating a socket that was not accepted fails"); }
			REQUIRE(c, count_fds() == before, "terminating a socket that was not accepted closes something else");
			if (taken) { // the connection is gone
				{ Lib o; sc_sock_term(&cl.s); }
				cl.live = false;
				k--;
				if (--want == 0) break;
				continue;
			}
			{ Lib o; rc = sc_sock_accept(&srv.s, &ac.s); }
		}
		clear_fault();
		REQUIRE(c, rc == 0, "accepting fails: %s", message(&srv.s).c_str());
		REQUIRE(c, count_fds() == before + 1, "accepting opens %d descriptors", count_fds() - before);
		ac.blocking = blocking;
		REQUIRE(c, nonblock(ac.s.fdt.fd) == !blocking, "the accepted socket is %s, the server is %s", blocking ? "non-blocking" : "blocking", blocking ? "blocking" : "non-blocking");
		if (fam != AF_UNIX) REQUIRE(c, nodelay(ac.s.fdt.fd), "the accepted socket holds small messages back");
		ac.live = true;
		cs[k].live = true;
		{
			std::string a = addr_text(cl.s.fdt.fd, true), b = addr_text(ac.s.fdt.fd, false);
			REQUIRE(c, a == b, "the client is connected to %s, the accepted socket is at %s", a.c_str(), b.c_str());
			if (!src.empty()) REQUIRE(c, addr_text(cl.s.fdt.fd, false).compare(0, src.size() + 1, src + ":") == 0, "the client is at %s, asked for %s", addr_text(cl.s.fdt.fd, false).c_str(), src.c_str());
			if (want_port) REQUIRE(c, port_of(cl.s.fdt.fd) == want_port, "the client is at %s, asked for port %d", addr_text(cl.s.fdt.fd, false).c_str(), want_port);
		}
		check_text(c, cl, "client", fam);
		check_text(c, ac, "accepted", fam);
	}

	// ---- traffic
	size_t steps = c.draw(41);
	uint64_t seq = c.draw(1u << 30) | 1;
	for (size_t s = 0; s < steps; s++) {
		Conn &k = cs[c.draw(2)];
		if (!k.live) continue;
		int w = (int) c.draw(2);
		Side &me = k.e[w], &ot = k.e[1 - w];
		const char *who = w ? "server" : "client";
		if (!me.live) continue;
		clear_fault();
		switch (c.weighted({10, 12, 1, 2, 2, 2, 1})) {
		case 0: { // send
			if (me.wr_shut || !ot.live) break;
			int n = (int) (c.chance(1, 10) ? c.draw(!me.blocking && c.chance(1, 6) ? 300000 : 40000) : c.size(1500));
			if (me.blocking && (ot.in.size() + (size_t) n > 30000 || ot.chunks > 40)) break;
			if (c.chance(1, 20)) n = -(int) c.draw(3);
			std::string data((size_t) std::max(n, 0), 0);
			for (auto &ch : data) { seq ^= seq << 13; seq ^= seq >> 7; seq ^= seq << 17; ch = (char) seq; }
			char *b = (char *) malloc(data.size() + 1);
			memcpy(b, data.data(), data.size());
			int fl = c.flip() ? MSG_NOSIGNAL : 0;
			int inj = (int) c.weighted({8, 2, 2, 1, 1});
			f_kind = F_SEND;
			if (inj == 1) { f_err = EINTR; f_times = 1 + (int) c.draw(5); }
			if (inj == 2) f_short = 1 + (int) c.draw(50);
			if (inj == 3) { f_err = EAGAIN; f_times = 1; }
			if (inj == 4) { f_err = c.flip() ? ECONNRESET : ENOBUFS; f_times = 1; }
			int rc;
			{ Lib o; rc = sc_sock_send(&me.s, b, n, fl); }
			int e = errno;
			free(b);
			c.trace("%s sends %d bytes%s -> %d", who, n, inj == 1 ? " (interrupted)" : inj == 2 ? " (short)" : inj == 3 ? " (would block)" : inj == 4 ? " (refused)" : "", rc);
			if (n <= 0) {
				REQUIRE(c, rc == n && calls == 0, "sending %d bytes returns %d", n, rc);
				break;
			}
			REQUIRE(c, calls > 0 && seen_flags == fl, "the flags %x were passed on as %x", fl, seen_flags);
			if (f_hit && inj == 3) { REQUIRE(c, rc < 0 && e == EAGAIN, "a send that would block returns %d, errno %d", rc, e); break; }
			if (f_hit && inj == 4) {
				REQUIRE(c, rc < 0 && e != EAGAIN && message(&me.s) == strerror(f_err), "a refused send returns %d with %s", rc, quote(message(&me.s)).c_str());
				break;
			}
			if (inj == 1) REQUIRE(c, rc > 0 || e == EAGAIN, "an interrupted send is not continued: %d, %s", rc, strerror(e));
			if (rc < 0 && e == EAGAIN) {
				REQUIRE(c, !me.blocking || seen_ret == -1, "a blocking send would block");
				REQUIRE(c, ot.in.size() > 2000 || ot.chunks > 20, "sending would block with %zu bytes on the way", ot.in.size());
				break;
			}
			REQUIRE(c, rc > 0 && rc <= n, "sending %d bytes returns %d (%s)", n, rc, strerror(e));
			REQUIRE(c, rc >= seen_ret, "%d of %d bytes are reported sent, %zd were", rc, n, seen_ret);
			ot.in.append(data, 0, (size_t) rc);
			ot.chunks++;
			moved += (size_t) rc;
			break;
		}
		case 1: { // receive
			if (me.reset) break;
			int n = (int) (c.chance(1, 8) ? c.draw(c.chance(1, 6) ? 400000 : 60000) : c.size(1500));
			if (c.chance(1, 30)) n = -(int) c.draw(3);
			if (n > 0 && me.in.empty() && !me.eof && me.blocking) break;
			bool peek = c.chance(1, 8);
			int inj = (int) c.weighted({8, 2, 2, 1, 1});
			f_kind = F_RECV;
			if (inj == 1) { f_err = EINTR; f_times = 1 + (int) c.draw(5); }
			if (inj == 2) f_short = 1 + (int) c.draw(50);
			if (inj == 3) { f_err = EAGAIN; f_times = 1; }
			if (inj == 4) { f_err = c.flip() ? ECONNRESET : ENOMEM; f_times = 1; }
			if (n > 0 && (!me.in.empty() || me.eof) && !wait_fd(me.s.fdt.fd, POLLIN, 5000)) c.fail("%s: %zu bytes on the way do not arrive", who, me.in.size());
			char *b = (char *) malloc((size_t) std::max(n, 0) + 1);
			memset(b, 0x77, (size_t) std::max(n, 0) + 1);
			int rc;
			{ Lib o; rc = sc_sock_recv(&me.s, b, n, peek ? MSG_PEEK : 0); }
			int e = errno;
			std::string got(b, rc > 0 && rc <= n ? (size_t) rc : 0);
			bool over = b[std::max(n, 0)] != 0x77;
			free(b);
			c.trace("%s receives up to %d%s%s -> %d (%s)", who, n, peek ? " peeking" : "", inj == 1 ? " (interrupted)" : inj == 2 ? " (short)" : inj == 3 ? " (would block)" : inj == 4 ? " (refused)" : "", rc,
				rc < 0 ? (e == EAGAIN ? "again" : e == EOF ? "end" : strerror(e)) : "");
			if (n <= 0) {
				REQUIRE(c, rc == n && calls == 0, "receiving %d bytes returns %d", n, rc);
				break;
			}
			REQUIRE(c, !over, "receiving writes past %d bytes", n);
			REQUIRE(c, calls > 0 && seen_flags == (peek ? MSG_PEEK : 0), "the flags were passed on as %x", seen_flags);
			if (f_hit && inj == 3) { REQUIRE(c, rc < 0 && e == EAGAIN, "a receive that would block returns %d, errno %d", rc, e); break; }
			if (f_hit && inj == 4) {
				REQUIRE(c, rc < 0 && e != EAGAIN && message(&me.s) == strerror(f_err), "a refused receive returns %d with %s", rc, quote(message(&me.s)).c_str());
				break;
			}
			if (!me.in.empty()) {
				REQUIRE(c, rc > 0 && rc <= n, "receiving up to %d bytes returns %d (%s) with %zu on the way", n, rc, rc < 0 ? strerror(e) : "", me.in.size());
				size_t bad = 0;
				while (bad < got.size() && bad < me.in.size() && got[bad] == me.in[bad]) bad++;
				REQUIRE(c, bad == got.size(), "%s: byte %zu of %zu received is wrong", who, bad, got.size());
				if (!peek) me.in.erase(0, got.size());
				if (me.in.empty()) me.chunks = 0;
			} else if (me.eof) {
				REQUIRE(c, rc <= 0 && e != EAGAIN && e != EWOULDBLOCK && e != EINTR, "at the end of the stream receiving returns %d, errno %d", rc, e);
			} else {
				REQUIRE(c, rc < 0 && e == EAGAIN, "with nothing on the way receiving returns %d, errno %d", rc, e);
			}
			break;
		}
		case 2: // half close
			if (me.wr_shut || !ot.live) break;
			if (shutdown(me.s.fdt.fd, SHUT_WR) != 0) break;
			me.wr_shut = true;
			ot.eof = true;
			c.trace("%s shuts down its sending side", who);
			break;
		case 3: { // mode
			bool b = c.flip();
			int rc;
			bool f = c.chance(1, 5);
			if (f) { arm(c, {F_FCNTL}, fam); f_skip = (int) c.draw(2); }
			{ Lib o; rc = sc_sock_set_blocking(&me.s, b); }
			c.trace("%s becomes %s%s -> %d", who, b ? "blocking" : "non-blocking", f_hit ? " (refused)" : "", rc);
			if (f_hit) {
				REQUIRE(c, rc < 0 && message(&me.s) == strerror(f_err), "a refused mode change returns %d with the message %s", rc, quote(message(&me.s)).c_str());
				REQUIRE(c, nonblock(me.s.fdt.fd) == !me.blocking, "a refused mode change changed the mode");
				break;
			}
			REQUIRE(c, rc == 0 && nonblock(me.s.fdt.fd) == !b, "changing the mode fails (%d)", rc);
			me.blocking = b;
			break;
		}
		case 4: { // timeouts
			bool rcv = c.flip();
			int ms = (int) (c.chance(1, 3) ? c.draw(2000000000) : c.flip() ? c.draw(5000) : 1000 * c.draw(100));
			bool f = c.chance(1, 6);
			if (f) { arm(c, {F_SETSOCKOPT}, fam); f_skip = 0; }
			int rc;
			{ Lib o; rc = rcv ? sc_sock_set_rcvtimeo(&me.s, ms) : sc_sock_set_sndtimeo(&me.s, ms); }
			c.trace("%s: %s timeout %d ms%s -> %d", who, rcv ? "receive" : "send", ms, f_hit ? " (refused)" : "", rc);
			if (f_hit) {
				REQUIRE(c, rc < 0 && message(&me.s) == strerror(f_err), "a refused timeout returns %d with the message %s", rc, quote(message(&me.s)).c_str());
				break;
			}
			REQUIRE(c, rc == 0, "setting a timeout of %d ms fails: %s", ms, message(&me.s).c_str());
			struct timeval tv = {};
			socklen_t l = sizeof tv;
			__real_getsockopt(me.s.fdt.fd, SOL_SOCKET, rcv ? SO_RCVTIMEO : SO_SNDTIMEO, &tv, &l);
			double got = (double) tv.tv_sec * 1000 + (double) tv.tv_usec / 1000;
			REQUIRE(c, got >= ms && got <= ms + 11.0, "a %s timeout of %d ms became %.3f ms", rcv ? "receive" : "send", ms, got);
			break;
		}
		case 5:
			if (c.chance(1, 4)) check_text_fault(c, me);
			else if (ot.live) check_text(c, me, who, fam);
			break;
		default: { // close; the other side sees the end of the stream
			if (!ot.live) break;
			bool clean = me.in.empty();
			int rc;
			bool f = c.chance(1, 8);
			if (f) { f_kind = F_CLOSE; f_err = c.flip() ? EIO : ENOSPC; f_times = 1; }
			{ Lib o; rc = sc_sock_term(&me.s); }
			c.trace("%s closes%s", who, f_hit ? " (an error is reported)" : "");
			if (f_hit) REQUIRE(c, rc < 0 && message(&me.s) == strerror(f_err), "an error of closing returns %d with the message %s", rc, quote(message(&me.s)).c_str());
			else REQUIRE(c, rc == 0, "closing fails: %s", message(&me.s).c_str());
			clear_fault();
			me.live = false;
			ot.eof = true;
			if (!clean) ot.reset = true; // unread data: the connection may be reset
			if (c.flip()) { Lib o; REQUIRE(c, sc_sock_term(&me.s) == 0, "closing again fails"); }
			break;
		}
		}
		clear_fault();
	}
	// a receive timeout takes effect
	if (cs[0].live && c.chance(1, 40)) {
		Side &me = cs[0].e[0];
		if (me.live && me.blocking && me.in.empty() && !me.eof) {
			int ms = 40 + (int) c.draw(40), rc;
			{ Lib o; rc = sc_sock_set_rcvtimeo(&me.s, ms); }
			REQUIRE(c, rc == 0, "setting a timeout fails");
			char b[4];
			double t = now();
			{ Lib o; rc = sc_sock_recv(&me.s, b, 4, 0); }
			int e = errno;
			t = (now() - t) * 1000;
			c.trace("receive with a timeout of %d ms took %.1f ms", ms, t);
			REQUIRE(c, rc < 0 && e == EAGAIN, "a receive that timed out returns %d (%s)", rc, strerror(e));
			REQUIRE(c, t >= ms - 12.0, "a receive with a timeout of %d ms returned after %.2f ms", ms, t);
			c.label("timeout waited");
		}
	}
	// ---- drain: everything sent must arrive
	bool again = c.chance(1, 30);
	for (auto &k : cs) {
		if (!k.live) continue;
		for (int w = 0; w < 2; w++) {
			Side &me = k.e[w];
			if (!me.live || me.reset) continue;
			while (!me.in.empty()) {
				if (!wait_fd(me.s.fdt.fd, POLLIN, 5000)) c.fail("%zu bytes on the way do not arrive", me.in.size());
				char b[4096];
				int rc;
				{ Lib o; rc = sc_sock_recv(&me.s, b, sizeof b, 0); }
				REQUIRE(c, rc > 0 && (size_t) rc <= me.in.size() && !memcmp(b, me.in.data(), (size_t) rc), "draining %zu bytes: received %d%s", me.in.size(), rc, rc > 0 ? ", which differ" : "");
				me.in.erase(0, (size_t) rc);
			}
		}
		for (int w = 1; w >= 0; w--) { // the server side first: its port stays in TIME_WAIT
			Side &me = k.e[w];
			if (!me.live) continue;
			struct linger l = {1, 0};
			if (fam != AF_UNIX && !again) __real_setsockopt(me.s.fdt.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
			int rc;
			{ Lib o; rc = sc_sock_term(&me.s); }
			REQUIRE(c, rc == 0, "closing fails");
		}
	}
	{ Lib o; REQUIRE(c, sc_sock_term(&srv.s) == 0, "closing the server fails"); }
	if (again) { // the server comes back at the address it has just left, the socket file still there
		int rc;
		struct stat st;
		if (fam == AF_UNIX && stat(path.c_str(), &st) != 0) c.error("the socket file went away");
		sc_sock_init(&srv.s, 2, blocking, fam);
		{ Lib o; rc = sc_sock_listen(&srv.s, host.c_str(), port.c_str()); }
		c.trace("listen again at %s %s -> %d", host.c_str(), port.c_str(), rc);
		bool taken = false;
		for (int i = 0; i < 4 && rc != 0 && fam != AF_UNIX && !taken && message(&srv.s) == strerror(EADDRINUSE); i++) { // did somebody take it?
			taken = port_in_use(atoi(port.c_str()));
			usleep(30000);
			sc_sock_init(&srv.s, 2, blocking, fam);
			Lib o;
			rc = sc_sock_listen(&srv.s, host.c_str(), port.c_str());
		}
		if (rc == 0) taken = false;
		if (!taken) REQUIRE(c, rc == 0, "listening again at %s %s fails: %s", quote(host).c_str(), port.c_str(), message(&srv.s).c_str());
		{ Lib o; sc_sock_term(&srv.s); }
		c.label("listened again");
	}
	if (!path.empty()) unlink(path.c_str());
	REQUIRE(c, count_fds() == base, "%d descriptors are left behind", count_fds() - base);
	REQUIRE(c, gai_live == 0, "address information is leaked");
	c.count("bytes", moved);
	if (moved || g_faults) c.nontrivial();
}
