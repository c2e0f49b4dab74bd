// C21: processes with the handlers installed against a model of the documented outcome.
#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
extern "C" {
#include "sc_signal.h"
}
using namespace pbt;

const HarnessInfo harness_info = {
	"a child process installs the handlers and goes through 1..7 events: shutdown signals (raised, or sent from outside while it computes, "
	"allocates and prints), SIGHUP, broken pipes, changed log/shutdown descriptors (none, pipe, closed, full), fatal signals (raised or "
	"caused by the CPU, also on a second thread); wait status, bytes on every descriptor, errno, exit handlers and calls of functions that "
	"are not signal safe are compared with a model. In part of the cases a second shutdown signal is injected by single-stepping at a "
	"random instruction of the first one's handler; in part one registration call fails. Non-trivial: a shutdown or fatal signal was delivered.",
	false, 30, 60};

// ---- functions a handler must not call -----------------------------------
static volatile int forbid; // set while only the handler can be running
static int unsafe_fd = -1;
static void unsafe(const char *name)
{
	if (!forbid) return;
	int e = errno;
	if (write(unsafe_fd, name, strlen(name))) {}
	if (write(unsafe_fd, " ", 1)) {}
	errno = e;
}
extern "C" {
int sig_fail_at = -1; // the n-th registration fails
static int reg_fails() { return sig_fail_at >= 0 && sig_fail_at-- == 0; }
void *__real_malloc(size_t); void *__wrap_malloc(size_t n) { unsafe("malloc"); return __real_malloc(n); }
void *__real_calloc(size_t, size_t); void *__wrap_calloc(size_t m, size_t n) { unsafe("calloc"); return __real_calloc(m, n); }
void __real_free(void *); void __wrap_free(void *p) { unsafe("free"); __real_free(p); }
int __real_vsnprintf(char *, size_t, const char *, va_list);
int __wrap_vsnprintf(char *b, size_t n, const char *f, va_list v) { unsafe("vsnprintf"); return __real_vsnprintf(b, n, f, v); }
int __wrap_snprintf(char *b, size_t n, const char *f, ...) { unsafe("snprintf"); va_list v; va_start(v, f); int r = __real_vsnprintf(b, n, f, v); va_end(v); return r; }
int __wrap_sprintf(char *b, const char *f, ...) { unsafe("sprintf"); va_list v; va_start(v, f); int r = vsprintf(b, f, v); va_end(v); return r; }
int __wrap_printf(const char *f, ...) { unsafe("printf"); va_list v; va_start(v, f); int r = vprintf(f, v); va_end(v); return r; }
int __wrap_dprintf(int fd, const char *f, ...) { unsafe("dprintf"); va_list v; va_start(v, f); int r = vdprintf(fd, f, v); va_end(v); return r; }
int __wrap_fprintf(FILE *o, const char *f, ...) { unsafe("fprintf"); va_list v; va_start(v, f); int r = vfprintf(o, f, v); va_end(v); return r; }
int __real_puts(const char *); int __wrap_puts(const char *s) { unsafe("puts"); return __real_puts(s); }
int __real_fputs(const char *, FILE *); int __wrap_fputs(const char *s, FILE *f) { unsafe("fputs"); return __real_fputs(s, f); }
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) { unsafe("fwrite"); return __real_fwrite(p, a, b, f); }
int __real_fflush(FILE *); int __wrap_fflush(FILE *f) { unsafe("fflush"); return __real_fflush(f); }
char *__real_strsignal(int); char *__wrap_strsignal(int s) { unsafe("strsignal"); return __real_strsignal(s); }
void __real_exit(int); void __wrap_exit(int s) { unsafe("exit"); __real_exit(s); __builtin_unreachable(); }
void (*__real_signal(int, void (*)(int)))(int);
void (*__wrap_signal(int s, void (*f)(int)))(int) { if (reg_fails()) { errno = EINVAL; return SIG_ERR; } return __real_signal(s, f); }
int __real_sigaction(int, const struct sigaction *, struct sigaction *);
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (reg_fails()) { errno = EINVAL; return -1; } return __real_sigaction(s, a, o); }
}

enum Kind { RAISE, FAULT, THREAD, OUTSIDE, HUP, PIPE, SETSHUT, SETLOG };
struct Event {
	Kind kind;
	int sig;
	int arg;
};
enum Sink { S_NONE, S_PIPE, S_CLOSED, S_FULL, S_PIPE2 };

static const int EXIT_MARK = 0x41;
static int mark_fd = -1;
static void at_exit_mark() { if (write(mark_fd, "A", 1)) {} }

struct Pipes {
	int log[2], shut[2], status[2], out[2], err[2], unsafe[2], mark[2], full[2], shut2[2], go[2];
};

static void mkpipe(Case &c, int p[2], bool nb)
{
	if (pipe2(p, nb ? O_NONBLOCK | O_CLOEXEC : O_CLOEXEC) != 0) c.error("pipe: %s", strerror(errno));
}

static std::string drain(int fd)
{
	std::string r;
	char b[4096];
	ssize_t n;
	while ((n = read(fd, b, sizeof b)) > 0) r.append(b, (size_t) n);
	return r;
}

static void do_fault(int sig)
{
	switch (sig) {
	case SIGSEGV: __asm__ volatile("movl $1, 8"); break;
	case SIGFPE: __asm__ volatile("xorl %%edx,%%edx; movl $1,%%eax; xorl %%ecx,%%ecx; idivl %%ecx" ::: "eax", "ecx", "edx"); break;
	case SIGILL: __asm__ volatile("ud2"); break;
	case SIGABRT: abort(); break;
	case SIGBUS: {
		int fd = memfd_create("b", 0);
		volatile char *p = (volatile char *) mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		__asm__ volatile("movb $1, (%0)" ::"r"(p));
		break;
	}
	}
}

static void *thread_fault(void *p)
{
	int s = *(int *) p;
	if (s < 0) raise(-s);
	else do_fault(s);
	return NULL;
}

static volatile unsigned long work_sum;
static void work()
{
	static unsigned k;
	char b[64];
	char *p = (char *) malloc(32 + k % 100);
	snprintf(p, 32, "%u", k);
	snprintf(b, sizeof b, "%s-%d", p, (int) k);
	work_sum += strlen(b);
	free(p);
	k++;
}

static void say(Pipes &p, char ch) { if (write(p.status[1], &ch, 1)) {} }

[[noreturn]] static void child(Pipes &p, const std::vector<Event> &ev, Sink shut, Sink log, int failat, bool traced, int first, int zero = 0)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	for (int s = 1; s < 32; s++) __real_signal(s, SIG_DFL);
	dup2(p.out[1], 1);
	dup2(p.err[1], 2);
	unsafe_fd = p.unsafe[1];
	mark_fd = p.mark[1];
	atexit(at_exit_mark);
	sig_fail_at = failat;
	int rc = sc_signal_init();
	sig_fail_at = -1;
	if (failat >= 0) {
		say(p, rc == -1 ? 'f' : 'F');
		_exit(42);
	}
	if (rc != 0) { say(p, 'I'); _exit(42); }
	if (zero) dup2(zero == 1 ? p.log[1] : p.shut[1], 0);
	auto fdof = [&](Sink s, bool is_log) {
		if (zero == (is_log ? 1 : 2) && s == S_PIPE) return 0;
		return s == S_NONE ? -1 : s == S_PIPE ? (is_log ? p.log[1] : p.shut[1]) : s == S_CLOSED ? 900 : s == S_FULL ? p.full[1] : p.shut2[1];
	};
	if (shut != S_NONE) sc_signal_shutdown_fd = fdof(shut, false);
	if (log != S_NONE) sc_signal_log_fd = fdof(log, true);
	if (traced) {
		ptrace(PTRACE_TRACEME, 0, NULL, NULL);
		__real_sigaction(SIGTRAP, NULL, NULL);
		kill(getpid(), SIGSTOP);
		errno = 77;
		raise(first);
		say(p, errno == 77 ? 'a' : 'E');
		// stay alive long enough for whatever is still to be delivered
		struct timespec t = {0, 1000000};
		nanosleep(&t, NULL);
		_exit(42);
	}
	for (auto &e : ev) {
		errno = 77;
		switch (e.kind) {
		case RAISE: {
			forbid = 1;
			raise(e.sig);
			forbid = 0;
			break;
		}
		case FAULT:
			forbid = 1;
			do_fault(e.sig);
			break;
		case THREAD: {
			pthread_t t;
			static int s;
			s = e.arg ? e.sig : -e.sig;
			pthread_create(&t, NULL, thread_fault, &s);
			pthread_join(t, NULL);
			break;
		}
		case OUTSIDE: {
			say(p, 'w'); // ask for the signal
			volatile sig_atomic_t *w = &sc_signal_will_shutdown;
			char ch;
			(void) w;
			while (read(p.go[0], &ch, 1) != 1) work();
			errno = 77;
			break;
		}
		case HUP: raise(SIGHUP); break;
		case PIPE: {
			if (e.arg) {
				raise(SIGPIPE);
			} else {
				int q[2];
				if (pipe(q)) _exit(43);
				close(q[0]);
				errno = 0;
				ssize_t n = write(q[1], "x", 1);
				if (n != -1 || errno != EPIPE) say(p, 'P');
				close(q[1]);
				errno = 77;
			}
			break;
		}
		case SETSHUT: sc_signal_shutdown_fd = fdof((Sink) e.arg, false); break;
		case SETLOG: sc_signal_log_fd = fdof((Sink) e.arg, true); break;
		}
		say(p, errno == 77 ? 'a' : 'E');
	}
	_exit(42);
}

static const char *signame(int s)
{
	switch (s) {
	case SIGINT: return "SIGINT"; case SIGTERM: return "SIGTERM"; case SIGSEGV: return "SIGSEGV"; case SIGABRT: return "SIGABRT";
	case SIGBUS: return "SIGBUS"; case SIGFPE: return "SIGFPE"; case SIGILL: return "SIGILL"; default: return "?";
	}
}

static std::string status_text(int st)
{
	if (WIFEXITED(st)) return "exit status " + std::to_string(WEXITSTATUS(st));
	if (WIFSIGNALED(st)) return "killed by signal " + std::to_string(WTERMSIG(st));
	return "status " + std::to_string(st);
}

static int wait_child(Case &c, pid_t pid)
{
	int st = 0;
	for (int i = 0;; i++) {
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) return st;
		if (r < 0) c.error("waitpid");
		struct timespec t = {0, i < 50 ? 100000 : 2000000};
		nanosleep(&t, NULL);
		if (i > 10000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); c.fail("the process does not get on"); }
	}
}

static void open_pipes(Case &c, Pipes &p)
{
	for (auto *q : {p.log, p.shut, p.status, p.out, p.err, p.unsafe, p.mark, p.full, p.shut2, p.go}) mkpipe(c, q, true);
	char b[4096] = {0};
	while (write(p.full[1], b, sizeof b) > 0) {}
	while (write(p.full[1], b, 1) > 0) {}
}
static void close_pipes(Pipes &p)
{
	for (auto *q : {p.log, p.shut, p.status, p.out, p.err, p.unsafe, p.mark, p.full, p.shut2, p.go}) { close(q[0]); close(q[1]); }
}

static void check_line(Case &c, const std::string &s, const char *what)
{
	REQUIRE(c, s.empty() || s.back() == '\n', "%s does not end with a complete line: %s", what, quote(s, 400).c_str());
	for (char ch : s) REQUIRE(c, ch == '\n' || (ch >= 32 && ch < 127), "%s contains byte %02x: %s", what, (unsigned char) ch, quote(s, 400).c_str());
}

static void history(Case &c)
{
	Sink shut = (Sink) c.weighted({2, 6, 1, 1}), log = c.flip() ? S_PIPE : S_NONE;
	int failat = c.chance(1, 12) ? (int) c.draw(9) : -1;
	int zero = (int) c.weighted({4, 1, 1}); // the log (1) or the shutdown (2) descriptor is number 0
	std::vector<Event> ev;
	size_t n = 1 + c.draw(7);
	for (size_t i = 0; i < n; i++) {
		Event e = {RAISE, 0, 0};
		static const int fatal[] = {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL};
		switch (c.weighted({5, 2, 2, 2, 2, 2, 2, 2})) {
		case 0: e.kind = RAISE; e.sig = c.flip() ? SIGINT : SIGTERM; break;
		case 1: e.kind = HUP; break;
		case 2: e.kind = PIPE; e.arg = c.flip(); break;
		case 3: e.kind = OUTSIDE; e.sig = c.flip() ? SIGINT : SIGTERM; e.arg = (int) c.draw(400); break;
		case 4: e.kind = SETSHUT; e.arg = (int) c.weighted({2, 3, 1, 1, 2}); break;
		case 5: e.kind = SETLOG; e.arg = c.flip() ? S_PIPE : S_NONE; break;
		case 6: e.kind = c.flip() ? RAISE : FAULT; e.sig = fatal[c.draw(5)]; break;
		default: e.kind = c.flip() ? THREAD : RAISE; e.arg = c.flip(); e.sig = e.kind == THREAD ? fatal[c.draw(5)] : SIGTERM; break;
		}
		ev.push_back(e);
	}
	Pipes p;
	open_pipes(c, p);
	pid_t pid = fork();
	if (pid < 0) c.error("fork");
	if (pid == 0) child(p, ev, shut, log, failat, false, 0, zero);
	static const char *kn[] = {"raise", "fault", "thread", "outside", "hup", "pipe", "shutdown fd", "log fd"};
	c.trace("shutdown fd %d, log fd %d, failing registration %d%s", shut, log, failat, zero == 1 ? ", log is descriptor 0" : zero == 2 ? ", shutdown is descriptor 0" : "");
	for (auto &e : ev) c.trace("%s signal %d arg %d", kn[e.kind], e.sig, e.arg);

	// model
	bool will = false, ended = false;
	int want_exit = 42, want_sig = 0, sbytes = 0, s2bytes = 0;
	std::string want_status;
	struct Said { Sink log; int sig; bool fatal; };
	std::vector<Said> said;
	size_t alive = 0;
	if (failat < 0) {
		for (auto &e : ev) {
			bool isfatal = e.kind == FAULT || e.kind == THREAD || (e.kind == RAISE && e.sig != SIGINT && e.sig != SIGTERM);
			if (e.kind == SETSHUT) shut = (Sink) e.arg;
			else if (e.kind == SETLOG) log = (Sink) e.arg;
			else if (isfatal) {
				said.push_back({log, e.sig, true});
				want_sig = e.sig;
				ended = true;
			} else if (e.kind == RAISE || e.kind == OUTSIDE) {
				if (e.kind == OUTSIDE) want_status += 'w';
				said.push_back({log, e.sig, false});
				if (will) { want_exit = 1; ended = true; }
				else if (shut == S_NONE) { want_exit = 0; ended = true; }
				else if (shut == S_CLOSED || shut == S_FULL) { want_exit = 1; ended = true; }
				else if (shut == S_PIPE) sbytes++;
				else s2bytes++;
				will = true;
			}
			if (ended) break;
			want_status += 'a';
			alive++;
		}
	}
	// serve the requests for signals from outside
	std::string status;
	int st = 0;
	bool done = false;
	for (int i = 0; !done; i++) {
		std::string s = drain(p.status[0]);
		status += s;
		for (char ch : s) {
			if (ch != 'w') continue;
			size_t k = 0, seen = 0;
			for (char x : status) seen += x == 'w';
			const Event *e = NULL;
			for (auto &x : ev) if (x.kind == OUTSIDE && ++k == seen) { e = &x; break; }
			if (!e) c.error("unexpected request");
			struct timespec t = {0, e->arg * 1000};
			nanosleep(&t, NULL);
			std::string l0;
			kill(pid, e->sig);
			// let it go on computing a little after the signal
			nanosleep(&t, NULL);
			if (write(p.go[1], "g", 1)) {}
		}
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) done = true;
		else {
			struct timespec t = {0, i < 100 ? 50000 : 2000000};
			nanosleep(&t, NULL);
			if (i > 8000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); c.fail("the process hangs after %s", quote(status).c_str()); }
		}
	}
	status += drain(p.status[0]);
	std::string lg = drain(p.log[0]), out = drain(p.out[0]), err = drain(p.err[0]), sb = drain(p.shut[0]), s2 = drain(p.shut2[0]);
	std::string us = drain(p.unsafe[0]), mk = drain(p.mark[0]);
	close_pipes(p);
	c.trace("ended with %s, status %s, log %s out %s err %s, %zu/%zu shutdown bytes", status_text(st).c_str(), status.c_str(), quote(lg, 600).c_str(),
		quote(out, 600).c_str(), quote(err, 600).c_str(), sb.size(), s2.size());
	if (failat >= 0) {
		REQUIRE(c, WIFEXITED(st) && WEXITSTATUS(st) == 42, "initialisation with a failing registration ended with %s", status_text(st).c_str());
		REQUIRE(c, status == "f", "initialisation does not report that registration %d failed", failat);
		c.label("failing registration");
		return;
	}
	REQUIRE(c, us.empty(), "a handler called functions that are not signal safe: %s", us.c_str());
	REQUIRE(c, mk.empty(), "exit handlers ran although the process must end at once");
	REQUIRE(c, status.find('I') == std::string::npos, "sc_signal_init() fails");
	REQUIRE(c, status.find('P') == std::string::npos, "writing to a broken pipe does not report EPIPE");
	REQUIRE(c, status.find('E') == std::string::npos, "a handler changed errno of the interrupted code");
	if (want_sig) REQUIRE(c, WIFSIGNALED(st) && WTERMSIG(st) == want_sig, "after %s the process ended with %s", signame(want_sig), status_text(st).c_str());
	else REQUIRE(c, WIFEXITED(st) && WEXITSTATUS(st) == want_exit, "the process ended with %s, expected exit status %d", status_text(st).c_str(), want_exit);
	REQUIRE(c, status == want_status, "the process got to %s, expected %s", quote(status).c_str(), quote(want_status).c_str());
	REQUIRE(c, sb == std::string((size_t) sbytes, 1), "the shutdown descriptor got %s, expected %d bytes of 1", quote(sb).c_str(), sbytes);
	REQUIRE(c, s2 == std::string((size_t) s2bytes, 1), "the second shutdown descriptor got %s, expected %d bytes of 1", quote(s2).c_str(), s2bytes);
	check_line(c, lg, "the log");
	check_line(c, out, "standard output");
	check_line(c, err, "standard error");
	// every signal is named, in order, on the descriptor configured at its time
	size_t pl = 0, po = 0, pe = 0;
	bool ul = false, uo = false, ue = false;
	for (auto &x : said) {
		const std::string &t = x.log == S_PIPE ? lg : x.fatal ? err : out;
		size_t &pos = x.log == S_PIPE ? pl : x.fatal ? pe : po;
		(x.log == S_PIPE ? ul : x.fatal ? ue : uo) = true;
		size_t e = t.find(signame(x.sig), pos);
		REQUIRE(c, e != std::string::npos, "%s is not reported on the %s descriptor: %s", signame(x.sig), x.log == S_PIPE ? "log" : "default", quote(t.substr(pos), 400).c_str());
		size_t b = t.rfind('\n', e), l = t.find('\n', e);
		std::string line = t.substr(b == std::string::npos ? 0 : b + 1, l - (b == std::string::npos ? 0 : b + 1));
		REQUIRE(c, line.find(std::to_string(x.sig)) != std::string::npos, "the line naming %s lacks its number: %s", signame(x.sig), quote(line).c_str());
		pos = l + 1;
		if (x.fatal) REQUIRE(c, t.find("CRASH REPORT", l) != std::string::npos && t.find("END", l) != std::string::npos, "the crash report is incomplete: %s", quote(t, 400).c_str());
		c.nontrivial();
	}
	REQUIRE(c, (ul || lg.empty()) && (uo || out.empty()) && (ue || err.empty()), "diagnostics on a descriptor that is not configured: log %s out %s err %s",
		quote(lg).c_str(), quote(out).c_str(), quote(err).c_str());
	c.label(want_sig ? "died from fatal signal" : ended ? "ended by shutdown" : "kept running");
}

// a second signal at every possible instruction of the first one's handler
static void stepped(Case &c)
{
	int s1 = c.flip() ? SIGINT : SIGTERM, s2 = c.chance(3, 4) ? (s1 == SIGINT ? SIGTERM : SIGINT) : s1;
	int calls = (int) c.draw(7); // system call stops to skip first
	int steps = (int) (c.flip() ? c.draw(60) : c.draw(700));
	Sink shut = c.chance(5, 6) ? S_PIPE : S_NONE;
	Pipes p;
	open_pipes(c, p);
	std::vector<Event> none;
	pid_t pid = fork();
	if (pid < 0) c.error("fork");
	if (pid == 0) child(p, none, shut, S_PIPE, -1, true, s1);
	c.trace("first %s, second %s injected after %d system call stops and %d instructions, shutdown fd %d", signame(s1), signame(s2), calls, steps, shut);
	int st;
	auto wait1 = [&] {
		if (waitpid(pid, &st, 0) != pid) c.error("waitpid");
		return WIFSTOPPED(st);
	};
	bool live = wait1();
	if (!live) c.error("tracing is not possible");
	ptrace(PTRACE_SETOPTIONS, pid, NULL, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
	// run up to the delivery of the first signal
	int deliver = 0;
	while (live) {
		ptrace(PTRACE_CONT, pid, NULL, 0);
		live = wait1();
		if (live && WSTOPSIG(st) == s1) { deliver = s1; break; }
	}
	bool injected = false;
	for (int i = 0; live && i < calls; i++) {
		ptrace(PTRACE_SYSCALL, pid, NULL, deliver);
		deliver = 0;
		live = wait1();
		if (live && WSTOPSIG(st) != (SIGTRAP | 0x80)) deliver = WSTOPSIG(st) == SIGTRAP ? 0 : WSTOPSIG(st);
	}
	for (int i = 0; live && i < steps; i++) {
		ptrace(PTRACE_SINGLESTEP, pid, NULL, deliver);
		deliver = 0;
		live = wait1();
		if (live && WSTOPSIG(st) != SIGTRAP && WSTOPSIG(st) != (SIGTRAP | 0x80)) deliver = WSTOPSIG(st);
	}
	if (live) {
		// has the first signal's handler been entered and the process not finished its work?
		injected = true;
		kill(pid, s2); // pending from this instruction on
	}
	for (int k = 0; live && k < 1000; k++) {
		ptrace(PTRACE_CONT, pid, NULL, deliver);
		deliver = 0;
		live = wait1();
		if (live && WSTOPSIG(st) != SIGTRAP && WSTOPSIG(st) != (SIGTRAP | 0x80)) deliver = WSTOPSIG(st);
	}
	if (live) { kill(pid, SIGKILL); waitpid(pid, &st, 0); c.fail("the process does not end"); }
	std::string status = drain(p.status[0]), lg = drain(p.log[0]), sb = drain(p.shut[0]), mk = drain(p.mark[0]);
	close_pipes(p);
	c.trace("%s, status %s, %zu shutdown bytes, log %s", status_text(st).c_str(), status.c_str(), sb.size(), quote(lg, 600).c_str());
	REQUIRE(c, sb == std::string(sb.size(), 1) && sb.size() <= 1, "two shutdown signals deliver %zu notifications: %s", sb.size(), quote(sb).c_str());
	REQUIRE(c, mk.empty(), "exit handlers ran although the process must end at once");
	REQUIRE(c, status.find('E') == std::string::npos, "a handler changed errno of the interrupted code");
	check_line(c, lg, "the log");
	if (!injected) {
		REQUIRE(c, WIFEXITED(st) && WEXITSTATUS(st) == (shut == S_NONE ? 0 : 42), "one shutdown signal ended the process with %s", status_text(st).c_str());
		return;
	}
	REQUIRE(c, WIFEXITED(st), "two shutdown signals ended the process with %s", status_text(st).c_str());
	if (shut == S_NONE) REQUIRE(c, WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1, "without a descriptor the process ended with %s", status_text(st).c_str());
	else REQUIRE(c, WEXITSTATUS(st) == 1, "a second shutdown signal during the first one's handler does not end the process (%s, got to %s)", status_text(st).c_str(), quote(status).c_str());
	c.nontrivial();
	c.label("injected");
}

// the first signal's handler cannot get its notification out: the second one still ends the process
static void blocked(Case &c)
{
	int s1 = c.flip() ? SIGINT : SIGTERM, s2 = s1 == SIGINT ? SIGTERM : SIGINT;
	unsigned pause_us = (unsigned) c.draw(400);
	Pipes p;
	open_pipes(c, p);
	fcntl(p.full[1], F_SETFL, 0);
	pid_t pid = fork();
	if (pid < 0) c.error("fork");
	if (pid == 0) {
		// wait for the first signal in a request
		std::vector<Event> ev = {{OUTSIDE, s1, 0}};
		child(p, ev, S_FULL, S_PIPE, -1, false, 0);
	}
	c.trace("first %s blocks in its notification, then %s after %u us", signame(s1), signame(s2), pause_us);
	std::string status, lg;
	for (int i = 0; i < 300000 && status.find('w') == std::string::npos && status.find('I') == std::string::npos; i++) {
		status += drain(p.status[0]);
		struct timespec t = {0, 100000};
		nanosleep(&t, NULL);
	}
	if (status.find('w') == std::string::npos) { kill(pid, SIGKILL); waitpid(pid, NULL, 0); close_pipes(p); c.error("the process does not start: %s", quote(status).c_str()); }
	kill(pid, s1);
	for (int i = 0; i < 200 && lg.empty(); i++) {
		lg += drain(p.log[0]);
		struct timespec t = {0, 100000};
		nanosleep(&t, NULL);
	}
	struct timespec t = {0, (long) pause_us * 1000};
	nanosleep(&t, NULL);
	kill(pid, s2);
	int st = 0;
	bool done = false;
	for (int i = 0; i < 5000 && !done; i++) {
		done = waitpid(pid, &st, WNOHANG) == pid;
		if (!done) { struct timespec t2 = {0, 2000000}; nanosleep(&t2, NULL); }
	}
	if (!done) { kill(pid, SIGKILL); waitpid(pid, &st, 0); }
	lg += drain(p.log[0]);
	std::string mk = drain(p.mark[0]);
	close_pipes(p);
	REQUIRE(c, done, "a second shutdown signal does not end the process while the first one's notification blocks: log %s", quote(lg, 400).c_str());
	REQUIRE(c, WIFEXITED(st) && WEXITSTATUS(st) == 1, "the second shutdown signal ended the process with %s", status_text(st).c_str());
	REQUIRE(c, mk.empty(), "exit handlers ran although the process must end at once");
	check_line(c, lg, "the log");
	c.nontrivial();
	c.label("blocked notification");
}

void run_case(Case &c)
{
	size_t w = c.weighted({30, 20, 1});
	if (w == 2) blocked(c);
	else if (w == 1) stepped(c);
	else history(c);
}
