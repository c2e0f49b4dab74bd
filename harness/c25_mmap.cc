// C25: a history of mappings of a few files against a byte model, with refused system calls.
#include "pbt.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "sc_mmap.h"
}
using namespace pbt;

const HarnessInfo harness_info = {
	"a history of 1..30 steps on two files (0..5 pages, any length): up to four live mappings with any offset (aligned or not), length, "
	"protection and sharing, stores through mappings and through the file, flush / lock / unlock of any sub-range, termination, and one "
	"refused or interrupted system call in part of the steps. Contents of files and mappings, file sizes, the pages passed to the kernel, "
	"messages and leaked descriptors or mappings are compared with a model. A few cases use hundreds of pages, or offsets and lengths beyond "
	"32 bits in a sparse file. Non-trivial: at least two mappings were made and data was "
	"stored through one, or an operation failed while a mapping was live."};

// ---- stand-ins: record and refuse -----------------------------------------
static bool on;
static bool big_on; // one huge sparse file
static const void *big_p;
static size_t big_n, big_maps;
static const off_t CAP = 1 << 24; // larger files are refused with EFBIG
enum { F_OPEN, F_STAT, F_ALLOC, F_MMAP, F_MUNMAP, F_CLOSE, F_MSYNC, F_MLOCK, F_MUNLOCK, F_SYSCONF, F_N };
static int fault = -1, fault_errno, fault_times, fault_hit;
static bool refuse(int k)
{
	if (!on || fault != k || fault_times <= 0) return false;
	fault_times--;
	fault_hit++;
	errno = fault_errno;
	return true;
}
static std::set<uintptr_t> pages;  // mapped through the library
static std::set<uintptr_t> synced, locked, unlocked;
static bool sync_flag_ok;
static long PG;
static void span(std::set<uintptr_t> &s, void *p, size_t n)
{
	uintptr_t a = (uintptr_t) p & ~(uintptr_t) (PG - 1), e = (uintptr_t) p + n;
	if (n > (1ul << 24)) e = a + (1ul << 24);
	for (; a < e; a += (uintptr_t) PG) s.insert(a);
}
extern "C" {
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...)
{
	va_list va;
	va_start(va, fl);
	mode_t mode = (fl & O_CREAT) ? va_arg(va, mode_t) : 0;
	va_end(va);
	if (refuse(F_OPEN)) return -1;
	return __real_open(p, fl, mode);
}
int __real_stat(const char *, struct stat *);
int __wrap_stat(const char *p, struct stat *s) { return refuse(F_STAT) ? -1 : __real_stat(p, s); }
int __real_fstat(int, struct stat *);
int __wrap_fstat(int p, struct stat *s) { return refuse(F_STAT) ? -1 : __real_fstat(p, s); }
int __real_posix_fallocate(int, off_t, off_t);
int __wrap_posix_fallocate(int fd, off_t o, off_t l)
{
	if (big_on && l > (off_t) (1 << 22)) return EFBIG; // would really need the space
	if (refuse(F_ALLOC)) { int e = errno; errno = EDOM; return e; }
	if (on && o >= 0 && l > 0 && (l > CAP || o > CAP || o + l > CAP)) return EFBIG;
	int e = __real_posix_fallocate(fd, o, l);
	if (on) errno = EDOM; // unspecified
	return e;
}
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t l) 
{
	if (refuse(F_ALLOC)) return -1;
	if (on && l > CAP) { errno = EFBIG; return -1; }
	return __real_ftruncate(fd, l);
}
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o)
{
	if (big_on && (a = __real_mmap(a, n, p, f, fd, o)) != MAP_FAILED) big_maps++;
	if (big_on) return a;
	if (!on) return __real_mmap(a, n, p, f, fd, o);
	if (refuse(F_MMAP)) return MAP_FAILED;
	void *r = __real_mmap(a, n, p, f, fd, o);
	if (r != MAP_FAILED) span(pages, r, n);
	return r;
}
int __real_munmap(void *, size_t);
int __wrap_munmap(void *p, size_t n)
{
	if (big_on) big_p = p, big_n = n, big_maps--;
	if (!on) return __real_munmap(p, n);
	bool r = refuse(F_MUNMAP);
	std::set<uintptr_t> s;
	span(s, p, n);
	if (n) for (auto x : s) pages.erase(x);
	int rc = __real_munmap(p, n);
	if (r) { errno = fault_errno; return -1; }
	return rc;
}
int __real_close(int);
int __wrap_close(int fd)
{
	if (!on) return __real_close(fd);
	bool r = refuse(F_CLOSE);
	int rc = __real_close(fd);
	if (r) { errno = fault_errno; return -1; }
	return rc;
}
int __real_msync(void *, size_t, int);
int __wrap_msync(void *p, size_t n, int f)
{
	if (big_on) { big_p = p; big_n = n; return 0; }
	if (refuse(F_MSYNC)) return -1;
	int rc = __real_msync(p, n, f);
	if (rc == 0 && on) { span(synced, p, n); if (!(f & MS_SYNC)) sync_flag_ok = false; }
	return rc;
}
int __real_mlock(const void *, size_t);
int __wrap_mlock(const void *p, size_t n)
{
	if (big_on) { big_p = p; big_n = n; return 0; }
	if (refuse(F_MLOCK)) return -1;
	int rc = __real_mlock(p, n);
	if (rc == 0 && on && n) span(locked, (void *) p, n);
	return rc;
}
int __real_munlock(const void *, size_t);
int __wrap_munlock(const void *p, size_t n)
{
	if (big_on) { big_p = p; big_n = n; return 0; }
	if (refuse(F_MUNLOCK)) return -1;
	int rc = __real_munlock(p, n);
	if (rc == 0 && on && n) span(unlocked, (void *) p, n);
	return rc;
}
long __real_sysconf(int);
long __wrap_sysconf(int n) { return refuse(F_SYSCONF) ? -1 : __real_sysconf(n); }
}

struct File {
	std::string path, data;
	bool exists = false;
};

struct Map {
	struct sc_mmap *m = nullptr;
	int file = 0;
	size_t off = 0, len = 0;
	bool write = false, read = false, shared = false;
	bool live = false;
	std::map<size_t, char> priv; // bytes stored in a private mapping
	bool snap = false; // private: pages stored to no longer follow the file
};

static uint64_t fds()
{
	uint64_t r = 0;
	for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) != -1) r |= 1ull << i;
	return r;
}

static std::string slurp(const std::string &f)
{
	std::string r;
	int fd = __real_open(f.c_str(), O_RDONLY | O_CLOEXEC);
	if (fd < 0) return "<missing>";
	char b[65536];
	ssize_t n;
	while ((n = read(fd, b, sizeof b)) > 0) r.append(b, (size_t) n);
	__real_close(fd);
	return r;
}

static size_t diff_at(const std::string &a, const std::string &b)
{
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	return i;
}

static void check_all(Case &c, File *F, Map *M, const char *when)
{
	for (int f = 0; f < 2; f++) {
		struct stat st;
		bool ex = __real_stat(F[f].path.c_str(), &st) == 0;
		REQUIRE(c, ex == F[f].exists, "%s: file %d %s", when, f, ex ? "exists" : "does not exist");
		if (!ex) continue;
		std::string g = slurp(F[f].path);
		REQUIRE(c, g.size() == F[f].data.size(), "%s: file %d has %zu bytes, expected %zu", when, f, g.size(), F[f].data.size());
		REQUIRE(c, g == F[f].data, "%s: file %d differs at byte %zu", when, f, diff_at(g, F[f].data));
	}
	for (int k = 0; k < 4; k++) {
		Map &m = M[k];
		if (!m.live || !m.read) continue;
		const std::string &d = F[m.file].data;
		for (size_t i = 0; i < m.len && m.off + i < d.size(); i++) {
			char want = d[m.off + i];
			if (!m.shared) {
				auto it = m.priv.find(i);
				if (it != m.priv.end()) want = it->second;
				else if (m.snap) continue;
			}
			REQUIRE(c, (char) m.m->ptr[i] == want, "%s: byte %zu of the mapping (offset %zu, length %zu) is %02x, the file has %02x", when, i, m.off, m.len, m.m->ptr[i], (unsigned char) want);
		}
	}
}

// offsets and lengths beyond 32 bits, in a file that is almost entirely a hole
static void huge_file(Case &c)
{
	std::string p = scratch() + "/huge", z;
	unlink(p.c_str());
	const size_t G4 = (size_t) 1 << 32, size = G4 + (size_t) PG * (2 + c.draw(4)) + c.draw((uint64_t) PG);
	static const size_t offs[] = {0, 1ul << 12, 1ul << 31, (1ul << 31) + 4096, (1ul << 32) - 4096, 1ul << 32, (1ul << 32) + 4096};
	int fd = __real_open(p.c_str(), O_CREAT | O_RDWR | O_TRUNC | O_CLOEXEC, 0644);
	if (fd < 0) c.error("cannot create the file");
	if (__real_ftruncate(fd, (off_t) size)) { __real_close(fd); c.label("no sparse files"); return; }
	std::map<size_t, unsigned char> mark = {{size - 1, 0x77}};
	for (size_t i = 0; i < 7; i++) mark[offs[i] + 5] = (unsigned char) (0x30 + i);
	for (auto &m : mark) if (pwrite(fd, &m.second, 1, (off_t) m.first) != 1) c.error("cannot write the file");
	__real_close(fd);
	uint64_t fd0 = fds();
	size_t off = offs[c.draw(7)];
	bool wr = c.flip(), shared = c.flip();
	size_t len = wr || c.flip() ? std::min<size_t>(1 + c.draw(3 * (uint64_t) PG), size - off) : c.flip() ? 0 : size - off;
	size_t L = len ? len : size - off;
	c.trace("file of %zu bytes, offset %zu, len %zu, %s %s", size, off, len, wr ? "rw" : "r", shared ? "shared" : "private");
	struct sc_mmap *m = (struct sc_mmap *) malloc(sizeof *m);
	memset(m, 0x5a, sizeof *m);
	big_maps = 0;
	big_on = true;
	int rc = sc_mmap_init(m, p.c_str(), O_RDWR, PROT_READ | (wr ? PROT_WRITE : 0), shared ? MAP_SHARED : MAP_PRIVATE, off, len);
	big_on = false;
	if (rc && L > (1ul << 30)) { // no address space for that much
		free(m);
		unlink(p.c_str());
		c.label("huge mapping refused");
		return;
	}
	REQUIRE(c, rc == 0, "mapping %zu bytes at %zu of a file of %zu fails: %s", L, off, size, sc_mmap_err(m));
	REQUIRE(c, m->len == L && m->ptr, "the mapping has length %zu instead of %zu", m->len, L);
	for (auto &x : mark)
		if (x.first >= off && x.first < off + L)
			REQUIRE(c, m->ptr[x.first - off] == x.second, "byte %zu of the mapping at %zu is %02x, the file has %02x", x.first - off, off, m->ptr[x.first - off], x.second);
	unsigned char *base = (unsigned char *) m->ptr;
	for (int i = 0; i < 4; i++) {
		size_t at = c.chance(1, 3) ? c.draw(L) : c.flip() ? c.draw(std::min<size_t>(L, 5000)) : L - 1 - std::min<size_t>(L - 1, c.draw(5000));
		size_t n = c.flip() ? L - at : 1 + (c.flip() ? c.draw(L - at) : 0), w = c.draw(3);
		if (n > L - at) n = L - at;
		big_p = NULL;
		big_on = true;
		rc = w == 0 ? sc_mmap_msync(m, at, n) : w == 1 ? sc_mmap_mlock(m, at, n) : sc_mmap_munlock(m, at, n);
		big_on = false;
		uintptr_t a = (uintptr_t) big_p, lo = (uintptr_t) (base + at);
		c.trace("operation %zu at %zu len %zu -> %d, kernel got offset %zd len %zu", w, at, n, rc, (ssize_t) (a - (uintptr_t) base), big_n);
		REQUIRE(c, rc == 0 && big_p, "flush or lock of %zu bytes at %zu fails", n, at);
		REQUIRE(c, a <= lo && lo - a < (uintptr_t) PG && a + big_n >= lo + n && a + big_n < lo + n + (uintptr_t) PG,
			"an operation on %zu bytes at %zu of the mapping is passed on as %zu bytes at %zd", n, at, big_n, (ssize_t) (a - (uintptr_t) base));
	}
	if (wr) {
		size_t at = c.draw(L);
		m->ptr[at] = 0x99;
		if (shared) mark[off + at] = 0x99;
	}
	big_on = true;
	rc = sc_mmap_term(m);
	big_on = false;
	REQUIRE(c, rc == 0 && big_maps == 0 && big_p == base && (big_n + (size_t) PG - 1) / (size_t) PG == (L + (size_t) PG - 1) / (size_t) PG, "terminating a mapping of %zu bytes unmaps %zu", L, big_n);
	REQUIRE(c, fds() == fd0, "descriptors are left behind");
	struct stat st;
	REQUIRE(c, __real_stat(p.c_str(), &st) == 0 && (size_t) st.st_size == size, "the file's size changed from %zu to %zu", size, (size_t) st.st_size);
	fd = __real_open(p.c_str(), O_RDONLY | O_CLOEXEC);
	for (auto &x : mark) {
		unsigned char b = 0;
		if (pread(fd, &b, 1, (off_t) x.first) != 1) c.error("cannot read the file");
		REQUIRE(c, b == x.second, "byte %zu of the file is %02x, expected %02x", x.first, b, x.second);
	}
	__real_close(fd);
	unlink(p.c_str());
	free(m);
	c.label("beyond 32 bits");
	c.nontrivial();
}

void run_case(Case &c)
{
	PG = __real_sysconf(_SC_PAGESIZE);
	on = big_on = false;
	std::string d = scratch();
	if (PG == 4096 && c.chance(1, 150)) {
		huge_file(c);
		return;
	}
	size_t few = c.chance(1, 200) ? 100 : 1; // a few cases with many pages
	File F[2];
	F[0].path = d + "/m0";
	F[1].path = d + "/m1";
	Map M[4];
	std::vector<struct sc_mmap *> all;
	on = false;
	pages.clear();
	for (int f = 0; f < 2; f++) {
		unlink(F[f].path.c_str());
		if (c.chance(2, 3)) {
			size_t n = c.weighted({2, 3, 3, 1}), len = n == 0 ? c.size(300) : n == 1 ? c.draw(5 * few * (uint64_t) PG) : n == 2 ? (size_t) PG * c.draw(5 * few) + (size_t) c.range(0, 2) : 0;
			F[f].data.resize(len);
			uint64_t x = c.draw(1u << 30) | 1;
			for (auto &ch : F[f].data) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; ch = (char) x; }
			int fd = __real_open(F[f].path.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_CLOEXEC, 0644);
			if (fd < 0 || write(fd, F[f].data.data(), len) != (ssize_t) len) c.error("cannot prepare the file");
			__real_close(fd);
			F[f].exists = true;
			c.trace("file %d has %zu bytes", f, len);
		}
	}
	uint64_t fd0 = fds();
	std::map<int, int> fd_of; // live mapping -> descriptor
	unsigned made = 0, stored = 0, failed_live = 0;
	size_t steps = 1 + c.draw(30);
	for (size_t s = 0; s < steps; s++) {
		fault = -1;
		fault_hit = 0;
		bool inject = c.chance(1, 6);
		switch (c.weighted({5, 6, 3, 4, 3, 3})) {
		case 0: {
			int k = (int) c.draw(4);
			Map &m = M[k];
			if (m.live) break;
			m.file = (int) c.draw(2);
			File &f = F[m.file];
			int acc = (int) c.weighted({8, 2, 1});
			int fl = acc == 0 ? O_RDWR : acc == 1 ? O_RDONLY : O_WRONLY;
			bool creat = c.flip(), excl = creat && c.chance(1, 6), trunc = acc != 1 && c.chance(1, 12);
			for (auto &o : M) if (o.live && o.file == m.file) trunc = false;
			if (creat) fl |= O_CREAT;
			if (excl) fl |= O_EXCL;
			if (trunc) fl |= O_TRUNC;
			m.write = c.chance(3, 4);
			m.read = !m.write || c.chance(5, 6);
			int prot = (m.read ? PROT_READ : 0) | (m.write ? PROT_WRITE : 0);
			m.shared = c.chance(3, 4);
			size_t off, len;
			switch (c.weighted({4, 4, 1, 1})) {
			case 0: off = 0; break;
			case 1: off = (size_t) PG * c.draw(6); break;
			case 2: off = c.draw(5 * (uint64_t) PG); break;
			default: off = (size_t) c.u64(); if (off < (1ul << 40)) off &= ~(size_t) (PG - 1); break;
			}
			switch (c.weighted({3, 4, 2, 2})) {
			case 0: len = 0; break;
			case 1: len = 1 + c.draw(3 * few * (uint64_t) PG); break;
			case 2: len = (size_t) PG * (1 + c.draw(4)) + (size_t) c.range(-1, 1); break;
			default: len = c.chance(1, 3) ? (size_t) c.u64() | (1ull << 50) : 1 + c.size(200); break;
			}
			if (inject) {
				static const int K[] = {F_OPEN, F_STAT, F_ALLOC, F_MMAP, F_CLOSE, F_SYSCONF};
				static const int E[] = {EMFILE, EIO, ENOSPC, ENOMEM, EIO, EINVAL};
				size_t i = c.draw(6);
				fault = K[i];
				fault_errno = E[i];
				fault_times = 1;
				if (fault == F_ALLOC && c.flip()) { fault_errno = EINTR; fault_times = (int) (1 + c.draw(5)); }
			}
			m.m = (struct sc_mmap *) malloc(sizeof(struct sc_mmap));
			memset(m.m, 0xa5, sizeof *m.m);
			all.push_back(m.m);
			// ---- what must happen
			const char *why = nullptr; // must fail
			bool may_fail = false;
			File before = f;
			bool existed = f.exists;
			if (!existed && !creat) why = "the file is missing";
			else if (existed && excl) why = "the file exists already";
			bool opened = !why;
			size_t size = trunc ? 0 : f.data.size(), L = len ? len : size - off;
			if (!why && len == 0 && off >= size) why = "nothing to map";
			if (!why && off % (size_t) PG) why = "the offset is not aligned";
			if (!why && L > (1ull << 48)) why = "the size is absurd";
			if (!why && !m.write && off > (1ull << 40)) may_fail = true; // up to the file system
			if (!why && m.write && acc != 1 && off + L > (size_t) CAP) why = "the file would be too large";
			if (!why && acc == 2) why = "the file is not readable";
			if (!why && acc == 1 && m.write && m.shared) why = "the file is not writable";
			if (!why && acc == 1 && m.write) may_fail = true;
			char *z = strdup(f.path.c_str());
			on = true;
			errno = 0;
			int rc = sc_mmap_init(m.m, z, fl, prot, m.shared ? MAP_SHARED : MAP_PRIVATE, off, len);
			on = false;
			memset(z, 'z', strlen(z));
			free(z);
			c.trace("map %d: file %d flags %s%s%s%s prot %s%s %s offset %zu len %zu%s -> %d (%s)", k, m.file, acc == 0 ? "rw" : acc == 1 ? "ro" : "wo", creat ? " creat" : "", excl ? " excl" : "",
				trunc ? " trunc" : "", m.read ? "r" : "", m.write ? "w" : "", m.shared ? "shared" : "private", off, len, fault_hit ? " [call refused]" : "", rc, rc ? sc_mmap_err(m.m) : "");
			bool hard = fault_hit && fault != F_CLOSE && fault_errno != EINTR;
			REQUIRE(c, rc == 0 || rc < 0, "sc_mmap_init() returned %d", rc);
			if (hard) REQUIRE(c, rc < 0, "a refused system call (%s) is not reported", strerror(fault_errno));
			if (why) REQUIRE(c, rc < 0, "mapping succeeds although %s", why);
			if (!why && !hard && !may_fail) REQUIRE(c, rc == 0, "mapping fails: %s", sc_mmap_err(m.m));
			if (rc == 0) {
				if (trunc) f.data.clear();
				if (!existed) {
					struct stat sm;
					REQUIRE(c, __real_stat(f.path.c_str(), &sm) == 0 && (sm.st_mode & 0600) == 0600, "the created file is not readable and writable for its owner (mode %o)", (unsigned) sm.st_mode & 07777);
				}
				f.exists = true;
				if (m.write && off + L > f.data.size()) {
					// other mappings must see zeros
					f.data.resize(off + L, '\0');
				}
				m.off = off;
				m.len = L;
				m.live = true;
				m.priv.clear();
				m.snap = false;
				REQUIRE(c, m.m->ptr && m.m->len == L, "the mapping has length %zu instead of %zu", m.m->len, L);
				REQUIRE(c, m.m->fd >= 0 && fcntl(m.m->fd, F_GETFD) != -1, "the mapping's descriptor %d is not open", m.m->fd);
				std::set<uintptr_t> need;
				span(need, m.m->ptr, L);
				for (auto x : need) REQUIRE(c, pages.count(x), "the mapping is shorter than %zu bytes", L);
				fd_of[k] = m.m->fd;
				made++;
			} else {
				const char *e = sc_mmap_err(m.m);
				REQUIRE(c, e && *e && strnlen(e, 128) < 128, "a failure leaves no message");
				if (hard) REQUIRE(c, !strcmp(e, strerror(fault_errno)), "the message is '%s', the system call reported '%s'", e, strerror(fault_errno));
				else if (!opened) REQUIRE(c, !strcmp(e, strerror(existed ? EEXIST : ENOENT)), "the message is '%s' although %s", e, why);
				// the file may have been created or extended, never cut or changed
				struct stat st;
				bool ex = __real_stat(f.path.c_str(), &st) == 0;
				REQUIRE(c, ex || !existed, "a failed mapping removed the file");
				if (ex) {
					std::string g = slurp(f.path), b = trunc && g != before.data ? "" : before.data;
					REQUIRE(c, g.size() >= b.size() && !g.compare(0, b.size(), b), "a failed mapping changed the file (%zu bytes, before %zu)", g.size(), b.size());
					REQUIRE(c, g.find_first_not_of('\0', b.size()) == std::string::npos, "a failed mapping wrote to the file");
					REQUIRE(c, g.size() <= std::max(b.size(), off + L < off ? (size_t) -1 : off + L), "a failed mapping extended the file to %zu bytes", g.size());
					f.data = g;
				}
				f.exists = ex;
				if (M[0].live || M[1].live || M[2].live || M[3].live) failed_live++;
				if (c.flip()) {
					on = true;
					int rt = sc_mmap_term(m.m);
					on = false;
					REQUIRE(c, rt == 0, "terminating after a failed mapping returns %d", rt);
				}
			}
			break;
		}
		case 1: { // store through a mapping
			int k = (int) c.draw(4);
			Map &m = M[k];
			if (!m.live || !m.write) break;
			std::string &fd = F[m.file].data;
			if (m.off >= fd.size()) break;
			size_t room = std::min(m.len, fd.size() - m.off), n = 1 + c.size(200);
			size_t at = c.flip() ? c.draw(room) : room - 1 - c.draw(std::min<size_t>(room, 10));
			if (n > room - at) n = room - at;
			char b = (char) c.draw(256);
			for (size_t i = 0; i < n; i++) {
				char v = (char) (b + (char) i);
				m.m->ptr[at + i] = (unsigned char) v;
				if (m.shared) fd[m.off + at + i] = v;
				else { m.priv[at + i] = v; m.snap = true; }
			}
			c.trace("store %zu bytes at %zu of mapping %d", n, at, k);
			stored++;
			break;
		}
		case 2: { // store through the file
			int fi = (int) c.draw(2);
			File &f = F[fi];
			if (!f.exists || f.data.empty()) break;
			size_t at = c.draw(f.data.size()), n = std::min<size_t>(1 + c.size(100), f.data.size() - at);
			std::string v = c.bytes(n);
			int fd = __real_open(f.path.c_str(), O_WRONLY | O_CLOEXEC);
			if (fd < 0 || pwrite(fd, v.data(), n, (off_t) at) != (ssize_t) n) c.error("cannot write the file");
			__real_close(fd);
			f.data.replace(at, n, v);
			c.trace("write %zu bytes at %zu of file %d", n, at, fi);
			// a private mapping may or may not show later writes to the file
			for (auto &m : M) if (m.live && !m.shared && m.file == fi) m.snap = true;
			break;
		}
		case 3: { // flush, lock, unlock
			int k = (int) c.draw(4);
			Map &m = M[k];
			if (!m.live) break;
			const std::string &fd = F[m.file].data;
			if (m.off >= fd.size()) break;
			size_t room = std::min(m.len, fd.size() - m.off);
			size_t at = c.weighted({1, 2, 2}), n;
			at = at == 0 ? 0 : at == 1 ? c.draw(room) : std::min<size_t>(room - 1, (size_t) PG * c.draw(4) + (size_t) PG - 1 - c.draw(3));
			n = 1 + (c.flip() ? c.draw(room - at) : std::min<size_t>(room - at - 1, c.draw(5)));
			if (c.chance(1, 6)) n = room - at;
			int what = (int) c.weighted({3, 1, 1});
			if (inject) {
				static const int K[] = {F_MSYNC, F_MLOCK, F_MUNLOCK}, E[] = {EIO, ENOMEM, ENOMEM};
				fault = K[what];
				fault_errno = E[what];
				fault_times = 1;
			}
			synced.clear();
			locked.clear();
			unlocked.clear();
			sync_flag_ok = true;
			on = true;
			int rc = what == 0 ? sc_mmap_msync(m.m, at, n) : what == 1 ? sc_mmap_mlock(m.m, at, n) : sc_mmap_munlock(m.m, at, n);
			on = false;
			static const char *N[] = {"flush", "lock", "unlock"};
			c.trace("%s mapping %d at %zu len %zu%s -> %d", N[what], k, at, n, fault_hit ? " [refused]" : "", rc);
			if (fault_hit) {
				REQUIRE(c, rc < 0, "a refused %s is not reported", N[what]);
				REQUIRE(c, !strcmp(sc_mmap_err(m.m), strerror(fault_errno)), "the message is '%s', the system call reported '%s'", sc_mmap_err(m.m), strerror(fault_errno));
				failed_live++;
				break;
			}
			REQUIRE(c, rc == 0, "%s of bytes %zu..%zu of a mapping of %zu fails: %s", N[what], at, at + n - 1, m.len, sc_mmap_err(m.m));
			std::set<uintptr_t> need, &got = what == 0 ? synced : what == 1 ? locked : unlocked;
			span(need, m.m->ptr + at, n);
			if (what == 0) REQUIRE(c, sync_flag_ok, "the flush does not wait for the data");
			for (auto x : need) REQUIRE(c, got.count(x), "%s of bytes %zu..%zu leaves out the page at byte %zu", N[what], at, at + n - 1, (size_t) (x - (uintptr_t) m.m->ptr));
			for (auto x : got) REQUIRE(c, need.count(x), "%s of bytes %zu..%zu also covers the page at byte %zd", N[what], at, at + n - 1, (ssize_t) (x - (uintptr_t) m.m->ptr));
			break;
		}
		case 4: { // terminate
			int k = (int) c.draw(4);
			Map &m = M[k];
			if (!m.live) break;
			if (inject) {
				fault = c.flip() ? F_MUNMAP : F_CLOSE;
				fault_errno = fault == F_MUNMAP ? EINVAL : EIO;
				fault_times = 1;
			}
			size_t cnt = pages.size();
			std::set<uintptr_t> mine;
			span(mine, m.m->ptr, m.len);
			on = true;
			int rc = sc_mmap_term(m.m);
			on = false;
			c.trace("terminate mapping %d%s -> %d", k, fault_hit ? " [refused]" : "", rc);
			if (fault_hit && fault == F_MUNMAP) REQUIRE(c, rc < 0 && !strcmp(sc_mmap_err(m.m), strerror(EINVAL)), "a refused unmapping returns %d with '%s'", rc, sc_mmap_err(m.m));
			else if (!fault_hit) REQUIRE(c, rc == 0, "terminating fails: %s", sc_mmap_err(m.m));
			REQUIRE(c, pages.size() + mine.size() == cnt, "terminating a mapping of %zu pages releases %zu", mine.size(), cnt - pages.size());
			m.live = false;
			fd_of.erase(k);
			if (c.flip()) {
				on = true;
				REQUIRE(c, sc_mmap_term(m.m) == 0, "a second termination fails");
				on = false;
			}
			break;
		}
		default:
			break;
		}
		on = false;
		uint64_t want = fd0;
		for (auto &x : fd_of) want |= 1ull << x.second;
		uint64_t got = fds();
		REQUIRE(c, got == want, "open descriptors are %llx, expected %llx", (unsigned long long) got, (unsigned long long) want);
		size_t np = 0;
		for (auto &m : M) if (m.live) np += (m.len + (size_t) PG - 1) / (size_t) PG;
		REQUIRE(c, pages.size() == np, "%zu pages are mapped, the live mappings have %zu", pages.size(), np);
		check_all(c, F, M, "after the step");
	}
	for (auto &m : M) {
		if (!m.live) continue;
		fault = -1;
		on = true;
		int rc = sc_mmap_term(m.m);
		on = false;
		REQUIRE(c, rc == 0, "terminating fails");
		m.live = false;
	}
	REQUIRE(c, fds() == fd0 && pages.empty(), "descriptors or mappings are left behind");
	check_all(c, F, M, "at the end");
	for (auto p : all) free(p);
	if ((made >= 2 && stored) || failed_live) c.nontrivial();
}
