// C05: growth, limits, compaction, shrinking, moving, text append keep the unread bytes.
// With -DBUF_OOM also part of C10 (allocation failures injected).
#include "pbt.h"
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include "sc_buf.h"
}
using namespace pbt;

#ifdef BUF_OOM
#define OOM 1
#else
#define OOM 0
#endif

const HarnessInfo harness_info = {
	"histories of 1..80 operations on two or three buffers (owned with any start capacity and limit, or borrowed): writes, reads, "
	"mark read/write, reserve (also huge), compact, shrink, limit, move between buffers, text append, rewind, clear; rarely writes of 4 GB, or into regions of more than 4 GB"
#ifdef BUF_OOM
	", with injected allocation failures"
#endif
	"; non-trivial: at least 5 operations changed contents and capacity, position or error state changed through one of "
	"reserve/compact/shrink/move/text/limit"
#ifdef BUF_OOM
	" and an allocation failure was injected"
#endif
};

struct B {
	struct sc_buf b;
	bool ref = false, text = false;
	std::unique_ptr<unsigned char[]> mem;
	size_t cap0 = 0;
	uint64_t limit = UINT64_MAX;
	std::string data; // model of mem[0, wpos)
	size_t rpos = 0;
	bool err = false;
};

static uint64_t up(uint64_t n) { return (n + 4095) / 4096 * 4096; }

static void check(Case &c, B &x)
{
	REQUIRE(c, sc_buf_valid(&x.b) == !x.err, "buffer is %s, expected %s", sc_buf_valid(&x.b) ? "valid" : "in error",
		x.err ? "error" : "valid");
	REQUIRE(c, sc_buf_rpos(&x.b) == x.rpos && sc_buf_wpos(&x.b) == x.data.size(), "positions %llu/%llu, expected %zu/%zu",
		(unsigned long long) sc_buf_rpos(&x.b), (unsigned long long) sc_buf_wpos(&x.b), x.rpos, x.data.size());
	REQUIRE(c, sc_buf_size(&x.b) == x.data.size() - x.rpos, "size %llu, expected %zu", (unsigned long long) sc_buf_size(&x.b),
		x.data.size() - x.rpos);
	uint64_t cap = sc_buf_cap(&x.b);
	REQUIRE(c, cap >= x.data.size() && sc_buf_quota(&x.b) == cap - x.data.size(), "capacity %llu, quota %llu with %zu used",
		(unsigned long long) cap, (unsigned long long) sc_buf_quota(&x.b), x.data.size());
	if (x.data.size()) {
		REQUIRE(c, memcmp(sc_buf_at(&x.b, x.rpos), x.data.data() + x.rpos, x.data.size() - x.rpos) == 0,
			"unread bytes are %s, expected %s", hex(sc_buf_rbuf(&x.b), x.data.size() - x.rpos).c_str(),
			hex(x.data.data() + x.rpos, x.data.size() - x.rpos).c_str());
		REQUIRE(c, sc_buf_rbuf(&x.b) == (char *) sc_buf_at(&x.b, 0) + x.rpos &&
				sc_buf_wbuf(&x.b) == (char *) sc_buf_at(&x.b, 0) + x.data.size(), "read/write addresses disagree with the positions");
	}
	if (x.ref)
		REQUIRE(c, cap == x.cap0 && (unsigned char *) sc_buf_at(&x.b, 0) == x.mem.get(), "borrowed buffer changed its memory or capacity");
}

// what may happen when `len` more bytes are asked for
enum Fit { MUST, MAY, MUSTNOT };
static Fit fit(B &x, uint64_t len)
{
	uint64_t cap = sc_buf_cap(&x.b), w = x.data.size();
	if (len <= cap - w) return MUST;
	if (x.ref) return MUSTNOT;
	if (len > (1ull << 40) || w + len > x.limit) return MUSTNOT;
	if (up(cap + len) <= x.limit) return MUST;
	return MAY;
}

static void settle(Case &c, B &x, const char *what, uint64_t len, Fit f, uint64_t cap0, long failed0, bool ok)
{
	uint64_t cap = sc_buf_cap(&x.b);
	if (ok) {
		REQUIRE(c, f != MUSTNOT, "%s of %llu bytes succeeded although it cannot fit (capacity %llu, used %zu, limit %llu)", what,
			(unsigned long long) len, (unsigned long long) cap0, x.data.size(), (unsigned long long) x.limit);
		REQUIRE(c, cap - sc_buf_wpos(&x.b) <= cap, "write position beyond capacity");
	} else {
		bool injected = pbt_alloc_failed > failed0;
		REQUIRE(c, f != MUST || injected, "%s of %llu bytes failed although it fits (capacity %llu, used %zu, limit %llu)", what,
			(unsigned long long) len, (unsigned long long) cap0, x.data.size(), (unsigned long long) x.limit);
		REQUIRE(c, cap == cap0, "%s failed but capacity changed %llu -> %llu", what, (unsigned long long) cap0, (unsigned long long) cap);
	}
	if (cap != cap0) {
		REQUIRE(c, cap > cap0 && cap <= x.limit, "%s: capacity %llu -> %llu with limit %llu", what, (unsigned long long) cap0,
			(unsigned long long) cap, (unsigned long long) x.limit);
		c.label("grew");
	}
	if (!ok) c.label("did not fit");
}

// `extra`: bytes that are written besides the payload
static std::string payload(Case &c, B &x, size_t extra)
{
	size_t n;
	uint64_t cap = sc_buf_cap(&x.b), q = cap - x.data.size();
	switch (c.weighted({6, 2, 1, 2, 1})) {
	case 0: n = c.size(40); break;
	case 1: n = 1000 + c.draw(3200); break;
	case 3: // fills the free space exactly, or misses it by one
		n = (size_t) (q < 30000 ? q : 0) + c.draw(3);
		n = n > extra + 1 ? n - extra - 1 : 1;
		break;
	case 4: // fills the next capacity exactly, or misses it by one
		n = (size_t) (up(cap + extra + 1) - cap) + c.draw(3) - 1;
		n = n > extra ? n - extra : 1;
		break;
	default: n = c.chance(1, 40) ? 65000 + c.draw(9000) : 4060 + c.draw(80); break;
	}
	std::string s(n, 0);
	unsigned seed = (unsigned) c.draw(256);
	for (size_t i = 0; i < n; i++) s[i] = (char) (seed + i * 31 + (i >> 8));
	return s;
}

// formatted text, strings and blobs: a length of 8 bytes, the content, for texts a terminator; on failure the buffer is in
// error and what was read before is intact
static void put_item(Case &c, B &x, size_t xi, uint64_t cap0, long failed0, unsigned &changed, unsigned &special)
{
	int kind = (int) c.draw(4);
	size_t extra = kind == 3 ? 8 : 9;
	std::string s = payload(c, x, extra);
	static const char *const names[] = {"put_fmt", "put_str", "put_str_len", "put_blob"};
	if (kind < 2)
		for (auto &ch : s)
			if (!ch) ch = 'z';
	uint64_t need = s.size() + extra;
	Fit f = fit(x, need);
	// text without growth is written at once; the others are written piece by piece, each of which may round up the capacity
	if (f == MUST && kind && need > cap0 - x.data.size() && up(cap0 + need) + 8192 > x.limit) f = MAY;
	c.trace("%zu: %s %zu bytes", xi, names[kind], s.size());
	Bytes bytes(s);
	{
		Alloc a;
		switch (kind) {
		case 0: sc_buf_put_fmt(&x.b, "%s", s.c_str()); break;
		case 1: sc_buf_put_str(&x.b, s.c_str()); break;
		case 2: sc_buf_put_str_len(&x.b, bytes, s.size()); break;
		default: sc_buf_put_blob(&x.b, bytes, s.size()); break;
		}
	}
	bool ok = sc_buf_valid(&x.b);
	std::string enc;
	for (int k = 0; k < 8; k++) enc += (char) ((uint64_t) s.size() >> (8 * k));
	enc += s;
	if (kind < 3) enc += '\0';
	special |= 64;
	if (ok) {
		settle(c, x, names[kind], need, f, cap0, failed0, ok);
		x.data += enc;
		changed++;
		if (sc_buf_wpos(&x.b) == sc_buf_cap(&x.b)) c.label("exactly full");
		return;
	}
	REQUIRE(c, f != MUST || pbt_alloc_failed > failed0, "%s of %zu bytes failed although it fits (capacity %llu, used %zu, limit %llu)",
		names[kind], s.size(), (unsigned long long) cap0, x.data.size(), (unsigned long long) x.limit);
	REQUIRE(c, sc_buf_cap(&x.b) == cap0 || (sc_buf_cap(&x.b) > cap0 && sc_buf_cap(&x.b) <= x.limit), "failed %s: capacity %llu -> %llu",
		names[kind], (unsigned long long) cap0, (unsigned long long) sc_buf_cap(&x.b));
	x.err = true;
	c.label("did not fit");
	// a part of it may have been written
	uint64_t w = sc_buf_wpos(&x.b);
	REQUIRE(c, w >= x.data.size() && w < x.data.size() + enc.size(), "failed %s leaves write position %llu", names[kind], (unsigned long long) w);
	x.data += enc.substr(0, w - x.data.size());
}

// writes of about 4 GB (one piece of memory mapped again and again) into buffers with a limit
static void gigabytes(Case &c)
{
	const size_t piece = 64ul << 20, len = (1ul << 32) - 10 + c.draw(40), room = (len / piece + 1) * piece;
	int fd = memfd_create("text", MFD_CLOEXEC);
	char *t = (char *) mmap(NULL, room + piece, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	bool ok = fd >= 0 && t != MAP_FAILED && ftruncate(fd, (off_t) piece) == 0;
	if (ok) {
		char *w = (char *) mmap(NULL, piece, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		ok = w != MAP_FAILED;
		if (ok) memset(w, 'a', piece), munmap(w, piece);
	}
	for (size_t o = 0; ok && o < room; o += piece) ok = mmap(t + o, piece, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, fd, 0) != MAP_FAILED;
	if (fd >= 0) close(fd);
	if (!ok) { c.label("no room for gigabytes"); return; }
	t[len] = 0;
	unsigned char mem[4096];
	for (int kind = 0; kind < 7; kind++) {
		static const char *names[] = {"put_str", "put_str_len", "put_blob", "put_raw", "put_text", "put_fmt", "reserve"};
		struct sc_buf b;
		bool ref = c.flip();
		uint64_t limit = ref ? sizeof mem : 4096 * (1 + c.draw(20));
		c.trace("%s of %zu bytes into a %s buffer of at most %llu", names[kind], len, ref ? "borrowed" : "owned", (unsigned long long) limit);
		bool valid, kept;
		uint64_t cap;
		pbt_alloc_cap = 1ul << 24;
		{
			Alloc a;
			if (ref) b = sc_buf_wrap(mem, sizeof mem, SC_BUF_REF);
			else {
				sc_buf_init(&b, 100);
				sc_buf_limit(&b, limit);
			}
			sc_buf_put_raw(&b, "abc", 4);
			switch (kind) {
			case 0: sc_buf_put_str(&b, t); break;
			case 1: sc_buf_put_str_len(&b, t, len); break;
			case 2: sc_buf_put_blob(&b, t, len); break;
			case 3: sc_buf_put_raw(&b, t, len); break;
			case 4: sc_buf_put_text(&b, "%s", t); break;
			case 5: sc_buf_put_fmt(&b, "%s", t); break;
			default: sc_buf_reserve(&b, len);
			}
			valid = sc_buf_valid(&b);
			cap = sc_buf_cap(&b);
			kept = kind == 4 ? sc_buf_size(&b) == 0 : sc_buf_size(&b) >= 4 && !memcmp(sc_buf_rbuf(&b), "abc", 4);
			if (!ref) sc_buf_term(&b);
		}
		pbt_alloc_cap = 0;
		REQUIRE(c, !valid, "%s of %zu bytes into a %s buffer of at most %llu is no error", names[kind], len, ref ? "borrowed" : "owned", (unsigned long long) limit);
		REQUIRE(c, kept, "%s of %zu bytes: what was there is lost (or kept, for a text)", names[kind], len);
		REQUIRE(c, cap <= limit, "%s of %zu bytes: capacity %llu, limit %llu", names[kind], len, (unsigned long long) cap, (unsigned long long) limit);
		REQUIRE(c, pbt_alloc_live == 0, "%s of %zu bytes: %ld blocks left", names[kind], len, pbt_alloc_live);
	}
	munmap(t, room + piece);
	c.label("gigabytes");
	c.nontrivial();
}

// writes into a borrowed region whose free space does not fit in 32 bits
static void wide_region(Case &c)
{
	const size_t cap = (1ul << 32) * (1 + c.draw(2)) + c.size(300);
	char *m = (char *) mmap(NULL, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) { c.label("no room for gigabytes"); return; }
	struct sc_buf b = sc_buf_wrap(m, cap, SC_BUF_REF);
	bool text = c.flip();
	uint64_t start = text || cap < 3ul << 31 || c.flip() ? 0 : (1ull << 32) - 300 + c.draw(400);
	if (start) {
		sc_buf_mark_write(&b, start);
		sc_buf_mark_read(&b, start);
	}
	std::string want;
	size_t n = 1 + c.draw(8);
	for (size_t i = 0; i < n; i++) {
		std::string t = c.text(c.size(80), "abc ");
		uint64_t room = cap - start - want.size();
		if (room < t.size() + 10) break;
		if (c.chance(1, 4) && !text) {
			struct sc_buf o;
			sc_buf_init(&o, 100);
			sc_buf_put_raw(&o, t.data(), t.size());
			c.trace("move %zu", t.size());
			sc_buf_move(&b, &o);
			want += t;
			REQUIRE(c, sc_buf_size(&o) == 0, "a move of %zu bytes into a region of %zu leaves %llu", t.size(), cap, (unsigned long long) sc_buf_size(&o));
			sc_buf_term(&o);
		} else if (text) {
			c.trace("put_text %zu", t.size());
			sc_buf_put_text(&b, "%s", t.c_str());
			if (want.size()) want.pop_back();
			want += t;
			want += '\0';
		} else {
			uint64_t len = t.size();
			std::string e((const char *) &len, 8);
			switch (c.draw(3)) {
			case 0:
				c.trace("put_fmt %zu", t.size());
				sc_buf_put_fmt(&b, "%s", t.c_str());
				want += e + t + '\0';
				break;
			case 1:
				c.trace("put_str %zu", t.size());
				sc_buf_put_str(&b, t.c_str());
				want += e + t + '\0';
				break;
			default:
				c.trace("put_raw %zu", t.size());
				sc_buf_put_raw(&b, t.data(), t.size());
				want += t;
			}
		}
		REQUIRE(c, sc_buf_valid(&b), "a write of %zu bytes at %llu of a borrowed region of %zu bytes fails", t.size(), (unsigned long long) start, cap);
		REQUIRE(c, sc_buf_size(&b) == want.size() && sc_buf_quota(&b) == cap - start - want.size() && !memcmp(sc_buf_rbuf(&b), want.data(), want.size()),
			"a write of %zu bytes at %llu of a borrowed region of %zu bytes: %llu bytes are there, %zu expected, or others", t.size(), (unsigned long long) start, cap,
			(unsigned long long) sc_buf_size(&b), want.size());
	}
	munmap(m, cap);
	c.label("region beyond 32 bits");
	c.nontrivial();
}

void run_case(Case &c)
{
	pbt_alloc_reset();
	if (!OOM && c.chance(1, 5000)) {
		wide_region(c);
		return;
	}
	if (!OOM && c.chance(1, 700000)) {
		gigabytes(c);
		return;
	}
	size_t nb = 2 + c.draw(2);
	std::vector<B> v(nb);
	for (auto &x : v) {
		x.ref = c.chance(2, 5);
		x.text = c.chance(1, 3);
		size_t cap;
		switch (c.draw(4)) {
		case 0: cap = c.draw(12); break;
		case 1: cap = c.draw(200); break;
		case 2: cap = 4090 + c.draw(12); break;
		default: cap = c.draw(c.chance(1, 30) ? 140000 : 20000); break;
		}
		if (x.ref) {
			x.mem.reset(new unsigned char[cap + 16]);
			memset(x.mem.get(), 0xc3, cap + 16);
			x.cap0 = cap;
			x.limit = cap;
			// half of the borrowed buffers start with their contents (SC_BUF_DATA)
			bool data = !x.text && c.flip();
			x.b = sc_buf_wrap(x.mem.get(), cap, data ? SC_BUF_READ : SC_BUF_REF);
			if (data) x.data.assign((char *) x.mem.get(), cap);
		} else if (c.chance(1, 4)) {
			void *m;
			{ // adopted memory
				Alloc a;
				m = malloc(cap ? cap : 1);
			}
			memset(m, 0x3c, cap ? cap : 1);
			bool data = !x.text && c.flip();
			x.b = sc_buf_wrap(m, cap, data ? SC_BUF_DATA : 0);
			if (data) x.data.assign((char *) m, cap);
		} else {
			Alloc a;
			bool ok = sc_buf_init(&x.b, cap);
			if (!ok) c.fail("init(%zu) failed", cap);
		}
		c.trace("buffer %zu: %s%s capacity %zu used %zu", (size_t) (&x - v.data()), x.ref ? "borrowed" : "owned",
			x.text ? " text" : "", cap, x.data.size());
		check(c, x);
	}
	unsigned changed = 0, special = 0;
	size_t steps = 1 + c.draw(80);
	for (size_t i = 0; i < steps; i++) {
		size_t xi = c.draw(nb);
		B &x = v[xi];
		uint64_t cap0 = sc_buf_cap(&x.b);
		long failed0 = pbt_alloc_failed;
		if (OOM) {
			if (c.chance(1, 12)) {
				pbt_alloc_fail_at = (long) c.draw(3);
				pbt_alloc_fail_sticky = c.chance(1, 3);
				c.trace("fail allocation %ld%s", pbt_alloc_fail_at, pbt_alloc_fail_sticky ? " and later" : "");
			} else if (c.chance(1, 8)) {
				pbt_alloc_fail_at = -1;
				pbt_alloc_fail_sticky = 0;
			}
		}
		if (x.err && c.chance(1, 4)) {
			c.trace("%zu: clear", xi);
			sc_buf_clear(&x.b);
			x.data.clear();
			x.rpos = 0;
			x.err = false;
			check(c, x);
			continue;
		}
		switch (c.weighted({8, 5, 2, 3, 4, 4, 2, 5, 4, 1, 1, 1})) {
		case 0: { // write
			if (x.text) {
				std::string s = payload(c, x, 1);
				for (auto &ch : s)
					if (!ch || ch == '%') ch = 'p';
				if (s.size() > 4000 && c.flip()) s.resize(c.size(60));
				if (x.err) break;
				bool had = x.data.size() > x.rpos;
				uint64_t need = s.size() + (had ? 0 : 1);
				Fit f = fit(x, need);
				// at the exact boundary the implementation may ask for one byte more
				if (f == MUST && need == cap0 - x.data.size() && had) f = x.ref ? MAY : fit(x, need + 1) == MUST ? MUST : MAY;
				else if (f == MUST && need > cap0 - x.data.size() && fit(x, need + 1) != MUST) f = MAY;
				c.trace("%zu: put_text %zu bytes", xi, s.size());
				{
					Alloc a;
					sc_buf_put_text(&x.b, "%s", s.c_str());
				}
				bool ok = sc_buf_valid(&x.b);
				settle(c, x, "put_text", need, f, cap0, failed0, ok);
				if (ok) {
					if (had) x.data.pop_back();
					x.data += s + '\0';
					changed++;
				} else {
					x.err = true;
					// a failed append leaves the old text or empties the buffer
					if (sc_buf_size(&x.b) == 0) {
						x.data.clear();
						x.rpos = 0;
					}
				}
				special |= 1;
				break;
			}
			if (c.chance(1, 3)) {
				if (x.err) break;
				put_item(c, x, xi, cap0, failed0, changed, special);
				break;
			}
			std::string s = payload(c, x, 0);
			Fit f = fit(x, s.size());
			c.trace("%zu: put_raw %zu bytes", xi, s.size());
			std::unique_ptr<char[]> exact(new char[s.size()]);
			memcpy(exact.get(), s.data(), s.size());
			{
				Alloc a;
				sc_buf_put_raw(&x.b, exact.get(), s.size());
			}
			bool was = x.err;
			if (was) {
				REQUIRE(c, sc_buf_wpos(&x.b) == x.data.size(), "put on a buffer in error advanced");
				break;
			}
			bool ok = sc_buf_valid(&x.b);
			settle(c, x, "put_raw", s.size(), f, cap0, failed0, ok);
			if (ok) {
				x.data += s;
				changed++;
			} else
				x.err = true;
			break;
		}
		case 1: { // read
			size_t sz = x.data.size() - x.rpos;
			size_t n = c.chance(1, 4) ? sz : c.draw(sz + 1);
			if (n > sz || (x.text && n == sz && sz && false)) break;
			if (x.text && n != sz && n > 0 && x.err) break;
			std::string d(n, 'q');
			c.trace("%zu: get_data %zu", xi, n);
			if (x.err) {
				if (n) sc_buf_get_data(&x.b, &d[0], n);
				break;
			}
			if (n) sc_buf_get_data(&x.b, &d[0], n);
			REQUIRE(c, memcmp(d.data(), x.data.data() + x.rpos, n) == 0, "read %s, expected %s", hex(d.data(), n).c_str(),
				hex(x.data.data() + x.rpos, n).c_str());
			x.rpos += n;
			if (n) changed++;
			break;
		}
		case 2: { // mark write / mark read
			if (c.flip()) {
				if (x.text) break;
				uint64_t q = sc_buf_quota(&x.b);
				size_t n = (size_t) std::min<uint64_t>(q, c.size(64));
				std::string s = c.bytes(n);
				c.trace("%zu: fill wbuf and mark_write %zu", xi, n);
				if (n) memcpy(sc_buf_wbuf(&x.b), s.data(), n);
				sc_buf_mark_write(&x.b, n);
				x.data += s;
				if (n) changed++;
			} else {
				size_t n = c.draw(x.data.size() - x.rpos + 1);
				c.trace("%zu: mark_read %zu", xi, n);
				sc_buf_mark_read(&x.b, n);
				x.rpos += n;
				if (n) changed++;
			}
			break;
		}
		case 3: { // reserve
			uint64_t n;
			switch (c.weighted({5, 3, 2})) {
			case 0: n = c.draw(9000); break;
			case 1: n = sc_buf_quota(&x.b) + c.draw(3); if (n) n -= c.draw(2); break;
			default: n = c.u64() | (1ull << 41); break;
			}
			Fit f = fit(x, n);
			c.trace("%zu: reserve %llu", xi, (unsigned long long) n);
			bool ok;
			{
				Alloc a;
				ok = sc_buf_reserve(&x.b, n);
			}
			settle(c, x, "reserve", n, f, cap0, failed0, ok);
			if (ok)
				REQUIRE(c, sc_buf_quota(&x.b) >= n, "reserve(%llu) leaves quota %llu", (unsigned long long) n, (unsigned long long) sc_buf_quota(&x.b));
			else
				x.err = true;
			special |= 2;
			break;
		}
		case 4: {
			c.trace("%zu: compact", xi);
			sc_buf_compact(&x.b);
			if (x.rpos && x.data.size() > x.rpos) c.label("compact moved bytes");
			x.data.erase(0, x.rpos);
			x.rpos = 0;
			REQUIRE(c, sc_buf_cap(&x.b) == cap0, "compact changed the capacity");
			special |= 4;
			break;
		}
		case 5: {
			uint64_t n;
			switch (c.weighted({4, 3, 2, 1})) {
			case 0: n = c.draw(cap0 + 1); break;
			case 1: n = 0; break;
			case 2: n = cap0 + c.draw(6000); break;
			default: n = c.u64(); break;
			}
			c.trace("%zu: shrink %llu", xi, (unsigned long long) n);
			bool ok;
			{
				Alloc a;
				ok = sc_buf_shrink(&x.b, n);
			}
			x.data.erase(0, x.rpos);
			x.rpos = 0;
			uint64_t cap = sc_buf_cap(&x.b);
			if (!ok) {
				REQUIRE(c, pbt_alloc_failed > failed0, "shrink failed");
				x.err = true;
			}
			REQUIRE(c, cap <= cap0, "shrink(%llu) grew the capacity %llu -> %llu", (unsigned long long) n, (unsigned long long) cap0, (unsigned long long) cap);
			REQUIRE(c, cap == cap0 || cap >= n, "shrink(%llu) went below the desired size: %llu", (unsigned long long) n, (unsigned long long) cap);
			if (ok && !x.ref && n <= cap0 && n > x.data.size())
				REQUIRE(c, cap <= up(n) || cap == cap0 && cap0 <= up(n), "shrink(%llu) left capacity %llu", (unsigned long long) n, (unsigned long long) cap);
			if (cap < cap0) c.label("shrunk");
			special |= 8;
			break;
		}
		case 6: {
			if (x.ref) break;
			uint64_t lim = c.flip() ? c.draw(40000) : c.chance(1, 3) ? UINT64_MAX : c.chance(1, 4) ? (c.flip() ? (1ull << 32) + c.draw(10000) : (1ull << 31) + c.u64() % (1ull << 60)) : up(c.draw(40000)) + c.draw(3) - 1;
			c.trace("%zu: limit %llu", xi, (unsigned long long) lim);
			sc_buf_limit(&x.b, lim);
			x.limit = lim;
			special |= 16;
			break;
		}
		case 7: { // move
			size_t yi = c.draw(nb);
			if (yi == xi) break;
			B &y = v[yi];
			if (x.text || y.text) break;
			size_t n = std::min<size_t>(sc_buf_quota(&x.b), y.data.size() - y.rpos);
			c.trace("move %zu -> %zu (%zu bytes)", yi, xi, n);
			uint64_t ycap = sc_buf_cap(&y.b);
			{
				Alloc a;
				sc_buf_move(&x.b, &y.b);
			}
			if (!x.err) {
				x.data += y.data.substr(y.rpos, n);
				y.rpos += n;
				if (n) changed++, c.label("moved"), special |= 32;
				if (n && y.data.size() > y.rpos) c.label("partial move");
			}
			REQUIRE(c, sc_buf_cap(&x.b) == cap0 && sc_buf_cap(&y.b) == ycap, "move changed a capacity");
			check(c, y);
			break;
		}
		case 8: { // typed write
			if (x.text) break;
			uint64_t val = c.u64();
			if (x.err) break;
			Fit f = fit(x, 8);
			c.trace("%zu: put_64", xi);
			{
				Alloc a;
				sc_buf_put_64(&x.b, val);
			}
			bool ok = sc_buf_valid(&x.b);
			settle(c, x, "put_64", 8, f, cap0, failed0, ok);
			if (ok) {
				for (int k = 0; k < 8; k++) x.data += (char) (val >> (8 * k));
				changed++;
			} else
				x.err = true;
			break;
		}
		case 9:
			c.trace("%zu: clear", xi);
			sc_buf_clear(&x.b);
			x.data.clear();
			x.rpos = 0;
			x.err = false;
			REQUIRE(c, sc_buf_cap(&x.b) == cap0, "clear changed the capacity");
			break;
		case 10: { // rewind / skip within the written region; beyond it is refused
			uint64_t p = c.chance(1, 4) ? c.u64() : c.draw(x.data.size() + 2);
			c.trace("%zu: set_rpos %llu", xi, (unsigned long long) p);
			sc_buf_set_rpos(&x.b, p);
			if (p <= x.data.size()) x.rpos = p;
			else x.err = true;
			break;
		}
		default: { // drop from the end; beyond the capacity is refused
			if (c.chance(1, 3)) {
				uint64_t p = cap0 + 1 + c.draw(3);
				c.trace("%zu: set_wpos %llu", xi, (unsigned long long) p);
				sc_buf_set_wpos(&x.b, p);
				x.err = true;
			} else if (!x.text) {
				uint64_t p = x.rpos + c.draw(x.data.size() - x.rpos + 1);
				c.trace("%zu: set_wpos %llu", xi, (unsigned long long) p);
				sc_buf_set_wpos(&x.b, p);
				x.data.resize(p);
			}
		}
		}
		check(c, x);
	}
	for (auto &x : v) {
		{
			Alloc a;
			sc_buf_term(&x.b);
		}
		REQUIRE(c, sc_buf_cap(&x.b) == 0 && sc_buf_size(&x.b) == 0, "term leaves size %llu", (unsigned long long) sc_buf_size(&x.b));
		if (x.ref)
			for (int k = 0; k < 16; k++)
				REQUIRE(c, x.mem[x.cap0 + k] == 0xc3, "borrowed memory was written past its end (offset +%d)", k);
	}
	REQUIRE(c, pbt_alloc_live == 0, "%ld allocations left after term", pbt_alloc_live);
	if (changed >= 5 && special && (!OOM || pbt_alloc_failed)) c.nontrivial();
}
