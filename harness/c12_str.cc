// C12: string operations equal their textual definitions. -DOOM_CASES: allocation failures (C10).
#include "pbt.h"
#include <algorithm>
#include <climits>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include "sc_str.h"
}
using namespace pbt;

#ifdef OOM_CASES
#define OOM 1
#else
#define OOM 0
#endif
#ifndef STR_LIMIT
#define STR_LIMIT UINT32_MAX
#endif

const HarnessInfo harness_info = {
	"histories of 1..40 operations on 1..3 strings (set, formatted set/append, append, substring, trim, replace, duplicate, compare, "
	"destroy) over small alphabets, arbitrary bytes and long texts (to 20 kB; formatted texts around 1024), including NULL strings, "
	"empty patterns, patterns made of overlapping repeats and out-of-range bounds; non-trivial: replace/trim/substring changed a text "
	"of at least 3 characters; rarely texts of 4 GB, which must be refused"
#ifdef OOM_CASES
	", and an allocation failure was injected"
#endif
};

struct S {
	char *p = nullptr;
	std::string m;
	bool null = true;
	bool nul_inside() const { return m.find('\0') != std::string::npos; }
};

static std::string gen(Case &c, size_t max)
{
	size_t n = c.size(max);
	switch (c.weighted({5, 3, 1, 1})) {
	case 0: return c.text(n, "ab");
	case 1: return c.text(n, "ab -\t.");
	case 2: {
		std::string s = c.bytes(n);
		for (auto &ch : s)
			if (!ch) ch = 'z';
		return s;
	}
	default: {
		static const size_t big[] = {1022, 1023, 1024, 1025, 2047, 3000, 20000};
		size_t k = c.draw(7);
		if (max < 16 || (k == 6 && !c.chance(1, 6))) k = 0;
		size_t len = k == 6 && c.chance(1, 3) ? (c.flip() ? 65530 + c.draw(12) : 66000 + c.draw(70000)) : big[k];
		std::string unit = c.text(1 + c.draw(4), "ab-");
		std::string s;
		while (s.size() < len) s += unit;
		s.resize(len);
		if (c.flip()) for (size_t i = 0, n = 1 + c.draw(2); i < n; i++) s[c.flip() ? len - 1 - c.draw(5) : c.draw(len)] = '@'; // a rare character in a long text
		return s;
	}
	}
}

static std::string ref_replace(const std::string &s, const std::string &pat, const std::string &with)
{
	if (pat.empty()) return s;
	std::string r;
	for (size_t i = 0; i < s.size();) {
		if (s.compare(i, pat.size(), pat) == 0) {
			r += with;
			i += pat.size();
		} else
			r += s[i++];
	}
	return r;
}

// texts longer than a string can be (one piece of memory mapped again and again): refused, nothing changes
static void gigabytes(Case &c)
{
	const size_t piece = 64ul << 20, len = (1ul << 32) - 10 + c.draw(40), room = (len / piece + 1) * piece;
	int fd = memfd_create("text", MFD_CLOEXEC);
	char *t = (char *) mmap(NULL, room + piece, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	bool ok = fd >= 0 && t != MAP_FAILED && ftruncate(fd, (off_t) piece) == 0;
	if (ok) {
		char *w = (char *) mmap(NULL, piece, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		ok = w != MAP_FAILED;
		if (ok) memset(w, 'a', piece), munmap(w, piece);
	}
	for (size_t o = 0; ok && o < room; o += piece) ok = mmap(t + o, piece, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, fd, 0) != MAP_FAILED;
	if (fd >= 0) close(fd);
	if (!ok) { c.label("no room for gigabytes"); return; }
	t[len] = 0;
	c.trace("a text of %zu bytes", len);
	pbt_alloc_cap = 1ul << 24;
	char *s, *big, *r;
	bool set, app, app0, rep, rep2;
	{
		Alloc a;
		s = sc_str_create("some text");
		big = sc_str_create(t);
		set = sc_str_set(&s, t);
		app = sc_str_append(&s, t);
		r = NULL;
		app0 = sc_str_append(&r, t);
		rep = sc_str_replace(&s, "text", t);
		rep2 = sc_str_replace(&s, "t", t + len - 0x90000000ul); // fits a length once, not twice
	}
	REQUIRE(c, !big && !set && !app && !app0 && !r && !rep && !rep2, "a text of %zu bytes is taken: create %d, set %d, append %d %d, replace %d %d", len, big != NULL, set, app, app0, rep, rep2);
	REQUIRE(c, s && !strcmp(s, "some text") && sc_str_len(s) == 9, "a refused text changes the string");
	{
		Alloc a;
		sc_str_destroy(&s);
	}
	REQUIRE(c, pbt_alloc_live == 0, "a refused text leaves %ld blocks", pbt_alloc_live);
	pbt_alloc_cap = 0;
	munmap(t, room + piece);
	c.label("gigabytes");
	c.nontrivial();
}

void run_case(Case &c)
{
	pbt_alloc_reset();
	if (STR_LIMIT == UINT32_MAX && !OOM && c.chance(1, 100000)) return gigabytes(c);
	std::vector<S> v(1 + c.draw(3));
	bool changed = false;
	bool limited = false;
	size_t steps = 1 + c.draw(40);
	auto check = [&](S &x, const char *what) {
		REQUIRE(c, (x.p == nullptr) == x.null, "%s: string is %s", what, x.p ? "not NULL" : "NULL");
		if (x.null) {
			REQUIRE(c, sc_str_len(x.p) == -1, "%s: length of NULL is %lld", what, (long long) sc_str_len(x.p));
			return;
		}
		REQUIRE(c, sc_str_len(x.p) == (int64_t) x.m.size(), "%s: length is %lld, expected %zu", what, (long long) sc_str_len(x.p), x.m.size());
		REQUIRE(c, memcmp(x.p, x.m.data(), x.m.size()) == 0 && x.p[x.m.size()] == 0, "%s: text is %s, expected %s", what,
			quote(std::string(x.p, x.m.size())).c_str(), quote(x.m).c_str());
	};
	for (size_t s = 0; s < steps; s++) {
		S &x = v[c.draw(v.size())];
		size_t xi = (size_t) (&x - v.data());
		if (OOM && c.chance(1, 5)) {
			pbt_alloc_fail_at = c.flip() ? (long) c.draw(2) : -1;
			pbt_alloc_fail_sticky = c.flip();
		}
		long f0 = pbt_alloc_failed;
		std::string want = x.m;
		bool want_null = x.null, ok = true, want_ok = true;
		const char *what = "?";
		size_t op = c.weighted({5, 4, 3, 2, 4, 5, 5, 2, 1, 2, 1});
		if ((op == 2 || op == 3 || op == 5 || op == 6) && x.nul_inside()) op = 4;
		switch (op) {
		case 0: { // create / set
			what = "set";
			std::string t = gen(c, 40);
			int how = (int) c.draw(4);
			c.trace("%zu: set %s how %d", xi, quote(t).c_str(), how);
			std::string copy = t;
			const char *arg = copy.c_str();
			if (how == 1 && !x.null && !x.nul_inside()) { // from its own text
				size_t off = c.draw(x.m.size() + 1);
				arg = x.p + off;
				t = x.m.substr(off);
			}
			if (how == 2) {
				{
					Bytes bytes(copy);
					Alloc a;
					sc_str_destroy(&x.p);
					x.p = STR_LIMIT != UINT32_MAX || c.flip() ? sc_str_create(copy.c_str()) : sc_str_create_len(bytes, (uint32_t) copy.size());
				}
				x.null = x.p == nullptr;
				REQUIRE(c, !x.null || pbt_alloc_failed > f0 || t.size() > STR_LIMIT, "create failed");
				want = x.null ? "" : t;
				want_null = x.null;
				break;
			}
			if (how == 3 && STR_LIMIT == UINT32_MAX) { // with zeros inside
				for (auto &ch : copy)
					if (ch == '-') ch = 0;
				{
					Bytes bytes(copy);
					Alloc a;
					sc_str_destroy(&x.p);
					x.p = sc_str_create_len(bytes, (uint32_t) copy.size());
				}
				x.null = x.p == nullptr;
				REQUIRE(c, !x.null || pbt_alloc_failed > f0, "create_len failed");
				want = x.null ? "" : copy;
				want_null = x.null;
				break;
			}
			{
				Alloc a;
				ok = sc_str_set(&x.p, arg);
			}
			want = t;
			want_null = false;
			break;
		}
		case 1: { // append
			what = "append";
			std::string t = gen(c, 20);
			if (x.m.size() + t.size() > 90000) break;
			const char *arg = t.c_str();
			if (!x.null && c.chance(1, 4)) { // the string itself, or its end
				size_t off = c.flip() ? 0 : c.draw(x.m.size() + 1);
				t = x.m.substr(off);
				t = t.c_str();
				if (x.m.size() + t.size() > 90000) break;
				arg = x.p + off;
				c.label("appended to itself");
			}
			c.trace("%zu: append %s%s", xi, quote(t).c_str(), arg == t.c_str() ? "" : " (itself)");
			{
				Alloc a;
				ok = sc_str_append(&x.p, arg);
			}
			want += t;
			want_null = false;
			break;
		}
		case 2: { // append_fmt
			what = "append_fmt";
			std::string t = gen(c, 20);
			long long n = (long long) c.u64();
			if (STR_LIMIT != UINT32_MAX) break;
			bool self = !x.null && c.chance(1, 4);
			c.trace("%zu: append_fmt %s %lld", xi, quote(t).c_str(), n);
			{
				Alloc a;
				ok = sc_str_append_fmt(&x.p, "<%s|%lld>", self ? x.p : t.c_str(), n);
			}
			want += "<" + (self ? std::string(x.m.c_str()) : t) + "|" + std::to_string(n) + ">";
			want_null = false;
			break;
		}
		case 3: { // set_fmt, also referring to itself
			what = "set_fmt";
			std::string t = gen(c, 20);
			int n = (int) c.u64();
			if (STR_LIMIT != UINT32_MAX) break;
			bool self = !x.null && c.flip();
			c.trace("%zu: set_fmt %s %d self=%d", xi, quote(t).c_str(), n, self);
			{
				Alloc a;
				ok = sc_str_set_fmt(&x.p, "%s%s:%x", self ? x.p : "", t.c_str(), (unsigned) n);
			}
			char b[32];
			snprintf(b, sizeof b, ":%x", (unsigned) n);
			want = (self ? x.m : "") + t + b;
			want_null = false;
			break;
		}
		case 4: { // substring
			what = "substring";
			uint64_t b = c.chance(1, 8) ? (c.u64() & UINT32_MAX) : c.draw(x.m.size() + 2);
			uint64_t e = c.chance(1, 8) ? (c.u64() & UINT32_MAX) : b + c.draw(x.m.size() + 2 > b ? x.m.size() + 2 - b : 1);
			if (c.chance(1, 8)) std::swap(b, e);
			e &= UINT32_MAX;
			c.trace("%zu: substring %llu %llu", xi, (unsigned long long) b, (unsigned long long) e);
			{
				Alloc a;
				ok = sc_str_substring(&x.p, (uint32_t) b, (uint32_t) e);
			}
			want_ok = !x.null && b <= e && e <= x.m.size();
			if (want_ok) {
				want = x.m.substr(b, e - b);
				if (x.m.size() >= 3 && want != x.m) changed = true;
			}
			break;
		}
		case 5: { // trim
			what = "trim";
			std::string list = c.text(c.size(4), "ab -\t.\xff");
			if (c.chance(1, 20)) { // many characters of any kind
				std::string l2 = c.bytes(c.size(c.chance(1, 10) ? 600 : 40));
				for (auto &ch : l2)
					if (!ch) ch = '~';
				list = l2 + list;
			}
			const char *larg = nullptr;
			if (!x.null && c.chance(1, 10)) { // the string's own end as the list
				size_t off = x.m.size() - c.draw(std::min<size_t>(x.m.size(), 3) + 1);
				list = std::string(x.m.c_str() + off);
				larg = x.p + off;
				c.label("list within the string");
			}
			c.trace("%zu: trim %s of %s", xi, quote(list).c_str(), quote(x.m).c_str());
			{
				Alloc a;
				ok = sc_str_trim(&x.p, larg ? larg : list.c_str());
			}
			if (!x.null) {
				size_t b = 0, e = want.size();
				while (b < e && list.find(want[b]) != std::string::npos) b++;
				while (e > b && list.find(want[e - 1]) != std::string::npos) e--;
				want = want.substr(b, e - b);
				if (x.m.size() >= 3 && want != x.m) changed = true, c.label("trimmed");
			}
			break;
		}
		case 6: { // replace
			what = "replace";
			std::string pat, with;
			if (!x.m.empty() && c.flip()) {
				size_t b = c.draw(x.m.size()), rare = x.m.find('@');
				if (rare != std::string::npos && c.flip()) b = rare - c.draw(std::min<size_t>(rare, 3) + 1);
				pat = x.m.substr(b, 1 + c.draw(std::min<size_t>(4, x.m.size() - b)));
			} else
				pat = c.chance(1, 12) ? "" : gen(c, 3);
			with = c.chance(1, 3) ? pat + c.text(c.size(2), "ab") : c.chance(1, 3) ? std::string(pat.size(), 'b') : gen(c, 4);
			if (with.size() > 100 && pat.size() < 10) with.resize(with.size() % 100);
			const char *parg = nullptr, *warg = nullptr; // parts of the string itself
			if (!x.null && !x.m.empty() && c.chance(1, 4)) {
				int which = (int) c.draw(3);
				if (which != 1) {
					size_t off = x.m.size() - c.draw(std::min<size_t>(x.m.size(), 5) + 1);
					pat = x.m.c_str() + off;
					parg = x.p + off;
				}
				if (which != 0) {
					size_t n = std::min(x.m.size(), c.flip() ? pat.size() : (size_t) c.draw(6)), off = x.m.size() - n;
					with = x.m.c_str() + off;
					warg = x.p + off;
				}
				c.label("parts of the string itself");
			}
			c.trace("%zu: replace %s with %s in %s", xi, quote(pat).c_str(), quote(with).c_str(), quote(x.m).c_str());
			std::string p2 = pat, w2 = with;
			// (ASan makes every strstr() linear in the text: keep the product bounded)
			std::string res = ref_replace(x.m, pat, with);
			if (!pat.empty()) {
				size_t hits = 0;
				for (size_t at = 0; (at = x.m.find(pat, at)) != std::string::npos; at += pat.size()) hits++;
				if (res.size() > 200000 || hits * x.m.size() > 3000000) break;
			}
			{
				Alloc a;
				ok = sc_str_replace(&x.p, parg ? parg : p2.c_str(), warg ? warg : w2.c_str());
			}
			if (!x.null) {
				want = ref_replace(x.m, pat, with);
				if (x.m.size() >= 3 && want != x.m) changed = true, c.label(with.size() == pat.size() ? "replaced in place" : "replaced");
			}
			break;
		}
		case 7: { // dup / cmp
			what = "dup/cmp";
			S &y = v[c.draw(v.size())];
			if (&x == &y) break;
			c.trace("%zu: dup of %zu", xi, (size_t) (&y - v.data()));
			char *d;
			{
				Alloc a;
				d = sc_str_dup(y.p);
			}
			if (y.null) {
				REQUIRE(c, d == nullptr, "dup of NULL is not NULL");
				break;
			}
			if (!d) {
				REQUIRE(c, pbt_alloc_failed > f0, "dup failed");
				break;
			}
			REQUIRE(c, d != y.p, "dup returned the same pointer");
			REQUIRE(c, sc_str_cmp(d, y.p) && sc_str_cmp(y.p, d), "a duplicate compares different");
			if (!y.m.empty()) { // one flipped byte must compare different
				size_t at = c.draw(y.m.size());
				d[at] ^= (char) (1 + c.draw(255));
				REQUIRE(c, !sc_str_cmp(d, y.p), "texts differing at byte %zu of %zu compare equal", at, y.m.size());
				d[at] = y.p[at];
			}
			{
				Alloc a;
				sc_str_destroy(&x.p);
			}
			x.p = d;
			want = y.m;
			want_null = x.null = false;
			break;
		}
		case 8:
			what = "destroy";
			c.trace("%zu: destroy", xi);
			{
				Alloc a;
				sc_str_destroy(&x.p);
				sc_str_destroy(nullptr);
			}
			x.null = true;
			want_null = true;
			want.clear();
			break;
		case 9: { // compare
			what = "cmp";
			S &y = v[c.draw(v.size())];
			if (x.null || y.null) break;
			bool eq = sc_str_cmp(x.p, y.p);
			REQUIRE(c, eq == (x.m == y.m), "comparing %s and %s gives %d", quote(x.m).c_str(), quote(y.m).c_str(), eq);
			break;
		}
		default: // NULL inputs
			what = "NULL input";
			REQUIRE(c, sc_str_create(nullptr) == nullptr && sc_str_create_len(nullptr, 5) == nullptr && sc_str_dup(nullptr) == nullptr,
				"creating from NULL gives a string");
			{
				Alloc a;
				ok = sc_str_set(&x.p, nullptr);
			}
			REQUIRE(c, !ok, "set to NULL succeeded");
			ok = true;
		}
		if (!ok && want_ok) {
			bool over = want.size() > STR_LIMIT;
			REQUIRE(c, pbt_alloc_failed > f0 || over, "%s failed although memory was available", what);
			c.label(over ? "over the limit" : "oom");
			limited |= over;
		}
		if (ok && op < 7) REQUIRE(c, want_ok, "%s succeeded although it must be refused", what);
		if (ok && (op == 0 || op == 1 || op == 6) && STR_LIMIT != UINT32_MAX && want != x.m)
			REQUIRE(c, want.size() <= STR_LIMIT, "%s made a string of %zu, limit %zu", what, want.size(), (size_t) STR_LIMIT);
		if (ok && want_ok) {
			x.m = want;
			x.null = want_null;
		}
		check(x, what);
	}
	for (auto &x : v) {
		Alloc a;
		sc_str_destroy(&x.p);
		REQUIRE(c, x.p == nullptr, "destroy leaves the pointer");
	}
	REQUIRE(c, pbt_alloc_live == 0, "%ld allocations left", pbt_alloc_live);
	if (changed && (!OOM || pbt_alloc_failed || limited)) c.nontrivial();
}
