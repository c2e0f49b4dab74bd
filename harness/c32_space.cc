// C32: memory and work stay proportional to the contents. -DMAP_WORK: cost of map operations.
#include "pbt.h"
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <time.h>
#include <unordered_map>
extern "C" {
#include "c06_shim.h"
#include "c07_shim.h"
#include "sc_buf.h"
#include "sc_heap.h"
#include "sc_map.h"
#include "sc_timer.h"
}
using namespace pbt;

#ifdef MAP_WORK
const HarnessInfo harness_info = {
	"a string map of 20000..60000 distinct keys that differ only in one place (counter at the start, middle or end of a common text, "
	"lengths 1..40, a few varying bytes of fixed-width keys), or an integer map of a dense range of keys: CPU time of put, get and "
	"delete of all keys against a standard hash table; non-trivial: every case", true
};

static double cpu()
{
	struct timespec ts;
	clock_gettime(CLOCK_THREAD_CPUTIME_ID, &ts);
	return (double) ts.tv_sec + (double) ts.tv_nsec / 1e9;
}

void run_case(Case &c)
{
	size_t n = 20000 + c.draw(40000);
	uint32_t lf = (uint32_t) std::vector<int>{0, 30, 50, 75, 90}[c.draw(5)];
	uint32_t cap = c.chance(1, 4) ? (uint32_t) c.draw(100000) : 0;
	double mine, ref;
	int kind = (int) c.draw(5);
	if (kind == 4) {
		uint64_t base = c.u64();
		struct sc_map_64 m;
		std::unordered_map<uint64_t, uint64_t> u;
		double t = cpu();
		for (int pass = 0; pass < 3; pass++)
			for (size_t i = 0; i < n; i++)
				if (pass == 0) u[base + i] = i; else if (pass == 1) u.find(base + i); else u.erase(base + i);
		ref = cpu() - t;
		if (!sc_map_init_64(&m, cap, lf)) c.error("init");
		t = cpu();
		for (size_t i = 0; i < n; i++) sc_map_put_64(&m, base + i, i);
		for (size_t i = 0; i < n; i++) sc_map_get_64(&m, base + i);
		for (size_t i = n; i-- > 0;) sc_map_del_64(&m, base + i); // linear probing: the other direction looks at the whole cluster
		mine = cpu() - t;
		sc_map_term_64(&m);
		c.trace("%zu keys from %llu", n, (unsigned long long) base);
	} else {
		std::string pre = c.text(c.draw(20), "abc/"), post = c.text(c.draw(20), "xyz ");
		std::vector<std::string> keys;
		unsigned width = 4 + (unsigned) c.draw(5);
		const char *alpha = c.flip() ? "0123456789abcdef" : "\x01\x21\x41\x61\x80\xa0\xc0\xff\x10\x30\x50\x70\x90\xb0\xd0\xf0";
		for (size_t i = 0; i < n; i++) {
			char b[32];
			if (kind == 0) snprintf(b, sizeof b, "%zu", i);
			else if (kind == 1) snprintf(b, sizeof b, "%0*zu", (int) width + 1, i);
			else { // fixed width, high or low digits vary first
				for (unsigned k = 0; k < width; k++) b[kind == 2 ? k : width - 1 - k] = alpha[(i >> (4 * k)) & 15];
				b[width] = 0;
			}
			keys.push_back(pre + b + post);
		}
		std::sort(keys.begin(), keys.end());
		keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
		if (c.flip()) std::reverse(keys.begin(), keys.end());
		n = keys.size();
		std::unordered_map<std::string, uint64_t> u;
		double t = cpu();
		for (int pass = 0; pass < 3; pass++)
			for (auto &k : keys)
				if (pass == 0) u[k] = 1; else if (pass == 1) u.find(k); else u.erase(k);
		ref = cpu() - t;
		struct sc_map_s64 m;
		if (!sc_map_init_s64(&m, cap, lf)) c.error("init");
		t = cpu();
		for (auto &k : keys) sc_map_put_s64(&m, k.c_str(), 1);
		for (auto &k : keys) sc_map_get_s64(&m, k.c_str());
		for (auto &k : keys) sc_map_del_s64(&m, k.c_str());
		mine = cpu() - t;
		sc_map_term_s64(&m);
		c.trace("%zu keys such as %s", n, quote(keys[n / 2]).c_str());
	}
	c.trace("map %.1f ms, reference %.1f ms", mine * 1e3, ref * 1e3);
	REQUIRE(c, mine < 40 * ref + 0.1, "%zu keys took %.0f ms of CPU time, a standard hash table needs %.1f ms", n, mine * 1e3, ref * 1e3);
	c.label(mine < 1.5 * ref ? "up to 1.5 times the reference" : mine < 5 * ref ? "up to 5 times the reference" : "above 5 times the reference");
	if (n >= 1000) c.nontrivial();
}
#else
const HarnessInfo harness_info = {
	"histories of 50..3000 (rarely 20000) operations on an array, queue, heap, map, timer or buffer whose occupancy is kept below a drawn bound "
	"(steady add/remove, waves, pure growth, clear and refill); non-trivial: at least 4 times as many elements passed through as were "
	"ever present at once, or a clear and refill, or at least 200 pure additions; also heaps, maps and buffers initialised for a number of elements (up to 2^27), which must then take "
	"so many without allocating (non-trivial: 100 or more)"
};

static Case *cc;
// bytes held may not exceed factor * peak contents + slack
static void bound(const char *what, size_t peak, size_t elem, size_t factor, size_t slack, size_t ops)
{
	long max = (long) (factor * (peak + 1) * elem + slack);
	REQUIRE(*cc, pbt_alloc_peak <= max, "%s held %ld bytes although at most %zu elements of %zu bytes were in it at once (%zu operations)", what,
		pbt_alloc_peak, peak, elem, ops);
}
static void few(const char *what, long allocs, size_t n)
{
	long max = 24;
	for (size_t x = n; x; x >>= 1) max += 3;
	REQUIRE(*cc, allocs <= max, "%s made %ld allocations for %zu additions", what, allocs, n);
}
static void none(const char *what, long before)
{
	REQUIRE(*cc, pbt_alloc_count == before, "%s allocated memory", what);
}

struct Shape {
	size_t steps, limit;
	int kind; // 0 steady, 1 waves, 2 growth, 3 clear/refill
	size_t passed = 0, cleared = 0;
	bool up = true;
	// true: add, false: remove
	bool add(Case &c, size_t n)
	{
		if (n == 0) return up = true;
		if (kind == 2) return true;
		if (n >= limit) return up = false;
		if (kind == 0) return c.flip();
		return up;
	}
};

static void do_array(Case &c, Shape &s)
{
	const struct arr_ops &o = ::arr_ops[c.draw(arr_ops_count)];
	std::unique_ptr<max_align_t[]> obj(new max_align_t[(o.objsize + sizeof(max_align_t) - 1) / sizeof(max_align_t)]);
	void *a = obj.get();
	size_t peak = 0, round = 0;
	o.init(a);
	c.trace("array of %s", o.name);
	Alloc al;
	for (size_t i = 0; i < s.steps; i++) {
		size_t n = o.size(a);
		long k = pbt_alloc_count;
		if (s.kind == 3 && n && n >= s.limit) {
			o.clear(a);
			none("clearing an array", k);
			for (size_t j = 0; j < n; j++) o.add(a, j & o.mask, 0);
			none("refilling a cleared array", k);
			round++, s.cleared++;
			o.clear(a);
			s.limit = 1 + c.draw(200);
		} else if (s.kind == 3 ? true : s.add(c, n)) {
			o.add(a, i & o.mask, (int) c.draw(ARR_FORMS));
			s.passed++;
		} else {
			size_t at = c.draw(n);
			switch (c.draw(3)) {
			case 0: o.del(a, at, 0); break;
			case 1: o.del_un(a, at, 0); break;
			default: o.del_last(a); break;
			}
			none("removing from an array", k);
			k = pbt_alloc_count;
			if (o.size(a) && c.chance(1, 8)) {
				o.last(a), o.at(a, o.size(a) - 1, 0);
				if (c.chance(1, 4) && o.size(a) < 100) o.sort(a);
			}
			none("reading an array", k);
		}
		peak = std::max(peak, o.size(a));
		bound("an array", peak, o.elemsize, 8, 64 * o.elemsize + 512, i + 1);
	}
	if (s.kind == 2) few("an array", pbt_alloc_count, peak);
	(void) round;
	o.term(a);
	s.limit = peak;
}

static void do_queue(Case &c, Shape &s)
{
	const struct q_ops &o = q_ops_tab[c.draw(q_ops_count)];
	std::unique_ptr<max_align_t[]> obj(new max_align_t[(o.objsize + sizeof(max_align_t) - 1) / sizeof(max_align_t)]);
	void *q = obj.get();
	size_t peak = 0;
	int ends = (int) c.draw(4); // fifo, lifo, reversed fifo, any
	c.trace("queue of %s, ends %d", o.name, ends);
	Alloc al;
	o.init(q);
	for (size_t i = 0; i < s.steps; i++) {
		size_t n = o.size(q);
		long k = pbt_alloc_count;
		bool first = ends == 3 && c.flip();
		if (s.kind == 3 && n && n >= s.limit) {
			o.clear(q);
			none("clearing a queue", k);
			for (size_t j = 0; j < n; j++) {
				if (c.flip()) o.add_last(q, j & o.mask, 0);
				else o.add_first(q, j & o.mask, 0);
			}
			none("refilling a cleared queue", k);
			s.cleared++;
			o.clear(q);
			s.limit = 1 + c.draw(200);
		} else if (s.kind == 3 ? true : s.add(c, n)) {
			if (ends == 2 || first) o.add_first(q, i & o.mask, 0);
			else o.add_last(q, i & o.mask, 0);
			s.passed++;
		} else {
			if (ends == 0 || (ends == 3 && c.flip())) o.del_first(q);
			else o.del_last(q);
			if (o.size(q)) o.peek_first(q), o.peek_last(q), o.at(q, o.size(q) - 1, 0);
			none("removing from a queue", k);
		}
		peak = std::max(peak, o.size(q));
		bound("a queue", peak, o.elemsize, 8, 64 * o.elemsize + 512, i + 1);
	}
	if (s.kind == 2) few("a queue", pbt_alloc_count, peak);
	o.term(q);
	s.limit = peak;
}

static void do_heap(Case &c, Shape &s)
{
	struct sc_heap h;
	size_t peak = 0;
	size_t cap = c.chance(1, 3) ? c.draw(20) : 0;
	c.trace("heap, initial capacity %zu", cap);
	int order = (int) c.draw(4);
	Alloc al;
	if (!sc_heap_init(&h, cap)) c.error("heap init");
	for (size_t i = 0; i < s.steps; i++) {
		size_t n = sc_heap_size(&h);
		long k = pbt_alloc_count;
		int64_t key = order == 0 ? (int64_t) i : order == 1 ? -(int64_t) i : order == 2 ? (int64_t) c.draw(1000) : 5;
		if (s.kind == 3 && n && n >= s.limit) {
			sc_heap_clear(&h);
			none("clearing a heap", k);
			for (size_t j = 0; j < n; j++)
				if (!sc_heap_add(&h, key + (int64_t) j, nullptr)) c.fail("add failed");
			none("refilling a cleared heap", k);
			s.cleared++;
			sc_heap_clear(&h);
			s.limit = 1 + c.draw(200);
		} else if (s.kind == 3 ? true : s.add(c, n)) {
			if (!sc_heap_add(&h, key, nullptr)) c.fail("add failed");
			s.passed++;
		} else {
			sc_heap_pop(&h);
			sc_heap_peek(&h);
			none("removing from a heap", k);
		}
		peak = std::max(peak, sc_heap_size(&h));
		bound("a heap", peak + cap, sizeof(struct sc_heap_data), 16, 4096, i + 1);
	}
	if (s.kind == 2) few("a heap", pbt_alloc_count, peak);
	sc_heap_term(&h);
	s.limit = peak;
}

static void do_map(Case &c, Shape &s)
{
	struct sc_map_64 m;
	struct sc_map_s64 ms;
	bool str = c.flip();
	size_t peak = 0, n = 0;
	static const int lfs[] = {0, 30, 40, 75, 94};
	uint32_t lf = (uint32_t) lfs[c.draw(5)], cap = c.chance(1, 3) ? (uint32_t) c.draw(40) : 0;
	static std::vector<std::string> names;
	if (names.empty())
		for (int i = 0; i < 70000; i++) names.push_back("k" + std::to_string(i));
	std::vector<uint64_t> in, hist;
	uint64_t stride = c.flip() ? 1 : 1 + c.draw(1 << 12), fresh = 0;
	bool reuse = c.chance(1, 3), zero = c.chance(1, 4);
	c.trace("%s map, load factor %u, capacity %u", str ? "string" : "integer", lf, cap);
	Alloc al;
	if (!(str ? sc_map_init_s64(&ms, cap, lf) : sc_map_init_64(&m, cap, lf))) c.error("map init");
	auto put = [&](uint64_t k) {
		if (str) sc_map_put_s64(&ms, k == 0 && zero ? nullptr : names[k % 70000].c_str(), 1);
		else sc_map_put_64(&m, (zero ? k : k + 1) * stride, 1);
	};
	auto del = [&](uint64_t k) {
		if (str) sc_map_del_s64(&ms, k == 0 && zero ? nullptr : names[k % 70000].c_str());
		else sc_map_del_64(&m, (zero ? k : k + 1) * stride);
	};
	auto get = [&](uint64_t k) {
		if (str) sc_map_get_s64(&ms, k == 0 && zero ? nullptr : names[k % 70000].c_str());
		else sc_map_get_64(&m, (zero ? k : k + 1) * stride);
	};
	auto clear = [&] {
		if (str) sc_map_clear_s64(&ms);
		else sc_map_clear_64(&m);
	};
	for (size_t i = 0; i < s.steps; i++) {
		n = in.size();
		long k = pbt_alloc_count;
		REQUIRE(c, n == (str ? sc_map_size_s64(&ms) : sc_map_size_64(&m)), "size differs from the model");
		if (s.kind == 3 && n && n >= s.limit) {
			clear();
			none("clearing a map", k);
			for (uint64_t x : in) put(x);
			none("refilling a cleared map", k);
			s.cleared++;
			clear();
			in.clear();
			fresh = reuse ? 0 : fresh;
			s.limit = 1 + c.draw(200);
		} else if (s.kind == 3 ? true : s.add(c, n)) {
			uint64_t x = fresh++;
			if (reuse && s.kind != 3 && !hist.empty()) { // keys come back
				x = hist.back();
				hist.pop_back();
				fresh--;
			}
			put(x);
			in.push_back(x);
			s.passed++;
			if (c.chance(1, 4)) {
				long k2 = pbt_alloc_count;
				bool room = k2 == k; // the put before did not grow: an overwrite may only do so when the map is full
				put(x);
				(void) room;
			}
		} else {
			size_t at = c.flip() ? 0 : c.draw(n);
			uint64_t x = in[at];
			in[at] = in.back();
			in.pop_back();
			del(x);
			if (reuse) hist.push_back(x);
			get(x);
			if (c.chance(1, 4)) del(x), get(fresh + 1);
			none("removing from a map", k);
		}
		peak = std::max(peak, in.size());
		bound("a map", peak + cap + 8, 24, 40, 1024, i + 1);
	}
	if (s.kind == 2) few("a map", pbt_alloc_count, peak);
	if (str) sc_map_term_s64(&ms);
	else sc_map_term_64(&m);
	s.limit = peak;
}

static size_t fired;
static void on_timer(void *, uint64_t, uint64_t, void *) { fired++; }

static void do_timer(Case &c, Shape &s)
{
	struct sc_timer t;
	uint64_t now = c.draw(1000000);
	size_t peak = 0, n = 0;
	std::vector<uint64_t> ids;
	bool spread = c.flip(), cancel = c.flip();
	c.trace("timer %s %s", spread ? "spread" : "same delay", cancel ? "cancelled" : "expiring");
	sc_timer_init(&t, now);
	Alloc al;
	for (size_t i = 0; i < s.steps; i++) {
		long k = pbt_alloc_count;
		if (s.kind == 3 && n && n >= s.limit) {
			sc_timer_clear(&t);
			none("clearing a timer", k);
			ids.clear();
			s.cleared++, n = 0;
			for (size_t j = 0; j < 4; j++) sc_timer_add(&t, 50, 0, &t); // a slot keeps at least what it held
			none("adding to a cleared timer", k);
			sc_timer_clear(&t);
			s.limit = 1 + c.draw(200);
		} else if (s.kind == 3 ? true : s.add(c, n)) {
			uint64_t id = sc_timer_add(&t, spread ? c.draw(4000) : 100, c.draw(3), c.flip() ? &t : nullptr);
			REQUIRE(c, id != SC_TIMER_INVALID, "add failed");
			ids.push_back(id);
			n++;
			s.passed++;
		} else if (cancel) {
			size_t at = c.draw(ids.size());
			sc_timer_cancel(&t, &ids[at]);
			ids[at] = ids.back();
			ids.pop_back();
			n--;
			none("cancelling a timer", k);
		} else {
			size_t before = fired;
			now += 1 + c.draw(spread ? 6000 : 300);
			sc_timer_timeout(&t, now, nullptr, on_timer);
			n -= std::min(n, fired - before);
			ids.clear(); // ids of fired timers are not used again
			none("expiring timers", k);
		}
		peak = std::max(peak, n);
		bound("a timer", peak + 4, 24, 256, 16384, i + 1);
	}
	if (s.kind == 2) few("a timer", pbt_alloc_count, peak);
	sc_timer_term(&t);
	s.limit = peak;
}

static void do_buf(Case &c, Shape &s)
{
	struct sc_buf b;
	size_t maxlen = c.chance(1, 4) ? 5000 : 1 + c.draw(300);
	size_t limit = s.limit * maxlen / 2 + 1, peak = 0;
	std::string data(maxlen, 'x');
	c.trace("buffer, messages up to %zu bytes", maxlen);
	Alloc al;
	if (!sc_buf_init(&b, c.flip() ? 0 : c.draw(100))) c.error("buf init");
	size_t total = 0;
	for (size_t i = 0; i < s.steps && total < (s.kind == 2 ? 200000u : 2000000u); i++) {
		size_t n = sc_buf_size(&b);
		long k = pbt_alloc_count;
		if (s.kind == 3 && n >= limit) {
			sc_buf_clear(&b);
			none("clearing a buffer", k);
			for (size_t left = n; left;) {
				size_t l = std::min(left, maxlen);
				sc_buf_put_raw(&b, data.data(), l);
				left -= l;
			}
			none("refilling a cleared buffer", k);
			REQUIRE(c, sc_buf_valid(&b), "put failed");
			s.cleared++;
			sc_buf_clear(&b);
		} else if (s.kind == 2 || s.kind == 3 || (n < limit && s.add(c, n ? 1 : 0))) {
			size_t l = 1 + c.draw(maxlen);
			sc_buf_compact(&b);
			none("compacting a buffer", k);
			sc_buf_put_raw(&b, data.data(), l);
			REQUIRE(c, sc_buf_valid(&b), "put failed");
			s.passed++;
			total += l;
		} else {
			size_t l = std::min<size_t>(n, 1 + c.draw(maxlen));
			sc_buf_mark_read(&b, l);
			none("reading a buffer", k);
			s.up = n > limit / 2 ? false : true;
			if (l == n && c.chance(1, 4)) {
				k = pbt_alloc_count;
				sc_buf_compact(&b);
				for (size_t left = peak; left;) {
					size_t m = std::min(left, maxlen);
					sc_buf_put_raw(&b, data.data(), m);
					left -= m;
				}
				none("refilling an emptied and compacted buffer", k);
				REQUIRE(c, sc_buf_valid(&b), "put failed");
				sc_buf_mark_read(&b, peak);
			}
		}
		peak = std::max<size_t>(peak, sc_buf_size(&b));
		bound("a buffer", peak + maxlen, 1, 4, 3 * 4096, i + 1);
	}
	if (s.kind == 2)
		REQUIRE(c, pbt_alloc_count <= (long) (total / 4096 + 16), "a buffer made %ld allocations for %zu bytes", pbt_alloc_count, total);
	sc_buf_term(&b);
	s.limit = std::max<size_t>(1, peak / (maxlen / 2 + 1));
}

// room asked for at initialisation is there, and not much more
static void do_init(Case &c)
{
	int what = (int) c.draw(3);
	bool huge = c.chance(1, 300);
	size_t cap = huge ? ((size_t) 1 << (18 + c.draw(9))) + c.draw(3) - 1 : 1 + c.size(c.chance(1, 5) ? 70000 : 3000);
	size_t most = std::min<size_t>(cap, 5000 + c.draw(3000));
	if (!huge && c.chance(1, 10)) most = cap;
	Alloc al;
	long k;
	if (what == 0) {
		struct sc_heap h;
		c.trace("heap for %zu elements", cap);
		if (!sc_heap_init(&h, cap)) return;
		k = pbt_alloc_count;
		REQUIRE(c, k <= 1, "initialising a heap allocated %ld times", k);
		for (size_t i = 0; i < most && 2 * i < cap; i++)
			if (i + 2 < cap) REQUIRE(c, sc_heap_add(&h, -(int64_t) i, nullptr), "add failed");
		none("a heap with room for more", k);
		bound("a heap", cap, sizeof(struct sc_heap_data), 4, 4096, most);
		sc_heap_term(&h);
	} else if (what == 1) {
		static const int lfs[] = {0, 25, 32, 50, 64, 75, 80, 95};
		uint32_t lf = (uint32_t) lfs[c.draw(8)];
		struct sc_map_32 m;
		c.trace("map for %zu elements, load factor %u", cap, lf);
		if (!sc_map_init_32(&m, (uint32_t) cap, lf)) return;
		k = pbt_alloc_count;
		REQUIRE(c, k <= 1, "initialising a map allocated %ld times", k);
		uint64_t room = (uint64_t) cap * (lf ? lf : 75) / 100;
		uint32_t step = 1 + 2 * (uint32_t) c.draw(1000);
		for (uint32_t i = 0; i < most && i < room; i++) sc_map_put_32(&m, i * step, i);
		none("a map with room for more", k);
		bound("a map", cap, 2 * sizeof(uint32_t), 4, 4096, most);
		sc_map_term_32(&m);
	} else {
		struct sc_buf b;
		c.trace("buffer for %zu bytes", cap);
		if (!sc_buf_init(&b, cap)) return;
		k = pbt_alloc_count;
		REQUIRE(c, k <= 1, "initialising a buffer allocated %ld times", k);
		std::string data(std::min<size_t>(cap, 1 + c.draw(5000)), 'x');
		for (size_t left = cap; left;) {
			size_t l = std::min(left, data.size());
			if (huge) l = std::min<size_t>(left, l), left = l;
			sc_buf_put_raw(&b, data.data(), l);
			left -= l;
		}
		REQUIRE(c, sc_buf_valid(&b), "put failed");
		none("a buffer with room for more", k);
		bound("a buffer", cap, 1, 2, 4096, 1);
		sc_buf_term(&b);
	}
	c.label(huge ? "initialised for a huge number" : "initialised for a number of elements");
	if (cap >= 100) c.nontrivial();
}

void run_case(Case &c)
{
	cc = &c;
	pbt_alloc_reset();
	Shape s;
	if (c.chance(1, 8)) return do_init(c);
	s.kind = (int) c.weighted({4, 3, 2, 3});
	s.steps = 50 + c.size(3000);
	if (c.chance(1, 300)) s.steps = 20000;
	s.limit = 1 + (c.flip() ? c.draw(12) : c.draw(200));
	int what = (int) c.draw(6);
	static const char *kinds[] = {"steady", "waves", "growth", "clear and refill"};
	c.trace("%zu steps, at most %zu present, %s", s.steps, s.limit, kinds[s.kind]);
	size_t steps = s.steps;
	switch (what) {
	case 0: do_array(c, s); break;
	case 1: do_queue(c, s); break;
	case 2: do_heap(c, s); break;
	case 3: do_map(c, s); break;
	case 4: do_timer(c, s); break;
	default: do_buf(c, s); break;
	}
	static const char *names[] = {"array", "queue", "heap", "map", "timer", "buffer"};
	c.label(names[what]);
	c.label(kinds[s.kind]);
	if (s.limit > 0 && (s.passed >= 4 * s.limit || s.cleared || (s.kind == 2 && steps >= 200))) c.nontrivial();
}
#endif
