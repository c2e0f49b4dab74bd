// C08: a heap always hands out the smallest remaining key. -DOOM_CASES: allocation failures (C10).
#include "pbt.h"
#include <algorithm>
#include <climits>
#include <set>
extern "C" {
#include "sc_heap.h"
}
using namespace pbt;

#ifdef OOM_CASES
#define OOM 1
#else
#define OOM 0
#endif

const HarnessInfo harness_info = {
	"histories of 1..400 adds (few distinct, any 64-bit, boundary or negated keys), pops, peeks, clears and re-inits with any start "
	"capacity; non-trivial: at least 7 elements were present at once, with duplicates or three pops in between"
#ifdef OOM_CASES
	", and an allocation failure was injected"
#endif
};

void run_case(Case &c)
{
	pbt_alloc_reset();
	struct sc_heap h;
	memset(&h, 0xd7, sizeof h);
	std::multiset<std::pair<int64_t, uintptr_t>> m;
	uintptr_t serial = 0;
	bool live = false, limited = false;
	auto init = [&](bool may_fail) {
		size_t cap;
		switch (c.weighted({3, 4, 2, 1})) {
		case 0: cap = 0; break;
		case 1: cap = c.draw(12); break;
		case 2: cap = c.draw(200); break;
		default: cap = may_fail ? (size_t) (c.u64() | 1ull << 59) : 4; break;
		}
		bool huge = cap > (1u << 20);
		if (OOM && may_fail && c.chance(1, 8)) pbt_alloc_fail_at = 0;
		if (huge) pbt_alloc_cap = 1ul << 32;
		long f0 = pbt_alloc_failed;
		bool ok;
		{
			Alloc al;
			ok = sc_heap_init(&h, cap);
		}
		pbt_alloc_cap = 0;
		c.trace("init(%zu) = %d", cap, ok);
#ifdef SC_HEAP_MAX
		if (cap > SC_HEAP_MAX) huge = true;
#endif
		if (huge) REQUIRE(c, !ok, "init(%zu) succeeded", cap);
		else REQUIRE(c, ok == (pbt_alloc_failed == f0), "init(%zu) returned %d", cap, ok);
		pbt_alloc_fail_at = -1;
		return ok;
	};
	live = init(true);
	while (!live) live = init(false);
	int keymode = (int) c.draw(4);
	size_t steps = c.chance(1, 8) ? 100 + c.draw(300) : 1 + c.draw(60);
	size_t maxn = 0, pops = 0, dups = 0;
	unsigned addw = c.flip() ? 8 : 5;
	for (size_t s = 0; s < steps; s++) {
		if (OOM && c.chance(1, 10)) {
			pbt_alloc_fail_at = c.flip() ? (long) c.draw(2) : -1;
			pbt_alloc_fail_sticky = c.flip();
		}
		auto check_top = [&](struct sc_heap_data *d, const char *what) {
			if (m.empty()) {
				REQUIRE(c, d == nullptr, "%s on an empty heap returned something", what);
				return;
			}
			REQUIRE(c, d != nullptr, "%s on a heap of %zu returned NULL", what, m.size());
			REQUIRE(c, d->key == m.begin()->first, "%s returned key %lld, smallest is %lld (of %zu)", what, (long long) d->key,
				(long long) m.begin()->first, m.size());
			if (m.find({d->key, (uintptr_t) d->data}) != m.end()) return;
			c.fail("%s returned data %lu which was not added with key %lld", what, (unsigned long) (uintptr_t) d->data, (long long) d->key);
		};
		switch (c.weighted({addw, 4, 1, 1, 1})) {
		case 0: {
			int64_t k;
			switch (keymode) {
			case 0: k = (int64_t) c.draw(6) - 3; break;
			case 1: k = (int64_t) c.u64(); break;
			case 2: k = (int64_t) (-(uint64_t) serial); break;
			default: k = (int64_t) serial; break;
			}
			if (c.chance(1, 30)) k = c.flip() ? INT64_MIN : INT64_MAX;
			size_t reps = c.chance(1, 20) ? 1 + c.draw(c.chance(1, OOM ? 500 : 3000) ? (OOM && !c.chance(1, 8) ? 5000 : 70000) : 30) : 1;
			if (OOM && reps > 100) { // many growths, one of which may fail
				pbt_alloc_fail_at = c.chance(1, 3) ? -1 : (long) c.draw(14);
				pbt_alloc_fail_sticky = c.flip();
			}
			uint64_t spread = c.flip() ? c.u64() : 0;
			while (reps--) {
				k = (int64_t) ((uint64_t) k * (spread | 1) + spread);
				uintptr_t d = c.chance(1, 20) ? 0 : ++serial;
				long f0 = pbt_alloc_failed;
				bool ok;
				c.trace("add %lld data %lu", (long long) k, (unsigned long) d);
				{
					Alloc al;
					ok = sc_heap_add(&h, k, (void *) d);
				}
#ifdef SC_HEAP_MAX
				if (!ok && 2 * (m.size() + 1) >= SC_HEAP_MAX) c.label("limit reached"), limited = true;
				else
#endif
				REQUIRE(c, ok == (pbt_alloc_failed == f0), "add returned %d (allocation %s)", ok, pbt_alloc_failed > f0 ? "failed" : "did not fail");
				if (ok) {
					auto at = m.emplace(k, d);
					if ((at != m.begin() && std::prev(at)->first == k) || (std::next(at) != m.end() && std::next(at)->first == k)) dups++;
				} else
					c.label("oom");
			}
			break;
		}
		case 1: {
			size_t reps = c.chance(1, 10) ? 1 + c.draw(30) : 1;
			while (reps--) {
				c.trace("pop");
				struct sc_heap_data *d = sc_heap_pop(&h);
				check_top(d, "pop");
				if (d) {
					m.erase(m.find({d->key, (uintptr_t) d->data}));
					pops++;
				}
			}
			break;
		}
		case 2: check_top(sc_heap_peek(&h), "peek"); break;
		case 3:
			if (!c.chance(1, 4)) break;
			c.trace("clear");
			sc_heap_clear(&h);
			m.clear();
			break;
		default:
			if (!c.chance(1, 4)) break;
			c.trace("term");
			{
				Alloc al;
				sc_heap_term(&h);
			}
			REQUIRE(c, sc_heap_size(&h) == 0 && sc_heap_peek(&h) == nullptr, "terminated heap is not empty");
			if (c.flip()) for (bool ok = init(true); !ok;) ok = init(false); // a terminated heap may also be used as an empty one
			m.clear();
		}
		maxn = std::max(maxn, m.size());
#ifdef SC_HEAP_MAX
		REQUIRE(c, m.size() <= SC_HEAP_MAX, "heap grew to %zu elements, limit is %zu", m.size(), (size_t) SC_HEAP_MAX);
#endif
		REQUIRE(c, sc_heap_size(&h) == m.size(), "size is %zu, expected %zu", sc_heap_size(&h), m.size());
		check_top(sc_heap_peek(&h), "peek");
	}
	c.trace("drain");
	pbt_alloc_fail_at = -1;
	while (!m.empty()) {
		struct sc_heap_data *d = sc_heap_pop(&h);
		REQUIRE(c, d && d->key == m.begin()->first, "draining returned %s%lld, smallest is %lld", d ? "" : "NULL ", (long long) (d ? d->key : 0),
			(long long) m.begin()->first);
		auto it = m.find({d->key, (uintptr_t) d->data});
		REQUIRE(c, it != m.end(), "draining returned data %lu not present with key %lld", (unsigned long) (uintptr_t) d->data, (long long) d->key);
		m.erase(it);
	}
	REQUIRE(c, sc_heap_size(&h) == 0 && !sc_heap_pop(&h) && !sc_heap_peek(&h), "drained heap is not empty");
	{
		Alloc al;
		sc_heap_term(&h);
	}
	REQUIRE(c, pbt_alloc_live == 0, "%ld allocations left after term", pbt_alloc_live);
	if (maxn >= 7 && (dups || pops >= 3) && (!OOM || pbt_alloc_failed || limited)) c.nontrivial();
}
