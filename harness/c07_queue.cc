// C07: a queue is a double-ended queue in every history. -DOOM_CASES: allocation failures (C10).
#include "pbt.h"
#include <algorithm>
#include <deque>
#include <memory>
extern "C" {
#include "c07_shim.h"
}
using namespace pbt;

#ifdef OOM_CASES
#define OOM 1
#else
#define OOM 0
#endif

const HarnessInfo harness_info = {
	"histories of 1..300 operations (bursts of adds and deletes at either end, peeks, positional reads and writes, clear, re-init) on "
	"one or two queues of one of 7 element types; non-trivial: at least 8 elements at some time (first growth) after deletions at the "
	"front or additions at the front (wrapped ring)"
#ifdef OOM_CASES
	", and an allocation failure was injected"
#endif
};

struct Q {
	std::unique_ptr<max_align_t[]> obj;
	std::deque<uint64_t> m;
	bool dead = false; // initialisation failed
};

void run_case(Case &c)
{
	pbt_alloc_reset();
	const q_ops &o = q_ops_tab[c.draw(q_ops_count)];
	Q v[2];
	auto init = [&](Q &x) {
		long f0 = pbt_alloc_failed;
		{
			Alloc al;
			o.init(x.obj.get());
		}
		x.dead = o.oom(x.obj.get());
		REQUIRE(c, x.dead == (pbt_alloc_failed > f0), "init reports out of memory = %d", x.dead);
		x.m.clear();
	};
	for (auto &x : v) {
		x.obj.reset(new max_align_t[(o.objsize + sizeof(max_align_t) - 1) / sizeof(max_align_t)]);
		memset(x.obj.get(), 0xd7, o.objsize);
		if (OOM && c.chance(1, 12)) pbt_alloc_fail_at = 0;
		init(x);
		pbt_alloc_fail_at = -1;
	}
	c.trace("element type %s", o.name);
	bool limited = false, wrapped = false, grown_wrapped = false;
	bool two = c.chance(1, 3);
	size_t steps = c.chance(1, 10) ? 60 + c.draw(240) : 1 + c.draw(50);
	for (size_t s = 0; s < steps; s++) {
		Q &x = v[two && c.chance(1, 4)];
		void *q = x.obj.get();
		size_t n = x.m.size();
		auto value = [&] { return c.u64() & o.mask; };
		if (OOM && c.chance(1, 8)) {
			pbt_alloc_fail_at = c.flip() ? (long) c.draw(2) : -1;
			pbt_alloc_fail_sticky = c.flip();
		}
		auto add = [&](bool front, uint64_t val, int form) {
			long f0 = pbt_alloc_failed;
			{
				Alloc al;
				(front ? o.add_first : o.add_last)(q, val, form);
			}
			if (o.oom(q)) {
#ifdef SC_QUEUE_MAX
				if (2 * (x.m.size() + 1) > SC_QUEUE_MAX) c.label("limit reached"), limited = true;
				else
#endif
				REQUIRE(c, pbt_alloc_failed > f0 || x.dead, "add to a queue of %zu elements reports out of memory although no allocation failed", x.m.size());
				c.label("oom");
				return;
			}
			REQUIRE(c, !x.dead, "add to a queue whose initialisation failed reports success");
			REQUIRE(c, pbt_alloc_failed == f0, "allocation failed but add reports success");
			REQUIRE(c, form != 3 || q_evals == 1, "add evaluated its argument %lu times", q_evals);
			front ? x.m.push_front(val) : x.m.push_back(val);
			if (x.m.size() == 8 && wrapped) grown_wrapped = true;
		};
		switch (c.weighted({6, 6, 5, 5, 1, 1, 1, 1, 1, 1})) {
		case 0:
		case 1: {
			bool front = c.flip();
			int form = (int) c.draw(Q_FORMS);
			size_t reps = c.chance(1, 8) ? 1 + c.draw(c.chance(1, OOM ? 500 : 3000) ? (OOM && !c.chance(1, 8) ? 5000 : 70000) : 20) : 1;
			if (OOM && reps > 100) { // many growths, one of which may fail
				pbt_alloc_fail_at = c.chance(1, 3) ? -1 : (long) c.draw(14);
				pbt_alloc_fail_sticky = c.flip();
			}
			uint64_t val = value();
			c.trace("%zu: add_%s %llx form %d x%zu", (size_t) (&x - v), front ? "first" : "last", (unsigned long long) val, form, reps);
			for (size_t k = 0; k < reps; k++) add(front, (val + k) & o.mask, form);
			if (front) wrapped = true;
			break;
		}
		case 2: {
			if (!n) break;
			size_t reps = c.chance(1, 8) ? 1 + c.draw(n) : 1;
			c.trace("%zu: del_first x%zu", (size_t) (&x - v), reps);
			while (reps--) {
				uint64_t got = o.del_first(q), want = x.m.front();
				REQUIRE(c, got == want, "del_first returned %llx, expected %llx", (unsigned long long) got, (unsigned long long) want);
				x.m.pop_front();
			}
			wrapped = true;
			break;
		}
		case 3: {
			if (!n) break;
			size_t reps = c.chance(1, 8) ? 1 + c.draw(n) : 1;
			c.trace("%zu: del_last x%zu", (size_t) (&x - v), reps);
			while (reps--) {
				uint64_t got = o.del_last(q), want = x.m.back();
				REQUIRE(c, got == want, "del_last returned %llx, expected %llx", (unsigned long long) got, (unsigned long long) want);
				x.m.pop_back();
			}
			break;
		}
		case 4:
			c.trace("%zu: clear", (size_t) (&x - v));
			o.clear(q);
			REQUIRE(c, !o.oom(q), "clear leaves the out-of-memory flag");
			x.m.clear();
			break;
		case 5: {
			c.trace("%zu: term and init", (size_t) (&x - v));
			{
				Alloc al;
				o.term(q);
			}
			REQUIRE(c, o.size(q) == 0 && o.empty(q), "terminated queue is not empty");
			init(x);
			break;
		}
		case 6: {
			if (!n) break;
			size_t i = c.draw(n);
			uint64_t val = value();
			o.set(q, i, val);
			x.m[i] = val;
			break;
		}
		case 7: {
			if (!n) break;
			size_t i = c.weighted({2, 1, 1}) == 0 ? c.draw(n) : c.flip() ? 0 : n - 1;
			int front = c.flip();
			c.trace("%zu: add copy of %zu %s", (size_t) (&x - v), i, front ? "first" : "last");
			{
				Alloc al;
				o.add_peeked(q, front | (int) c.draw(4) << 1, i);
			}
			if (!o.oom(q)) {
				uint64_t val = x.m[i];
				front ? x.m.push_front(val) : x.m.push_back(val);
			}
			break;
		}
		case 8: {
			if (!n) break;
			int dir = c.flip();
			size_t reps = 1 + c.draw(20);
			c.trace("%zu: rotate %d x%zu", (size_t) (&x - v), dir, reps);
			while (reps--) {
				{
					Alloc al;
					o.rotate(q, dir);
				}
				// one element was just removed: no allocation is needed
				REQUIRE(c, !o.oom(q), "add after a removal reports out of memory");
				if (dir) {
					x.m.push_back(x.m.front());
					x.m.pop_front();
				} else {
					x.m.push_front(x.m.back());
					x.m.pop_back();
				}
			}
			wrapped = true;
			break;
		}
		default: {
			size_t cnt = v[0].m.size() * v[1].m.size();
			if (cnt > 4000) break;
			std::vector<uint64_t> out(2 * cnt + 2);
			size_t k = o.pairs(v[0].obj.get(), v[1].obj.get(), out.data(), 2 * cnt);
			REQUIRE(c, k == cnt, "nested iteration visited %zu pairs, expected %zu", k, cnt);
			size_t z = 0;
			for (auto e : v[0].m)
				for (auto f : v[1].m) {
					REQUIRE(c, out[2 * z] == e && out[2 * z + 1] == f, "nested iteration pair %zu differs", z);
					z++;
				}
		}
		}
		n = x.m.size();
#ifdef SC_QUEUE_MAX
		REQUIRE(c, n <= SC_QUEUE_MAX, "queue grew to %zu elements, limit is %zu", n, (size_t) SC_QUEUE_MAX);
#endif
		REQUIRE(c, o.size(q) == n, "size is %zu, expected %zu", o.size(q), n);
		REQUIRE(c, !o.empty(q) == (n != 0), "empty is %d with %zu elements", o.empty(q), n);
		if (n) {
			REQUIRE(c, o.peek_first(q) == x.m.front(), "peek_first is %llx, expected %llx", (unsigned long long) o.peek_first(q), (unsigned long long) x.m.front());
			REQUIRE(c, o.peek_last(q) == x.m.back(), "peek_last is %llx, expected %llx", (unsigned long long) o.peek_last(q), (unsigned long long) x.m.back());
		}
		if (n < 40 || c.chance(1, 6)) {
			int form = (int) c.draw(7);
			for (size_t i = 0; i < n; i++) {
				uint64_t got = o.at(q, i, form);
				REQUIRE(c, got == x.m[i], "element %zu of %zu is %llx, expected %llx", i, n, (unsigned long long) got, (unsigned long long) x.m[i]);
				REQUIRE(c, form != 3 || q_evals == 1, "at evaluated its argument %lu times", q_evals);
			}
			std::vector<uint64_t> out(n + 1);
			size_t stop = c.chance(1, 3) ? c.draw(n + 1) : n + 5;
			size_t k = o.foreach (q, out.data(), n + 1, stop);
			REQUIRE(c, k == std::min(n, stop), "iteration visited %zu elements, expected %zu", k, std::min(n, stop));
			for (size_t i = 0; i < k; i++) REQUIRE(c, out[i] == x.m[i], "iteration element %zu differs", i);
			k = o.walk(q, out.data(), n + 1);
			REQUIRE(c, k == n, "index walk visited %zu elements, expected %zu", k, n);
			for (size_t i = 0; i < k; i++) REQUIRE(c, out[i] == x.m[i], "index walk element %zu differs", i);
		}
	}
	for (auto &x : v) {
		Alloc al;
		o.term(x.obj.get());
	}
	REQUIRE(c, pbt_alloc_live == 0, "%ld allocations left after term", pbt_alloc_live);
	c.label(o.name);
	if (grown_wrapped) c.label("grew while wrapped");
	if (grown_wrapped && (!OOM || pbt_alloc_failed || limited)) c.nontrivial();
}
