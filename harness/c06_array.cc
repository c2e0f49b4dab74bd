// C06: an array equals the sequence of its operations. -DOOM_CASES: allocation failures (C10).
#include "pbt.h"
#include <algorithm>
#include <memory>
extern "C" {
#include "c06_shim.h"
}
using namespace pbt;

#ifdef OOM_CASES
#define OOM 1
#else
#define OOM 0
#endif

const HarnessInfo harness_info = {
	"histories of 1..200 operations on one or two arrays of one of 8 element types (1 to 50 bytes) with 8 spellings of every argument "
	"expression; non-trivial: the array held at least 5 elements and an ordered delete in the middle, an unordered delete or a sort "
	"happened"
#ifdef OOM_CASES
	", and an allocation failure was injected"
#endif
};

struct Arr {
	std::unique_ptr<max_align_t[]> obj;
	std::vector<uint64_t> m;
	size_t settled = 0; // capacity lower bound known to be allocated
};

void run_case(Case &c)
{
	pbt_alloc_reset();
	const struct arr_ops &o = ::arr_ops[c.draw(arr_ops_count)];
	Arr v[2];
	for (auto &x : v) {
		x.obj.reset(new max_align_t[(o.objsize + sizeof(max_align_t) - 1) / sizeof(max_align_t)]);
		memset(x.obj.get(), 0xd7, o.objsize);
		o.init(x.obj.get());
	}
	c.trace("element type %s", o.name);
	bool small_keys = c.flip();
	unsigned interesting = 0;
	bool limited = false;
	size_t maxsize = 0;
	size_t steps = c.chance(1, 10) ? 100 + c.draw(200) : 1 + c.draw(60);
	unsigned addw = c.flip() ? 12 : 5;
	for (size_t s = 0; s < steps; s++) {
		Arr &x = v[c.chance(1, 5)];
		void *a = x.obj.get();
		size_t n = x.m.size();
		auto value = [&] { return (small_keys ? c.draw(9) : c.u64()) & o.mask; };
		if (OOM && c.chance(1, 10)) {
			pbt_alloc_fail_at = c.flip() ? (long) c.draw(2) : -1;
			pbt_alloc_fail_sticky = c.flip();
		}
		switch (c.weighted({addw, 3, 3, 2, 1, 1, 1, 1, 1, 1})) {
		case 0: {
			uint64_t val = value();
			int form = (int) c.draw(ARR_FORMS);
			size_t reps = c.chance(1, 20) ? 1 + c.draw(c.chance(1, OOM ? 500 : 3000) ? (OOM && !c.chance(1, 8) ? 5000 : 70000) : 40) : 1;
			if (OOM && reps > 100) { // many growths, one of which may fail
				pbt_alloc_fail_at = c.chance(1, 3) ? -1 : (long) c.draw(14);
				pbt_alloc_fail_sticky = c.flip();
			}
			c.trace("%zu: add %llx form %d x%zu", (size_t) (&x - v), (unsigned long long) val, form, reps);
			while (reps--) {
				long f0 = pbt_alloc_failed;
				{
					Alloc al;
					o.add(a, val, form);
				}
				if (o.oom(a)) {
#ifdef SC_ARRAY_MAX
					if (2 * x.m.size() * o.elemsize > SC_ARRAY_MAX - o.elemsize) c.label("limit reached"), limited = true;
					else
#endif
					REQUIRE(c, pbt_alloc_failed > f0, "add reports out of memory although nothing failed");
					c.label("oom");
				} else {
					REQUIRE(c, pbt_alloc_failed == f0, "allocation failed but add reports success");
					REQUIRE(c, form != 4 || arr_evals == 1, "add evaluated its argument %lu times", arr_evals);
					x.m.push_back(val);
				}
			}
			break;
		}
		case 1: {
			if (!n) break;
			size_t i = c.draw(n);
			int form = (int) c.draw(ARR_FORMS);
			c.trace("%zu: del %zu form %d", (size_t) (&x - v), i, form);
			{
				Alloc al;
				o.del(a, i, form);
			}
			REQUIRE(c, form != 4 || arr_evals == 1, "del evaluated its argument %lu times", arr_evals);
			x.m.erase(x.m.begin() + (long) i);
			if (n >= 5 && i && i + 1 < n) interesting |= 1;
			break;
		}
		case 2: {
			if (!n) break;
			size_t i = c.draw(n);
			int form = (int) c.draw(ARR_FORMS);
			c.trace("%zu: del_unordered %zu form %d", (size_t) (&x - v), i, form);
			{
				Alloc al;
				o.del_un(a, i, form);
			}
			REQUIRE(c, form != 4 || arr_evals == 1, "del_unordered evaluated its argument %lu times", arr_evals);
			x.m[i] = x.m.back();
			x.m.pop_back();
			if (n >= 5) interesting |= 2;
			break;
		}
		case 3:
			if (!n) break;
			c.trace("%zu: del_last", (size_t) (&x - v));
			o.del_last(a);
			x.m.pop_back();
			break;
		case 4:
			c.trace("%zu: clear", (size_t) (&x - v));
			o.clear(a);
			x.m.clear();
			REQUIRE(c, !o.oom(a), "clear leaves the out-of-memory flag");
			break;
		case 5: {
			c.trace("%zu: sort", (size_t) (&x - v));
			o.sort(a);
			std::vector<uint64_t> got;
			for (size_t i = 0; i < n; i++) got.push_back(o.at(a, i, 0));
			for (size_t i = 1; i < n; i++)
				REQUIRE(c, o.key(got[i - 1]) <= o.key(got[i]), "sorted array is out of order at %zu", i);
			auto p = got, q = x.m;
			std::sort(p.begin(), p.end());
			std::sort(q.begin(), q.end());
			REQUIRE(c, p == q, "sorting changed the elements");
			x.m = got;
			if (n >= 5) interesting |= 4;
			break;
		}
		case 6: {
			if (!n) break;
			size_t i = c.draw(n);
			uint64_t val = value();
			o.set(a, i, val);
			x.m[i] = val;
			break;
		}
		case 7: {
			c.trace("%zu: term", (size_t) (&x - v));
			{
				Alloc al;
				o.term(a);
			}
			if (c.flip()) o.init(a);
			x.m.clear();
			break;
		}
		case 8: {
			if (!n) break;
			size_t i = c.draw(n);
			c.trace("%zu: add copy of element %zu", (size_t) (&x - v), i);
			{
				Alloc al;
				o.add_copy(a, i);
			}
			if (!o.oom(a)) x.m.push_back(x.m[i]);
			break;
		}
		default: { // nested iteration
			Arr &p = v[0], &q = v[1];
			size_t cnt = p.m.size() * q.m.size();
			if (cnt > 4000) break;
			std::vector<uint64_t> out(2 * cnt + 2);
			size_t k = o.pairs(p.obj.get(), q.obj.get(), out.data(), 2 * cnt);
			REQUIRE(c, k == cnt, "nested iteration visited %zu pairs, expected %zu", k, cnt);
			size_t z = 0;
			for (auto e : p.m)
				for (auto f : q.m) {
					REQUIRE(c, out[2 * z] == e && out[2 * z + 1] == f, "nested iteration pair %zu differs", z);
					z++;
				}
		}
		}
		n = x.m.size();
		maxsize = std::max(maxsize, n);
#ifdef SC_ARRAY_MAX
		REQUIRE(c, n * o.elemsize <= SC_ARRAY_MAX, "array grew to %zu bytes, limit is %zu", n * o.elemsize, (size_t) SC_ARRAY_MAX);
#endif
		REQUIRE(c, o.size(a) == n, "size is %zu, expected %zu", o.size(a), n);
		bool full = n < 40 || c.chance(1, 8);
		if (n) REQUIRE(c, o.last(a) == x.m.back(), "last element is %llx, expected %llx", (unsigned long long) o.last(a), (unsigned long long) x.m.back());
		int form = (int) c.draw(6);
		for (size_t i = 0; i < n; i++) {
			if (!full && i > 5 && i + 5 < n) continue;
			uint64_t got = o.at(a, i, form);
			REQUIRE(c, got == x.m[i], "element %zu of %zu is %llx, expected %llx", i, n, (unsigned long long) got, (unsigned long long) x.m[i]);
			REQUIRE(c, form != 4 || arr_evals == 1, "at evaluated its argument %lu times", arr_evals);
			REQUIRE(c, (const char *) o.addr(a, i) == (const char *) o.addr(a, 0) + i * o.elemsize, "element %zu is not at its position", i);
		}
		if (full) {
			std::vector<uint64_t> out(n + 1);
			size_t stop = c.chance(1, 3) ? c.draw(n + 1) : n + 5;
			size_t k = o.foreach (a, out.data(), n + 1, stop);
			REQUIRE(c, k == std::min(n, stop), "iteration visited %zu elements, expected %zu", k, std::min(n, stop));
			for (size_t i = 0; i < k; i++) REQUIRE(c, out[i] == x.m[i], "iteration element %zu differs", i);
		}
	}
	for (auto &x : v) {
		Alloc al;
		o.term(x.obj.get());
	}
	REQUIRE(c, pbt_alloc_live == 0, "%ld allocations left after term", pbt_alloc_live);
	c.label(o.name);
	if (maxsize >= 5 && interesting && (!OOM || pbt_alloc_failed || limited)) c.nontrivial();
}
