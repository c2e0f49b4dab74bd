// C09: intrusive lists stay well linked in every history.
#include "pbt.h"
#include <algorithm>
#include <list>
extern "C" {
#include "sc_list.h"
}
using namespace pbt;

const HarnessInfo harness_info = {
	"histories of 1..150 operations over 1..4 lists and 1..10 elements (add head/tail/before/after, also of elements that are already "
	"in the same or another list, delete, pop, clear, iteration in both directions with and without deletion); non-trivial: an element "
	"moved between lists or was re-added, and at least 3 elements were in one list"};

struct Item {
	long before = 0x5a5a5a5a;
	struct sc_list link;
	int id;
	long after = 0xa5a5a5a5;
};

void run_case(Case &c)
{
	size_t nl = 1 + c.draw(4), ni = 1 + c.draw(10);
	std::vector<struct sc_list> l(nl);
	std::vector<Item> it(ni);
	std::vector<std::vector<int>> m(nl);
	for (auto &x : l) {
		memset(&x, 0xd7, sizeof x);
		sc_list_init(&x);
	}
	for (size_t i = 0; i < ni; i++) {
		it[i].id = (int) i;
		sc_list_init(&it[i].link);
	}
	auto where = [&](int id) -> int {
		for (size_t k = 0; k < nl; k++)
			if (std::find(m[k].begin(), m[k].end(), id) != m[k].end()) return (int) k;
		return -1;
	};
	auto drop = [&](int id) {
		for (auto &v : m) v.erase(std::remove(v.begin(), v.end(), id), v.end());
	};
	bool moved = false;
	size_t maxn = 0;
	auto entry = [](struct sc_list *e) { return sc_list_entry(e, struct Item, link); };
	auto id_of = [&](struct sc_list *e) -> int {
		if (!e) return -1;
		for (auto &x : it)
			if (&x.link == e) return x.id;
		return -2;
	};
	auto check = [&](const char *what) {
		for (size_t k = 0; k < nl; k++) {
			struct sc_list *e;
			std::vector<int> got, back;
			sc_list_foreach (&l[k], e) {
				int id = id_of(e);
				REQUIRE(c, id >= 0 && got.size() <= ni, "%s: list %zu reaches something that is no element", what, k);
				REQUIRE(c, entry(e)->id == id, "%s: entry lookup gives a wrong object", what);
				got.push_back(id);
			}
			REQUIRE(c, got == m[k], "%s: list %zu forwards has %zu elements, expected %zu (or another order)", what, k, got.size(), m[k].size());
			sc_list_foreach_r (&l[k], e) {
				int id = id_of(e);
				REQUIRE(c, id >= 0 && back.size() <= ni, "%s: list %zu backwards reaches something that is no element", what, k);
				back.push_back(id);
			}
			std::reverse(back.begin(), back.end());
			REQUIRE(c, back == m[k], "%s: list %zu backwards differs", what, k);
			REQUIRE(c, sc_list_count(&l[k]) == m[k].size(), "%s: count is %zu, expected %zu", what, sc_list_count(&l[k]), m[k].size());
			REQUIRE(c, sc_list_is_empty(&l[k]) == m[k].empty(), "%s: is_empty is %d", what, sc_list_is_empty(&l[k]));
			REQUIRE(c, id_of(sc_list_head(&l[k])) == (m[k].empty() ? -1 : m[k].front()), "%s: head differs", what);
			REQUIRE(c, id_of(sc_list_tail(&l[k])) == (m[k].empty() ? -1 : m[k].back()), "%s: tail differs", what);
			maxn = std::max(maxn, m[k].size());
		}
		for (auto &x : it) {
			REQUIRE(c, x.before == 0x5a5a5a5a && x.after == 0xa5a5a5a5, "%s: memory around a link was overwritten", what);
			if (where(x.id) < 0)
				REQUIRE(c, x.link.next == &x.link && x.link.prev == &x.link, "%s: element %d is in no list but is still linked", what, x.id);
		}
	};
	size_t steps = 1 + c.draw(150);
	for (size_t s = 0; s < steps; s++) {
		size_t k = c.draw(nl);
		int e = (int) c.draw(ni);
		switch (c.weighted({4, 4, 3, 3, 3, 1, 1, 1, 2, 2})) {
		case 0:
			c.trace("list %zu: add_tail %d (in %d)", k, e, where(e));
			if (where(e) >= 0) moved = true;
			sc_list_add_tail(&l[k], &it[e].link);
			drop(e);
			m[k].push_back(e);
			break;
		case 1:
			c.trace("list %zu: add_head %d (in %d)", k, e, where(e));
			if (where(e) >= 0) moved = true;
			sc_list_add_head(&l[k], &it[e].link);
			drop(e);
			m[k].insert(m[k].begin(), e);
			break;
		case 2:
		case 3: {
			bool after = c.flip();
			if (m[k].empty()) break;
			int p = m[k][c.draw(m[k].size())];
			if (p == e) break;
			c.trace("list %zu: add %d %s %d (in %d)", k, e, after ? "after" : "before", p, where(e));
			if (where(e) >= 0) moved = true;
			(after ? sc_list_add_after : sc_list_add_before)(&l[k], &it[p].link, &it[e].link);
			drop(e);
			auto pos = std::find(m[k].begin(), m[k].end(), p);
			m[k].insert(after ? pos + 1 : pos, e);
			break;
		}
		case 4: {
			int w = where(e);
			c.trace("del %d (in %d)", e, w);
			sc_list_del(w >= 0 ? &l[(size_t) w] : &l[k], &it[e].link);
			drop(e);
			break;
		}
		case 5: {
			c.trace("list %zu: pop_head", k);
			int want = m[k].empty() ? -1 : m[k].front();
			struct sc_list *r = sc_list_pop_head(&l[k]);
			REQUIRE(c, id_of(r) == want, "pop_head returned %d, expected %d", id_of(r), want);
			if (want >= 0) drop(want);
			break;
		}
		case 6: {
			c.trace("list %zu: pop_tail", k);
			int want = m[k].empty() ? -1 : m[k].back();
			struct sc_list *r = sc_list_pop_tail(&l[k]);
			REQUIRE(c, id_of(r) == want, "pop_tail returned %d, expected %d", id_of(r), want);
			if (want >= 0) drop(want);
			break;
		}
		case 7:
			if (!c.chance(1, 3)) break;
			c.trace("list %zu: clear", k);
			sc_list_clear(&l[k]);
			m[k].clear();
			break;
		case 8:
		case 9: {
			bool rev = c.flip();
			struct sc_list *p, *n;
			std::vector<int> want = m[k], seen;
			if (rev) std::reverse(want.begin(), want.end());
			uint64_t mask = c.draw(1024);
			size_t other = c.draw(nl);
			bool relink = other != k && c.flip();
			c.trace("list %zu: safe loop%s, %s mask %llx", k, rev ? " reversed" : "", relink ? "moving away" : "deleting", (unsigned long long) mask);
			auto body = [&](struct sc_list *x) {
				int id = id_of(x);
				REQUIRE(c, id >= 0 && seen.size() < want.size(), "loop with deletion visits too much (%zu of %zu)", seen.size() + 1, want.size());
				seen.push_back(id);
				if (mask >> id & 1) {
					if (relink) {
						sc_list_add_tail(&l[other], x);
						drop(id);
						m[other].push_back(id);
						moved = true;
					} else {
						sc_list_del(&l[k], x);
						drop(id);
					}
				}
			};
			if (rev) {
				sc_list_foreach_safe_r (&l[k], n, p) body(p);
			} else {
				sc_list_foreach_safe (&l[k], n, p) body(p);
			}
			REQUIRE(c, seen == want, "loop with deletion visited %zu elements, expected %zu (or another order)", seen.size(), want.size());
			break;
		}
		}
		check("after operation");
	}
	if (moved && maxn >= 3) c.nontrivial();
}
