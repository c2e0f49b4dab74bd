// C01: every map instantiation against std::map as the dictionary model.
// With -DMAP_OOM (C02): the same histories with injected allocation failures and capacity limits.
#include "pbt.h"
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#include <memory.h>
#include <stdbool.h>
extern "C" {
#include "sc_map.h"
}
using namespace pbt;

#ifdef MAP_OOM
static const bool oom_mode = true;
const HarnessInfo harness_info = {
	"the C01 histories with allocation failures injected before arbitrary operations (one-shot or lasting), huge initial "
	"capacities and (second build) a small capacity limit; non-trivial: at least one put failed with 4 or more entries live "
	"and a later put succeeded"};
#else
static const bool oom_mode = false;
const HarnessInfo harness_info = {
	"random operation histories (1..~250 steps) over one of 14 map instantiations, key pools that are dense, sparse, "
	"colliding, boundary or string-valued incl. the zero/NULL key, against std::map; non-trivial: the history has a "
	"delete of a present key and at least 8 live entries at some point"};
#endif
#ifndef SC_MAP_MAX
#define SC_MAP_MAX UINT32_MAX
#endif

struct Key { // model key
	bool null;
	uint64_t n;
	std::string s;
	bool operator<(const Key &o) const
	{
		if (null != o.null) return null > o.null;
		if (n != o.n) return n < o.n;
		return s < o.s;
	}
};

// string pool of the current case: each string exists at two addresses
static std::vector<std::string> g_pool[2];
static char g_vals[4096];
static std::map<Key, const void *> g_given; // string maps: the key as it was given to the last put

template <class K> struct KeyConv {
	static K make(uint64_t n, int) { return (K) n; }
	static Key model(uint64_t n) { return {(K) n == 0, (uint64_t) (K) n, ""}; }
	static Key back(K k) { return {k == 0, (uint64_t) k, ""}; }
	static const bool is_str = false;
};
template <> struct KeyConv<const char *> {
	// n: index into pool + 1, 0 = NULL
	static const char *make(uint64_t n, int copy) { return n == 0 ? nullptr : g_pool[copy][n - 1].c_str(); }
	static Key model(uint64_t n) { return n == 0 ? Key{true, 0, ""} : Key{false, 0, g_pool[0][n - 1]}; }
	static Key back(const char *k) { return k == nullptr ? Key{true, 0, ""} : Key{false, 0, k}; }
	static const bool is_str = true;
};
template <class V> struct ValConv {
	static V make(uint64_t n) { return (V) n; }
};
template <> struct ValConv<const char *> {
	static const char *make(uint64_t n) { return n % 17 == 0 ? nullptr : g_vals + n % 4096; }
};
template <> struct ValConv<void *> {
	static void *make(uint64_t n) { return n % 17 == 0 ? nullptr : (void *) (uintptr_t) n; }
};

static std::string show(const Key &k) { return k.null ? "0/NULL" : k.s.empty() && k.n ? std::to_string(k.n) : quote(k.s, 40); }

#define MAP_OPS(name, K_, V_)                                                                                   \
	struct M_##name {                                                                                        \
		typedef K_ K;                                                                                    \
		typedef V_ V;                                                                                    \
		typedef struct sc_map_##name T;                                                                  \
		static const char *id() { return #name; }                                                        \
		static bool init(T *m, uint32_t c, uint32_t l) { Alloc a; return sc_map_init_##name(m, c, l); }  \
		static void term(T *m) { Alloc a; sc_map_term_##name(m); }                                       \
		static uint32_t size(T *m) { return sc_map_size_##name(m); }                                     \
		static void clear(T *m) { Alloc a; sc_map_clear_##name(m); }                                     \
		static V put(T *m, K k, V v) { Alloc a; return sc_map_put_##name(m, k, v); }                     \
		static V get(T *m, K k) { return sc_map_get_##name(m, k); }                                      \
		static V del(T *m, K k) { Alloc a; return sc_map_del_##name(m, k); }                             \
	};
MAP_OPS(int, int, int)
MAP_OPS(intv, int, void *)
MAP_OPS(ints, int, const char *)
MAP_OPS(ll, long long, long long)
MAP_OPS(llv, long long, void *)
MAP_OPS(lls, long long, const char *)
MAP_OPS(32, uint32_t, uint32_t)
MAP_OPS(64, uint64_t, uint64_t)
MAP_OPS(64v, uint64_t, void *)
MAP_OPS(64s, uint64_t, const char *)
MAP_OPS(str, const char *, const char *)
MAP_OPS(sv, const char *, void *)
MAP_OPS(s64, const char *, uint64_t)
MAP_OPS(sll, const char *, long long)

template <class M> static void check_all(Case &c, typename M::T *m, std::map<Key, typename M::V> &ref, const char *when,
					 int brk)
{
	typedef KeyConv<typename M::K> KC;
	typename M::K k;
	typename M::V v;

	REQUIRE(c, M::size(m) == ref.size(), "%s %s: size %u, expected %zu", M::id(), when, M::size(m), ref.size());

	std::map<Key, int> seen;
	size_t n = 0;
	sc_map_foreach (m, k, v) {
		Key mk = KC::back(k);
		auto it = ref.find(mk);
		REQUIRE(c, it != ref.end(), "%s %s: iteration yields absent key %s", M::id(), when, show(mk).c_str());
		REQUIRE(c, it->second == v, "%s %s: iteration yields wrong value for key %s", M::id(), when, show(mk).c_str());
		if (KC::is_str)
			REQUIRE(c, (const void *) (uintptr_t) k == g_given[mk], "%s %s: the map holds another text %s than the one given last, which may be gone by now", M::id(), when, show(mk).c_str());
		REQUIRE(c, ++seen[mk] == 1, "%s %s: key %s visited twice", M::id(), when, show(mk).c_str());
		n++;
	}
	REQUIRE(c, n == ref.size(), "%s %s: iteration visits %zu of %zu entries", M::id(), when, n, ref.size());

	seen.clear();
	n = 0;
	sc_map_foreach_key (m, k) {
		Key mk = KC::back(k);
		REQUIRE(c, ref.count(mk) && ++seen[mk] == 1, "%s %s: key iteration wrong at %s", M::id(), when, show(mk).c_str());
		n++;
	}
	REQUIRE(c, n == ref.size(), "%s %s: key iteration visits %zu of %zu", M::id(), when, n, ref.size());

	std::map<uint64_t, int> vals;
	for (auto &p : ref) vals[(uint64_t) p.second]++;
	n = 0;
	sc_map_foreach_value (m, v) {
		REQUIRE(c, --vals[(uint64_t) v] >= 0, "%s %s: value iteration yields an extra value", M::id(), when);
		n++;
	}
	REQUIRE(c, n == ref.size(), "%s %s: value iteration visits %zu of %zu", M::id(), when, n, ref.size());

	// leaving the loop early stops at once
	if (brk >= 0 && (size_t) brk < ref.size()) {
		n = 0;
		sc_map_foreach (m, k, v) {
			if (n++ == (size_t) brk) break;
		}
		REQUIRE(c, n == (size_t) brk + 1, "%s %s: break in iteration continued (%zu)", M::id(), when, n);
		n = 0;
		sc_map_foreach_key (m, k) {
			if (n++ == (size_t) brk) break;
		}
		REQUIRE(c, n == (size_t) brk + 1, "%s %s: break in key iteration continued (%zu)", M::id(), when, n);
		n = 0;
		sc_map_foreach_value (m, v) {
			if (n++ == (size_t) brk) break;
		}
		REQUIRE(c, n == (size_t) brk + 1, "%s %s: break in value iteration continued (%zu)", M::id(), when, n);
		if (ref.size() <= 40) { // loops within loops, with continue
			typename M::K k2;
			typename M::V v2;
			size_t inner = 0;
			n = 0;
			sc_map_foreach (m, k, v) {
				n++;
				sc_map_foreach_key (m, k2) {
					inner++;
					continue;
				}
				sc_map_foreach_value (m, v2) {
					if (inner++ % 3 == 0) continue;
				}
			}
			REQUIRE(c, n == ref.size() && inner == 2 * n * n, "%s %s: nested iteration visits %zu entries, %zu times the inner ones", M::id(), when, n, inner);
		}
	}
}

// Pairs of different strings which a 64 bit murmur hash, cut to 32 bits as sc_map does, maps to one value.
static std::vector<std::pair<std::string, std::string>> g_twins;

static uint32_t murmur(const std::string &s)
{
	const uint64_t m = 0xc6a4a7935bd1e995ull;
	uint64_t h = s.size() * m, k;
	size_t i = 0;
	for (; i + 8 <= s.size(); i += 8) {
		memcpy(&k, &s[i], 8);
		k *= m;
		k ^= k >> 47;
		k *= m;
		h = (h ^ k) * m;
	}
	if (i < s.size()) {
		for (k = 0; i < s.size(); i++) k |= (uint64_t) (unsigned char) s[i] << 8 * (i & 7);
		h = (h ^ k) * m;
	}
	h ^= h >> 47;
	h *= m;
	h ^= h >> 47;
	return (uint32_t) h;
}

void harness_init()
{
	for (int family = 0; family < 6; family++) { // mixed lengths; then texts of one length each
		std::vector<std::pair<uint32_t, uint32_t>> v;
		auto str = [&](uint32_t i) {
			std::string s = std::to_string(i);
			if (family == 0) return s + std::string(i % 9, 'x');
			s = std::string(6 - s.size(), '0') + s;
			return family == 1 ? s : family == 2 ? "prefix" + s : family == 3 ? s + "suffix" : family == 4 ? "key" + s : "a longer common prefix, " + s;
		};
		for (uint32_t i = 0; i < 200000; i++) v.push_back({murmur(str(i)), i});
		std::sort(v.begin(), v.end());
		for (size_t i = 1; i < v.size(); i++)
			if (v[i].first == v[i - 1].first) g_twins.push_back({str(v[i - 1].second), str(v[i].second)});
	}
}

template <class M> static void go(Case &c)
{
	typedef typename M::K K;
	typedef typename M::V V;
	typedef KeyConv<K> KC;
	typename M::T m;
	std::map<Key, V> ref;
	std::vector<uint64_t> pool;
	bool deleted = false, big = false, failed_put = false, recovered = false;
	long fail_ops = 0; // operations the current sticky failure lasts

	memset(&m, 0xAB, sizeof m);
	pbt_alloc_reset();
	g_given.clear();

	// key pool
	unsigned style = (unsigned) c.draw(KC::is_str ? 3 : 7);
	bool huge = !oom_mode && c.chance(1, 4000);
	if (huge && !KC::is_str && style != 4) style = style & 1 ? 3 : style & 2 ? 1 : 6; // others collide too much for that many
	size_t npool = 1 + (huge ? 60000 + c.draw(12000) : c.draw(c.chance(1, 60) ? 2500 : c.chance(1, 4) ? 200 : 24));
	if (huge) c.label("more than 60000 keys");
	if (KC::is_str) {
		g_pool[0].clear();
		g_pool[1].clear();
		bool twins = style == 2 && c.chance(1, 3) && !g_twins.empty();
		size_t twin0 = twins ? c.draw(g_twins.size()) : 0;
		for (size_t i = 0; i < npool; i++) {
			std::string s;
			if (style == 0) s = c.text(c.draw(4), "ab");
			else if (twins && i < 2 * g_twins.size()) s = (i & 1) ? g_twins[(i / 2 + twin0) % g_twins.size()].second : g_twins[(i / 2 + twin0) % g_twins.size()].first;
			else if (style == 1) s = c.bytes(c.draw(20)).c_str();
			else s = std::string(c.draw(40), 'a') + c.text(c.draw(3), "abc");
			g_pool[0].push_back(s);
			g_pool[1].push_back(s.c_str());
			pool.push_back(i + 1);
		}
		pool.push_back(0);
	} else {
		unsigned sh = (unsigned) c.draw(40);
		uint64_t base = c.u64();
		for (size_t i = 0; i < npool; i++) {
			uint64_t k;
			switch (style) {
			case 0: k = i; break;
			case 1: k = base + i; break;
			case 2: k = (uint64_t) i << sh; break;
			case 3: k = c.u64(); break;
			case 4: k = ((uint64_t) i << 32) ^ ((i * 3) & 7); break;
			case 5: k = (base & 7) + ((uint64_t) i << 3) * (1 + (i & 1)); break;
			default: k = (uint64_t) - (int64_t) i; break;
			}
			pool.push_back(k);
		}
		if (c.flip()) pool.push_back(0);
	}

	static const std::vector<uint32_t> caps = {0, 1, 2, 7, 8, 9, 16, 33, SC_MAP_MAX < 100 ? 40 : 100};
	static const std::vector<uint32_t> facs = {0, 26, 30, 50, 75, 90, 94};
	auto fresh = [&] {
		uint32_t cap = c.pick(caps), fac = c.flip() ? c.pick(facs) : (uint32_t) c.range(26, 94);
		if (c.chance(1, 16)) {
			uint32_t bad = c.flip() ? (uint32_t) c.range(1, 24) : (uint32_t) c.urange(96, UINT32_MAX);
			c.trace("init(%u, %u) must be refused", cap, bad);
			REQUIRE(c, !M::init(&m, cap, bad), "%s: load factor %u accepted", M::id(), bad);
			REQUIRE(c, pbt_alloc_live == 0, "%s: refused init leaks", M::id());
		}
		pbt_alloc_fail_at = -1;
		if (c.chance(1, 12)) { // the ends of the range may be taken or refused, but a map that was accepted has to work
			uint32_t edge = c.flip() ? 95 : 25;
			if (M::init(&m, 0, edge)) M::term(&m), fac = edge, c.label("load factor at the end of the range");
			REQUIRE(c, pbt_alloc_live == 0, "%s: init(0, %u) leaks", M::id(), edge);
			memset(&m, 0xAB, sizeof m);
		}
		c.trace("%s init(%u, %u)", M::id(), cap, fac);
		fail_ops = 0;
		if (oom_mode && c.chance(1, 4)) {
			uint32_t hc = c.flip() ? cap : (uint32_t) c.u64();
			bool inject = c.flip() && hc > 0;
			pbt_alloc_cap = 1 << 20;
			if (inject) pbt_alloc_fail_at = 0;
			memset(&m, 0xAB, sizeof m);
			long before = pbt_alloc_failed;
			bool ok = M::init(&m, hc, fac);
			bool hit = pbt_alloc_failed != before;
			pbt_alloc_fail_at = -1;
			pbt_alloc_cap = 0;
			c.trace("init(%u) under memory pressure: %d", hc, (int) ok);
			REQUIRE(c, ok || hit || hc > SC_MAP_MAX || hc > (1u << 20), "%s: init(%u) fails without reason", M::id(), hc);
			REQUIRE(c, !ok || hc <= SC_MAP_MAX, "%s: init(%u) above the limit succeeds", M::id(), hc);
			if (ok) {
				ref.clear();
				REQUIRE(c, M::size(&m) == 0, "%s: new map not empty", M::id());
				M::get(&m, KC::make(pool[0], 0));
				REQUIRE(c, !sc_map_found(&m), "%s: new map has a key", M::id());
				M::put(&m, KC::make(pool[0], 0), ValConv<V>::make(5));
				REQUIRE(c, !sc_map_oom(&m) && M::size(&m) == 1, "%s: first put into new map fails", M::id());
				M::term(&m);
			}
			REQUIRE(c, pbt_alloc_live == 0, "%s: failed init leaks", M::id());
			memset(&m, 0xAB, sizeof m);
			c.label("init under memory pressure");
		}
		if (SC_MAP_MAX == UINT32_MAX && c.chance(1, 300)) { // room for a lot of entries asked for in advance
			cap = (1u << c.range(10, 19)) + (c.flip() ? (uint32_t) c.draw(5) : (uint32_t) c.draw(5000)) - 2;
			c.trace("large initial capacity %u", cap);
			c.label("large initial capacity");
		}
		REQUIRE(c, M::init(&m, cap, fac), "%s: init(%u,%u) failed", M::id(), cap, fac);
		ref.clear();
		REQUIRE(c, M::size(&m) == 0, "%s: new map not empty", M::id());
	};
	auto val = [&]() -> uint64_t { return huge || !c.chance(1, 6) ? c.draw(4000) : c.u64(); };
	auto put = [&](uint64_t k, uint64_t val) {
		V v = ValConv<V>::make(val);
		Key mk = KC::model(k);
		auto it = ref.find(mk);
		c.trace("put %s = %llu", show(mk).c_str(), (unsigned long long) val);
		long before = pbt_alloc_failed;
		V old = M::put(&m, KC::make(k, (int) (val & 1)), v);
		if (oom_mode) {
			if (sc_map_oom(&m)) {
				bool limit = SC_MAP_MAX < UINT32_MAX && ref.size() >= SC_MAP_MAX / 8;
				REQUIRE(c, pbt_alloc_failed != before || limit, "%s: put reports oom without cause (%zu entries)",
					M::id(), ref.size());
				c.trace("  -> oom");
				c.label("put failed");
				if (pbt_alloc_failed == before) c.label("put failed at the capacity limit");
				REQUIRE(c, M::size(&m) == ref.size(), "%s: failed put changes size %zu -> %u", M::id(), ref.size(), M::size(&m));
				V cur = M::get(&m, KC::make(k, 0));
				REQUIRE(c, sc_map_found(&m) == (it != ref.end()) && (it == ref.end() || cur == it->second),
					"%s: failed put changed key %s", M::id(), show(mk).c_str());
				if (ref.size() >= 4) failed_put = true;
				return;
			}
			if (failed_put) recovered = true;
		}
		REQUIRE(c, !sc_map_oom(&m), "%s: put reports oom", M::id());
		REQUIRE(c, sc_map_found(&m) == (it != ref.end()), "%s: put of key %s reports found=%d", M::id(),
			show(mk).c_str(), (int) sc_map_found(&m));
		if (it != ref.end()) REQUIRE(c, old == it->second, "%s: put of %s returns a wrong previous value", M::id(), show(mk).c_str());
		ref[mk] = v;
		if (KC::is_str) g_given[mk] = (const void *) (uintptr_t) KC::make(k, (int) (val & 1));
		if (ref.size() >= 8) big = true;
	};
	auto get = [&](uint64_t k, int copy) {
		Key mk = KC::model(k);
		auto it = ref.find(mk);
		V v = M::get(&m, KC::make(k, copy));
		REQUIRE(c, sc_map_found(&m) == (it != ref.end()), "%s: get of key %s reports found=%d", M::id(),
			show(mk).c_str(), (int) sc_map_found(&m));
		if (it != ref.end()) REQUIRE(c, v == it->second, "%s: get of %s returns a wrong value", M::id(), show(mk).c_str());
	};
	auto del = [&](uint64_t k, int copy) {
		Key mk = KC::model(k);
		auto it = ref.find(mk);
		c.trace("del %s", show(mk).c_str());
		V v = M::del(&m, KC::make(k, copy));
		REQUIRE(c, sc_map_found(&m) == (it != ref.end()), "%s: del of key %s reports found=%d", M::id(),
			show(mk).c_str(), (int) sc_map_found(&m));
		if (it != ref.end()) {
			REQUIRE(c, v == it->second, "%s: del of %s returns a wrong value", M::id(), show(mk).c_str());
			ref.erase(it);
			deleted = true;
			c.label("delete of present key");
		}
	};

	fresh();
	size_t steps = huge ? 12 : c.chance(2, 3) ? c.draw(150) : c.size(300);
	for (size_t s = 0; s < steps; s++) {
		if (oom_mode) {
			if (fail_ops > 0 && --fail_ops == 0) {
				pbt_alloc_fail_at = -1;
				pbt_alloc_fail_sticky = 0;
				c.trace("memory is back");
			} else if (fail_ops == 0 && c.chance(1, 4)) {
				pbt_alloc_fail_at = (long) c.draw(2);
				pbt_alloc_fail_sticky = (int) c.draw(2);
				fail_ops = 1 + (long) c.draw(6);
				c.trace("fail allocation #%ld%s", pbt_alloc_fail_at, pbt_alloc_fail_sticky ? " and on" : "");
			}
		}
		switch (huge ? s < 2 || s == 6 ? 3 : c.weighted({2, 2, 2, 0, 2, 1, 0, 0}) : c.weighted({10, 3, 7, 2, 2, 1, 1, 1})) {
		case 0: put(c.pick(pool), val()); break;
		case 1: get(c.pick(pool), (int) c.draw(2)); break;
		case 2: del(c.pick(pool), (int) c.draw(2)); break;
		case 3: { // run of puts
			size_t i = c.draw(pool.size()), n = c.draw(pool.size()) + 1, st = 1 + c.draw(3);
			for (size_t j = 0; j < n; j++) put(pool[(i + j * st) % pool.size()], val());
			break;
		}
		case 4: { // run of deletes
			size_t i = c.draw(pool.size()), n = c.draw(pool.size()) + 1, st = 1 + c.draw(3);
			for (size_t j = 0; j < n; j++) del(pool[(i + j * st) % pool.size()], (int) (j & 1));
			break;
		}
		case 5:
			for (uint64_t k : pool) get(k, (int) c.draw(2));
			check_all<M>(c, &m, ref, "mid-history", (int) c.draw(12) - 1);
			break;
		case 6:
			c.trace("clear");
			M::clear(&m);
			ref.clear();
			c.label("clear");
			REQUIRE(c, M::size(&m) == 0, "%s: size after clear is %u", M::id(), M::size(&m));
			break;
		case 7:
			if (c.chance(1, 3)) {
				c.trace("term");
				M::term(&m);
				REQUIRE(c, pbt_alloc_live == 0, "%s: %ld allocations left after term", M::id(), pbt_alloc_live);
				pbt_alloc_fail_sticky = 0;
				fresh();
			}
			break;
		}
		REQUIRE(c, M::size(&m) == ref.size(), "%s: size %u, expected %zu", M::id(), M::size(&m), ref.size());
	}
	for (uint64_t k : pool) get(k, 0);
	check_all<M>(c, &m, ref, "at the end", -1);
	M::term(&m);
	REQUIRE(c, pbt_alloc_live == 0, "%s: %ld allocations left after term", M::id(), pbt_alloc_live);
	if (ref.count(KC::model(0))) c.label("ends with zero key");
	if (big) c.label("8+ live entries");
	if (oom_mode ? failed_put && recovered : deleted && big) c.nontrivial();
}

void run_case(Case &c)
{
	switch (c.draw(14)) {
	case 0: go<M_64>(c); break;
	case 1: go<M_str>(c); break;
	case 2: go<M_int>(c); break;
	case 3: go<M_intv>(c); break;
	case 4: go<M_ints>(c); break;
	case 5: go<M_ll>(c); break;
	case 6: go<M_llv>(c); break;
	case 7: go<M_lls>(c); break;
	case 8: go<M_32>(c); break;
	case 9: go<M_64v>(c); break;
	case 10: go<M_64s>(c); break;
	case 11: go<M_sv>(c); break;
	case 12: go<M_s64>(c); break;
	default: go<M_sll>(c); break;
	}
}
