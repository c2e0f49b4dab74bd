// C04: decoding arbitrary bytes with arbitrary positions and lengths against an exact model.
#include "pbt.h"
#include <memory>
#include <sanitizer/asan_interface.h>
#include <string.h>
#include <sys/mman.h>
extern "C" {
#include "sc_buf.h"
}
using namespace pbt;

const HarnessInfo harness_info = {
	"arbitrary buffer contents (random, or well-formed encodings with mutated lengths) in an exactly sized, guarded allocation; "
	"1..40 read/peek/set/position calls with 64-bit positions and lengths biased to the region ends and to the top of the range; "
	"exact model of values, positions and error state; rarely a borrowed region of more than 2 or 4 GB, used around its 32 bit boundaries; non-trivial: a request failed and at least 3 succeeded before it"};

static uint64_t g_null_len;

void harness_init()
{
	struct sc_buf b;
	sc_buf_init(&b, 64);
	sc_buf_put_str(&b, nullptr);
	g_null_len = sc_buf_peek_64(&b);
	sc_buf_term(&b);
}

static std::string le(uint64_t v, int n)
{
	std::string r;
	for (int i = 0; i < n; i++) r += (char) (v >> (8 * i));
	return r;
}

// a region of more than 2 or 4 GB (pages nobody writes to take no memory), used around its 32 bit boundaries
static void gigabytes(Case &c)
{
	const uint64_t edge = c.flip() ? 1ull << 32 : 1ull << 31, n = edge + 4096 + c.draw(5000);
	unsigned char *mem = (unsigned char *) mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (mem == MAP_FAILED) { c.label("no room for gigabytes"); return; }
	struct sc_buf b = sc_buf_wrap(mem, n, SC_BUF_REF);
	uint64_t base = edge - c.draw(60);
	c.trace("buffer over %llu bytes, values from %llu on", (unsigned long long) n, (unsigned long long) base);
	REQUIRE(c, sc_buf_cap(&b) == n && sc_buf_quota(&b) == n && sc_buf_size(&b) == 0, "a buffer over %llu bytes has capacity %llu, room for %llu", (unsigned long long) n,
		(unsigned long long) sc_buf_cap(&b), (unsigned long long) sc_buf_quota(&b));
	if (c.flip()) sc_buf_set_wpos(&b, base);
	else sc_buf_mark_write(&b, base);
	REQUIRE(c, sc_buf_valid(&b) && sc_buf_wpos(&b) == base && sc_buf_size(&b) == base && sc_buf_wbuf(&b) == mem + base, "write position %llu instead of %llu",
		(unsigned long long) sc_buf_wpos(&b), (unsigned long long) base);
	if (c.flip()) sc_buf_set_rpos(&b, base);
	else sc_buf_mark_read(&b, base);
	REQUIRE(c, sc_buf_rpos(&b) == base && sc_buf_size(&b) == 0 && sc_buf_rbuf(&b) == mem + base, "read position %llu instead of %llu", (unsigned long long) sc_buf_rpos(&b), (unsigned long long) base);
	std::string want;
	struct It { int k; uint64_t v; std::string s; };
	std::vector<It> its;
	size_t k = 1 + c.draw(12);
	for (size_t i = 0; i < k; i++) {
		It it{(int) c.draw(6), c.u64(), c.text(c.draw(20), "abc")};
		switch (it.k) {
		case 0: sc_buf_put_8(&b, (uint8_t) it.v); want += le(it.v, 1); break;
		case 1: sc_buf_put_16(&b, (uint16_t) it.v); want += le(it.v, 2); break;
		case 2: sc_buf_put_32(&b, (uint32_t) it.v); want += le(it.v, 4); break;
		case 3: sc_buf_put_64(&b, it.v); want += le(it.v, 8); break;
		case 4: sc_buf_put_str(&b, it.s.c_str()); want += le(it.s.size(), 8) + it.s + std::string(1, 0); break;
		default: sc_buf_put_raw(&b, it.s.data(), it.s.size()); want += it.s; break;
		}
		its.push_back(it);
		REQUIRE(c, sc_buf_valid(&b) && sc_buf_wpos(&b) == base + want.size() && sc_buf_size(&b) == want.size(), "after a value of kind %d the write position is %llu, expected %llu", it.k,
			(unsigned long long) sc_buf_wpos(&b), (unsigned long long) (base + want.size()));
	}
	REQUIRE(c, !memcmp(mem + base, want.data(), want.size()), "the values written are not at the write position");
	uint64_t pos = base;
	for (auto &it : its) {
		std::string t(it.s.size() + 1, 'x');
		switch (it.k) {
		case 0: REQUIRE(c, sc_buf_peek_8_at(&b, pos) == (uint8_t) it.v && sc_buf_get_8(&b) == (uint8_t) it.v, "8 bit value at %llu", (unsigned long long) pos); pos += 1; break;
		case 1: REQUIRE(c, sc_buf_peek_16_at(&b, pos) == (uint16_t) it.v && sc_buf_get_16(&b) == (uint16_t) it.v, "16 bit value at %llu", (unsigned long long) pos); pos += 2; break;
		case 2: REQUIRE(c, sc_buf_peek_32_at(&b, pos) == (uint32_t) it.v && sc_buf_get_32(&b) == (uint32_t) it.v, "32 bit value at %llu", (unsigned long long) pos); pos += 4; break;
		case 3: REQUIRE(c, sc_buf_peek_64_at(&b, pos) == it.v && sc_buf_get_64(&b) == it.v, "64 bit value at %llu", (unsigned long long) pos); pos += 8; break;
		case 4: {
			const char *p = sc_buf_get_str(&b);
			REQUIRE(c, p == (char *) mem + pos + 8 && it.s == p, "text at %llu", (unsigned long long) pos);
			pos += 9 + it.s.size();
			break;
		}
		default:
			REQUIRE(c, sc_buf_peek_data(&b, pos, (unsigned char *) &t[0], it.s.size()) == it.s.size() && t.substr(0, it.s.size()) == it.s, "bytes peeked at %llu", (unsigned long long) pos);
			t.assign(it.s.size() + 1, 'x');
			sc_buf_get_data(&b, &t[0], it.s.size());
			REQUIRE(c, t == it.s + "x", "bytes at %llu", (unsigned long long) pos);
			pos += it.s.size();
		}
		REQUIRE(c, sc_buf_valid(&b) && sc_buf_rpos(&b) == pos, "after a value of kind %d the read position is %llu, expected %llu", it.k, (unsigned long long) sc_buf_rpos(&b), (unsigned long long) pos);
	}
	uint64_t at = edge - c.draw(10), v = c.u64();
	switch (c.draw(5)) {
	case 0: sc_buf_set_8_at(&b, at, (uint8_t) v); REQUIRE(c, !memcmp(mem + at, le(v, 1).data(), 1), "value set at %llu", (unsigned long long) at); break;
	case 1: sc_buf_set_16_at(&b, at, (uint16_t) v); REQUIRE(c, !memcmp(mem + at, le(v, 2).data(), 2), "value set at %llu", (unsigned long long) at); break;
	case 2: sc_buf_set_32_at(&b, at, (uint32_t) v); REQUIRE(c, !memcmp(mem + at, le(v, 4).data(), 4), "value set at %llu", (unsigned long long) at); break;
	case 3: sc_buf_set_64_at(&b, at, v); REQUIRE(c, !memcmp(mem + at, le(v, 8).data(), 8), "value set at %llu", (unsigned long long) at); break;
	default: REQUIRE(c, sc_buf_set_data(&b, at, &v, 8) == 8 && !memcmp(mem + at, &v, 8), "bytes set at %llu", (unsigned long long) at); break;
	}
	REQUIRE(c, sc_buf_valid(&b), "a value set at %llu of %llu is refused", (unsigned long long) at, (unsigned long long) n);
	// everything at once
	sc_buf_set_rpos(&b, 0);
	sc_buf_set_wpos(&b, n);
	REQUIRE(c, sc_buf_valid(&b) && sc_buf_size(&b) == n && sc_buf_quota(&b) == 0, "%llu bytes to read, expected %llu", (unsigned long long) sc_buf_size(&b), (unsigned long long) n);
	uint64_t len = n - 8 - 1 - c.draw(100);
	int how = (int) c.draw(4);
	memcpy(mem, le(len, 8).data(), 8);
	mem[8 + len] = 0;
	if (how == 0) {
		REQUIRE(c, sc_buf_get_str(&b) == (char *) mem + 8 && sc_buf_rpos(&b) == len + 9, "a text of %llu bytes", (unsigned long long) len);
	} else if (how == 1) {
		REQUIRE(c, sc_buf_get_blob(&b, n - 5) == mem && sc_buf_rpos(&b) == n - 5, "a blob of %llu bytes", (unsigned long long) n - 5);
	} else if (how == 2) {
		REQUIRE(c, sc_buf_get_blob(&b, n + 1) == nullptr && !sc_buf_valid(&b) && sc_buf_rpos(&b) == 0, "a blob of more bytes than there are");
	} else { // the rest moves to the front
		mem[n - 2] = 'y';
		mem[n - 1] = 'z';
		sc_buf_set_rpos(&b, n - 2);
		sc_buf_compact(&b);
		REQUIRE(c, sc_buf_rpos(&b) == 0 && sc_buf_wpos(&b) == 2 && sc_buf_size(&b) == 2 && mem[0] == 'y' && mem[1] == 'z' && sc_buf_cap(&b) == n, "compacting leaves %llu bytes", (unsigned long long) sc_buf_size(&b));
	}
	sc_buf_term(&b);
	munmap(mem, n);
	c.label("gigabytes");
	c.nontrivial();
}

void run_case(Case &c)
{
	if (c.chance(1, 20000)) return gigabytes(c);
	// contents
	std::string data;
	if (c.chance(1, 3)) {
		data = c.bytes(c.size(100));
	} else {
		size_t k = c.draw(8);
		for (size_t i = 0; i < k; i++) {
			std::string s = c.bytes(c.size(20));
			switch (c.draw(5)) {
			case 0: data += le(s.size(), 8) + s + std::string(1, c.chance(1, 8) ? 'x' : 0); break;
			case 1: data += le(g_null_len, 8); break;
			case 2: data += le(c.u64(), 8) + s; break;
			case 3: data += le(s.size() + (uint64_t) c.range(-2, 2), 8) + s + std::string(1, 0); break;
			default: data += s; break;
			}
		}
	}
	size_t wpos = data.size();
	size_t extra = c.chance(1, 2) ? 0 : c.draw(20);
	size_t cap = wpos + extra;
	bool readonly = c.flip();
	std::unique_ptr<unsigned char[]> mem(new unsigned char[cap]);
	memcpy(mem.get(), data.data(), wpos);
	memset(mem.get() + wpos, 0xEE, extra);
	std::string m((char *) mem.get(), cap); // model of the memory
	struct sc_buf b = sc_buf_wrap(mem.get(), cap, SC_BUF_REF);
	sc_buf_set_wpos(&b, wpos);
	// reads must not look beyond the written region
	if (readonly) ASAN_POISON_MEMORY_REGION(mem.get() + wpos, extra);
	uint64_t rp = 0, wp = wpos;
	bool err = false;
	unsigned ok = 0, bad = 0, ok_before_bad = 0;
	c.trace("bytes %s wpos %zu cap %zu%s", hex(data.data(), data.size()).c_str(), wpos, cap, readonly ? " reads only" : "");

	auto fits = [](uint64_t pos, uint64_t len, uint64_t end) { return pos <= end && len <= end - pos; };
	auto value = [&](uint64_t pos, int n) {
		uint64_t v = 0;
		for (int i = 0; i < n; i++) v |= (uint64_t) (unsigned char) m[pos + (uint64_t) i] << (8 * i);
		return v;
	};
	auto anypos = [&]() -> uint64_t {
		switch (c.draw(4)) {
		case 0: return c.draw(cap + 2);
		case 1: return wp + (uint64_t) c.range(-9, 9);
		case 2: return cap + (uint64_t) c.range(-9, 9);
		default: return c.u64();
		}
	};
	auto note = [&](bool fine) {
		if (fine) ok++;
		else {
			if (bad++ == 0) ok_before_bad = ok;
			err = true;
		}
	};
	size_t steps = 1 + c.draw(40);
	for (size_t i = 0; i < steps; i++) {
		static const int W[] = {1, 2, 4, 8};
		int wi = (int) c.draw(4), w = W[wi];
		switch (c.weighted({6, 5, 5, 5, 4, 4, readonly ? 0u : 5u, readonly ? 0u : 3u, 2, readonly ? 0u : 2u, 1, 1})) {
		case 0: { // get
			bool f = !err && fits(rp, (uint64_t) w, wp);
			uint64_t want = f ? value(rp, w) : 0;
			uint64_t got;
			unsigned special = (unsigned) c.draw(4);
			if (w == 1 && special == 1) {
				got = sc_buf_get_bool(&b);
				want = want != 0;
			} else if (w == 8 && special == 1) {
				double d = sc_buf_get_double(&b);
				memcpy(&got, &d, 8);
			} else {
				got = w == 1 ? sc_buf_get_8(&b) : w == 2 ? sc_buf_get_16(&b) : w == 4 ? sc_buf_get_32(&b) : sc_buf_get_64(&b);
			}
			c.trace("get_%d at %llu -> %llx", w * 8, (unsigned long long) rp, (unsigned long long) got);
			REQUIRE(c, got == want, "get_%d at %llu (wpos %llu) gives %llx, expected %llx", w * 8, (unsigned long long) rp,
				(unsigned long long) wp, (unsigned long long) got, (unsigned long long) want);
			if (f) rp += (uint64_t) w;
			note(f);
			break;
		}
		case 1: { // peek
			bool at = c.flip();
			uint64_t pos = at ? anypos() : rp;
			bool f = !err && fits(pos, (uint64_t) w, wp);
			uint64_t want = f ? value(pos, w) : 0;
			uint64_t got = at ? (w == 1 ? sc_buf_peek_8_at(&b, pos) : w == 2 ? sc_buf_peek_16_at(&b, pos) :
					     w == 4 ? sc_buf_peek_32_at(&b, pos) : sc_buf_peek_64_at(&b, pos))
					  : (w == 1 ? sc_buf_peek_8(&b) : w == 2 ? sc_buf_peek_16(&b) : w == 4 ? sc_buf_peek_32(&b) : sc_buf_peek_64(&b));
			c.trace("peek_%d at %llu -> %llx", w * 8, (unsigned long long) pos, (unsigned long long) got);
			REQUIRE(c, got == want, "peek_%d at %llu (wpos %llu) gives %llx, expected %llx", w * 8, (unsigned long long) pos,
				(unsigned long long) wp, (unsigned long long) got, (unsigned long long) want);
			note(f);
			break;
		}
		case 2: { // string
			bool f = !err && fits(rp, 8, wp);
			uint64_t len = f ? value(rp, 8) : 0;
			bool null = f && len == g_null_len;
			bool good = f && !null && len < UINT64_MAX && fits(rp + 8, len + 1, wp) && m[rp + 8 + len] == 0;
			const char *s = sc_buf_get_str(&b);
			c.trace("get_str at %llu (length %llu) -> %s", (unsigned long long) rp, (unsigned long long) len, s ? "text" : "NULL");
			if (good) {
				REQUIRE(c, s == (char *) mem.get() + rp + 8, "get_str at %llu returns a wrong pointer", (unsigned long long) rp);
				rp += 8 + len + 1;
				note(true);
			} else if (null) {
				REQUIRE(c, s == nullptr, "NULL marker decodes to text");
				rp += 8;
				note(true);
			} else {
				REQUIRE(c, s == nullptr, "get_str at %llu with length %llu (wpos %llu) returns text", (unsigned long long) rp,
					(unsigned long long) len, (unsigned long long) wp);
				uint64_t now = sc_buf_rpos(&b);
				REQUIRE(c, now == rp || (f && now == rp + 8), "failed get_str moved the read position to %llu", (unsigned long long) now);
				rp = now;
				note(false);
			}
			break;
		}
		case 3: { // blob
			uint64_t len = c.flip() ? c.draw(12) : anypos();
			bool f = fits(rp, len, wp);
			void *p = sc_buf_get_blob(&b, len);
			c.trace("get_blob %llu at %llu -> %s", (unsigned long long) len, (unsigned long long) rp, p ? "data" : "NULL");
			if (len == 0) {
				REQUIRE(c, p == nullptr, "empty blob is not NULL");
			} else if (err) {
				// after an error a fitting blob may or may not be refused, but never out of bounds
				REQUIRE(c, p == nullptr || (f && p == mem.get() + rp), "blob out of bounds after an error");
				rp = p ? rp + len : rp;
			} else if (f) {
				REQUIRE(c, p == mem.get() + rp, "blob of %llu at %llu wrong", (unsigned long long) len, (unsigned long long) rp);
				rp += len;
				note(true);
			} else {
				REQUIRE(c, p == nullptr, "blob of %llu at %llu with wpos %llu is returned", (unsigned long long) len,
					(unsigned long long) rp, (unsigned long long) wp);
				note(false);
			}
			break;
		}
		case 4: case 5: { // data
			bool peek = c.flip();
			size_t len = c.chance(1, 4) ? c.draw(cap + 10) : c.draw(12);
			uint64_t pos = peek ? anypos() : rp;
			bool f = !err && fits(pos, len, wp);
			std::unique_ptr<unsigned char[]> d(new unsigned char[len]);
			memset(d.get(), 0x77, len);
			if (peek) {
				uint64_t r = sc_buf_peek_data(&b, pos, d.get(), len);
				REQUIRE(c, r == (f ? len : 0), "peek_data(%llu, %zu) returns %llu", (unsigned long long) pos, len, (unsigned long long) r);
			} else {
				sc_buf_get_data(&b, d.get(), len);
			}
			c.trace("%s_data %zu at %llu", peek ? "peek" : "get", len, (unsigned long long) pos);
			std::string want = f ? m.substr(pos, len) : std::string(len, 0);
			REQUIRE(c, memcmp(d.get(), want.data(), len) == 0, "%s_data %zu at %llu gives %s, expected %s", peek ? "peek" : "get", len,
				(unsigned long long) pos, hex(d.get(), len).c_str(), hex(want.data(), len).c_str());
			if (!peek && f) rp += len;
			if (!peek && !f && err && len == 0) break; // nothing requested
			note(f);
			break;
		}
		case 6: { // set
			bool at = c.flip();
			uint64_t pos = at ? anypos() : wp, val = c.u64();
			bool f = !err && fits(pos, (uint64_t) w, cap);
			c.trace("set_%d at %llu", w * 8, (unsigned long long) pos);
			if (at) {
				switch (w) {
				case 1: sc_buf_set_8_at(&b, pos, (uint8_t) val); break;
				case 2: sc_buf_set_16_at(&b, pos, (uint16_t) val); break;
				case 4: sc_buf_set_32_at(&b, pos, (uint32_t) val); break;
				default: sc_buf_set_64_at(&b, pos, val); break;
				}
			} else {
				switch (w) {
				case 1: sc_buf_set_8(&b, (uint8_t) val); break;
				case 2: sc_buf_set_16(&b, (uint16_t) val); break;
				case 4: sc_buf_set_32(&b, (uint32_t) val); break;
				default: sc_buf_set_64(&b, val); break;
				}
			}
			if (f) m.replace(pos, (size_t) w, le(val, w));
			note(f);
			break;
		}
		case 7: { // set data
			size_t len = c.draw(12);
			uint64_t pos = anypos();
			std::string src = c.bytes(len);
			bool f = !err && fits(pos, len, cap);
			uint64_t r = sc_buf_set_data(&b, pos, src.data(), len);
			c.trace("set_data %zu at %llu -> %llu", len, (unsigned long long) pos, (unsigned long long) r);
			REQUIRE(c, r == (f ? len : 0), "set_data(%llu, %zu) returns %llu", (unsigned long long) pos, len, (unsigned long long) r);
			if (f) m.replace(pos, len, src);
			note(f);
			break;
		}
		case 8: {
			uint64_t pos = anypos();
			sc_buf_set_rpos(&b, pos);
			c.trace("set_rpos %llu", (unsigned long long) pos);
			if (pos <= wp) rp = pos;
			note(pos <= wp);
			break;
		}
		case 9: {
			uint64_t pos = anypos();
			sc_buf_set_wpos(&b, pos);
			c.trace("set_wpos %llu", (unsigned long long) pos);
			if (pos <= cap) wp = pos;
			note(pos <= cap);
			break;
		}
		case 10: {
			uint64_t n = rp <= wp ? c.draw(wp - rp + 1) : 0;
			sc_buf_mark_read(&b, n);
			rp += n;
			break;
		}
		default:
			if (c.chance(1, 3) && !readonly) {
				c.trace("clear");
				sc_buf_clear(&b);
				rp = wp = 0;
				err = false;
				size_t n = c.draw(cap + 1);
				sc_buf_mark_write(&b, n);
				wp = n;
				c.label("clear");
			}
		}
		REQUIRE(c, sc_buf_valid(&b) == !err, "error state is %d, expected %d", !sc_buf_valid(&b), (int) err);
		REQUIRE(c, sc_buf_rpos(&b) == rp, "read position %llu, expected %llu", (unsigned long long) sc_buf_rpos(&b), (unsigned long long) rp);
		REQUIRE(c, sc_buf_wpos(&b) == wp, "write position %llu, expected %llu", (unsigned long long) sc_buf_wpos(&b), (unsigned long long) wp);
	}
	if (readonly) ASAN_UNPOISON_MEMORY_REGION(mem.get() + wpos, extra);
	REQUIRE(c, memcmp(mem.get(), m.data(), cap) == 0, "buffer memory differs from the model: %s, expected %s",
		hex(mem.get(), cap).c_str(), hex(m.data(), cap).c_str());
	sc_buf_term(&b);
	if (err) c.label("ends in error");
	if (bad && ok_before_bad >= 3) c.nontrivial();
}
