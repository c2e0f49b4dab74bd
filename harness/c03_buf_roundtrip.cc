// C03: typed values written to a buffer read back identically; encoding and encoded lengths.
#include "pbt.h"
#include <cmath>
#include <memory>
extern "C" {
#include "sc_buf.h"
}
using namespace pbt;

const HarnessInfo harness_info = {
	"sequences of 1..60 typed values (boundary integers, any double bits, strings, NULL strings, embedded zeros, formatted "
	"strings, blobs, raw bytes) into an owned (any start capacity) or borrowed buffer, with reads, peeks, in-place overwrites and "
	"compaction in between; non-trivial: at least 4 values of 3 kinds were read back"};

enum Kind { BOOL, U8, U16, U32, U64, DBL, STR, STRLEN, NULLSTR, FMT, BLOB, RAW, NKIND };
static const char *kname[] = {"bool", "8", "16", "32", "64", "double", "str", "str_len", "null str", "fmt", "blob", "raw"};

struct Val {
	Kind k;
	uint64_t n;
	std::string s;   // content for text / blobs
	std::string enc; // expected encoding ("" for NULL: only its length is fixed)
	size_t len;
};

static std::string le(uint64_t v, int n)
{
	std::string r;
	for (int i = 0; i < n; i++) r += (char) (v >> (8 * i));
	return r;
}

static Val gen(Case &c)
{
	Val v;
	v.k = (Kind) c.draw(NKIND);
	v.n = 0;
	auto content = [&](bool nul) {
		size_t n = c.chance(1, 12) ? (c.chance(1, 200) ? 65500 + c.draw(1 << c.range(7, 20)) : 4000 + c.draw(300)) : c.size(60);
		std::string s;
		if (n > 64) {
			s.assign(n, 'x');
			for (size_t i = 0; i < n; i++) s[i] = (char) (1 + (i * 7 + n) % 255);
		} else {
			s = c.bytes(n);
			if (!nul)
				for (auto &ch : s)
					if (!ch) ch = 1;
		}
		return s;
	};
	switch (v.k) {
	case BOOL: v.n = c.draw(2); v.enc = le(v.n, 1); break;
	case U8: v.n = c.u64() & 0xff; v.enc = le(v.n, 1); break;
	case U16: v.n = c.u64() & 0xffff; v.enc = le(v.n, 2); break;
	case U32: v.n = c.u64() & 0xffffffff; v.enc = le(v.n, 4); break;
	case U64: v.n = c.u64(); v.enc = le(v.n, 8); break;
	case DBL: v.n = c.u64(); v.enc = le(v.n, 8); break;
	case STR: v.s = content(false); v.enc = le(v.s.size(), 8) + v.s + std::string(1, 0); break;
	case STRLEN: v.s = content(true); v.enc = le(v.s.size(), 8) + v.s + std::string(1, 0); break;
	case NULLSTR: v.n = c.draw(2); break;
	case FMT: {
		v.s = content(false);
		v.n = c.u64();
		char b[64];
		snprintf(b, sizeof b, "/%lld/%5.2f", (long long) v.n, 1.5);
		v.s += b;
		v.enc = le(v.s.size(), 8) + v.s + std::string(1, 0);
		break;
	}
	case BLOB: v.s = content(true); v.enc = le(v.s.size(), 8) + v.s; break;
	default: v.s = content(true); v.enc = v.s; break;
	}
	v.len = v.k == NULLSTR ? 8 : v.enc.size();
	return v;
}

static uint64_t advertised(const Val &v)
{
	double d;
	memcpy(&d, &v.n, 8);
	switch (v.k) {
	case BOOL: return sc_buf_bool_len(v.n != 0);
	case U8: return sc_buf_8_len((uint8_t) v.n);
	case U16: return sc_buf_16_len((uint16_t) v.n);
	case U32: return sc_buf_32_len((uint32_t) v.n);
	case U64: return sc_buf_64_len(v.n);
	case DBL: return sc_buf_double_len(d);
	case STR: case FMT: return sc_buf_str_len(v.s.c_str());
	case NULLSTR: return sc_buf_str_len(nullptr);
	case BLOB: return sc_buf_blob_len((void *) v.s.data(), v.s.size());
	default: return v.len;
	}
}

static void put(struct sc_buf *b, const Val &v)
{
	double d;
	memcpy(&d, &v.n, 8);
	Bytes bytes(v.s);
	Alloc a;
	switch (v.k) {
	case BOOL: sc_buf_put_bool(b, v.n != 0); break;
	case U8: sc_buf_put_8(b, (uint8_t) v.n); break;
	case U16: sc_buf_put_16(b, (uint16_t) v.n); break;
	case U32: sc_buf_put_32(b, (uint32_t) v.n); break;
	case U64: sc_buf_put_64(b, v.n); break;
	case DBL: sc_buf_put_double(b, d); break;
	case STR: sc_buf_put_str(b, v.s.c_str()); break;
	case STRLEN: sc_buf_put_str_len(b, bytes, v.s.size()); break;
	case NULLSTR: v.n ? sc_buf_put_str(b, nullptr) : sc_buf_put_str_len(b, nullptr, 7); break;
	case FMT: {
		char tail[64];
		snprintf(tail, sizeof tail, "/%lld/%5.2f", (long long) v.n, 1.5);
		std::string head = v.s.substr(0, v.s.size() - strlen(tail));
		sc_buf_put_fmt(b, "%s/%lld/%5.2f", head.c_str(), (long long) v.n, 1.5);
		break;
	}
	case BLOB: sc_buf_put_blob(b, bytes, v.s.size()); break;
	default: sc_buf_put_raw(b, bytes, v.s.size()); break;
	}
}

static void get(Case &c, struct sc_buf *b, const Val &v)
{
	uint64_t r0 = sc_buf_rpos(b), w0 = sc_buf_wpos(b);
	uint64_t got = 0;
	switch (v.k) {
	case BOOL: got = sc_buf_get_bool(b); break;
	case U8:
		if (sc_buf_peek_8(b) != v.n || sc_buf_peek_8_at(b, r0) != v.n) c.fail("peek_8 differs from the value put");
		got = sc_buf_get_8(b);
		break;
	case U16:
		if (sc_buf_peek_16(b) != v.n || sc_buf_peek_16_at(b, r0) != v.n) c.fail("peek_16 differs from the value put");
		got = sc_buf_get_16(b);
		break;
	case U32:
		if (sc_buf_peek_32(b) != v.n || sc_buf_peek_32_at(b, r0) != v.n) c.fail("peek_32 differs from the value put");
		got = sc_buf_get_32(b);
		break;
	case U64:
		if (sc_buf_peek_64(b) != v.n || sc_buf_peek_64_at(b, r0) != v.n) c.fail("peek_64 differs from the value put");
		got = sc_buf_get_64(b);
		break;
	case DBL: {
		double d = sc_buf_get_double(b);
		memcpy(&got, &d, 8);
		break;
	}
	case STR: case STRLEN: case FMT: {
		const char *s = sc_buf_get_str(b);
		REQUIRE(c, s != nullptr, "%s of length %zu reads back as NULL (valid=%d)", kname[v.k], v.s.size(), sc_buf_valid(b));
		REQUIRE(c, memcmp(s, v.s.data(), v.s.size()) == 0 && s[v.s.size()] == 0, "%s reads back differently: %s, expected %s",
			kname[v.k], quote(std::string(s, v.s.size())).c_str(), quote(v.s).c_str());
		got = v.n;
		break;
	}
	case NULLSTR: {
		const char *s = sc_buf_get_str(b);
		REQUIRE(c, s == nullptr && sc_buf_valid(b), "NULL string reads back as %p valid=%d", s, sc_buf_valid(b));
		got = v.n;
		break;
	}
	case BLOB: {
		uint64_t n = sc_buf_get_64(b);
		REQUIRE(c, n == v.s.size(), "blob length reads back as %llu, expected %zu", (unsigned long long) n, v.s.size());
		void *p = sc_buf_get_blob(b, n);
		REQUIRE(c, n == 0 || (p && memcmp(p, v.s.data(), n) == 0), "blob reads back differently");
		break;
	}
	default: {
		std::string d(v.s.size(), 'Z');
		if (c.flip()) {
			std::string d2(v.s.size(), 'Y');
			REQUIRE(c, sc_buf_peek_data(b, r0, (unsigned char *) &d2[0], d2.size()) == d2.size() && d2 == v.s,
				"peek_data differs from the bytes put");
		}
		sc_buf_get_data(b, &d[0], d.size());
		REQUIRE(c, d == v.s, "raw bytes read back differently: %s, expected %s", hex(d.data(), d.size()).c_str(),
			hex(v.s.data(), v.s.size()).c_str());
	}
	}
	if (v.k <= DBL) REQUIRE(c, got == v.n, "%s reads back as %llx, expected %llx", kname[v.k], (unsigned long long) got, (unsigned long long) v.n);
	REQUIRE(c, sc_buf_valid(b), "reading %s sets the error state", kname[v.k]);
	REQUIRE(c, sc_buf_rpos(b) == r0 + v.len, "reading %s consumed %llu bytes, expected %zu", kname[v.k],
		(unsigned long long) (sc_buf_rpos(b) - r0), v.len);
	REQUIRE(c, sc_buf_wpos(b) == w0, "reading %s moved the write position", kname[v.k]);
}

void run_case(Case &c)
{
	struct sc_buf b;
	pbt_alloc_reset();
	bool ref = c.chance(1, 3);
	size_t cap;
	switch (c.draw(4)) {
	case 0: cap = c.draw(40); break;
	case 1: cap = c.draw(300); break;
	case 2: cap = 4096 - 20 + c.draw(40); break;
	default: cap = 0; break;
	}
	if (ref) cap += c.draw(6000);
	std::unique_ptr<unsigned char[]> mem;
	if (ref) {
		mem.reset(new unsigned char[cap]); // exact size: ASan guards the end
		memset(mem.get(), 0x5a, cap);
		b = sc_buf_wrap(mem.get(), cap, SC_BUF_REF);
	} else {
		Alloc a;
		if (!sc_buf_init(&b, cap)) c.fail("init(%zu) failed", cap);
	}
	c.trace("%s buffer, capacity %zu", ref ? "borrowed" : "owned", cap);
	std::vector<Val> q;  // not yet read
	size_t head = 0;
	std::string bytes;   // expected unread encoding ('\0'-filled gap for NULL markers is resynced)
	size_t nread = 0;
	unsigned kinds = 0;
	size_t steps = 1 + c.draw(60);
	bool stopped = false;

	auto compare = [&] {
		REQUIRE(c, sc_buf_size(&b) == bytes.size(), "size is %llu, expected %zu", (unsigned long long) sc_buf_size(&b), bytes.size());
		REQUIRE(c, bytes.empty() || memcmp(sc_buf_rbuf(&b), bytes.data(), bytes.size()) == 0, "encoded bytes differ: %s, expected %s",
			hex(sc_buf_rbuf(&b), bytes.size()).c_str(), hex(bytes.data(), bytes.size()).c_str());
	};
	for (size_t i = 0; i < steps && !stopped; i++) {
		switch (c.weighted({10, 5, 3, 1, 1})) {
		case 0: {
			Val v = gen(c);
			uint64_t w0 = sc_buf_wpos(&b), r0 = sc_buf_rpos(&b), adv = advertised(v), cap0 = sc_buf_cap(&b);
			c.trace("put %s n=%llu len=%zu %s", kname[v.k], (unsigned long long) v.n, v.s.size(), hex(v.s.data(), v.s.size(), 16).c_str());
			REQUIRE(c, adv == v.len, "advertised length of %s is %llu, expected %zu", kname[v.k], (unsigned long long) adv, v.len);
			put(&b, v);
			bool fits = !ref || w0 + v.len <= cap0;
			if (!fits) {
				c.label("does not fit");
				REQUIRE(c, !sc_buf_valid(&b), "%s of %zu bytes with %llu left sets no error", kname[v.k], v.len,
					(unsigned long long) (cap0 - w0));
				REQUIRE(c, sc_buf_rpos(&b) == r0 && (bytes.empty() || memcmp(sc_buf_rbuf(&b), bytes.data(), bytes.size()) == 0),
					"failed put changed earlier bytes");
				stopped = true;
				break;
			}
			REQUIRE(c, sc_buf_valid(&b), "put of %s (%zu bytes, %llu free of %llu) sets the error state", kname[v.k], v.len,
				(unsigned long long) (cap0 - w0), (unsigned long long) cap0);
			REQUIRE(c, sc_buf_wpos(&b) == w0 + v.len, "put of %s advanced %llu bytes, expected %zu", kname[v.k],
				(unsigned long long) (sc_buf_wpos(&b) - w0), v.len);
			REQUIRE(c, sc_buf_rpos(&b) == r0, "put moved the read position");
			if (v.k == NULLSTR) v.enc = std::string((char *) sc_buf_at(&b, w0), 8);
			bytes += v.enc;
			if (cap0 != sc_buf_cap(&b)) c.label("grew");
			q.push_back(v);
			compare();
			break;
		}
		case 1:
			if (head < q.size()) {
				c.trace("get %s", kname[q[head].k]);
				get(c, &b, q[head]);
				bytes.erase(0, q[head].len);
				kinds |= 1u << q[head].k;
				head++;
				nread++;
				compare();
			}
			break;
		case 2: { // overwrite / peek inside the unread bytes
			static const int ws[] = {1, 2, 4, 8};
			int wi = (int) c.draw(4);
			size_t w = (size_t) ws[wi];
			// only overwrite inside integer values so that later decoding stays defined
			std::vector<size_t> at;
			size_t off = 0;
			for (size_t j = head; j < q.size(); off += q[j].len, j++) {
				if (q[j].k >= U8 && q[j].k <= U64 && q[j].len >= w) at.push_back(j);
			}
			if (at.empty()) break;
			size_t j = at[c.draw(at.size())];
			off = 0;
			for (size_t k = head; k < j; k++) off += q[k].len;
			size_t in = c.draw(q[j].len - w + 1);
			uint64_t val = c.u64();
			uint64_t pos = sc_buf_rpos(&b) + off + in, w0 = sc_buf_wpos(&b), r0 = sc_buf_rpos(&b);
			c.trace("overwrite %zu bytes at %llu", w, (unsigned long long) pos);
			std::string enc = le(val, (int) w);
			if (c.chance(1, 4)) {
				REQUIRE(c, sc_buf_set_data(&b, pos, enc.data(), w) == w, "set_data refused");
			} else {
				switch (w) {
				case 1: sc_buf_set_8_at(&b, pos, (uint8_t) val); break;
				case 2: sc_buf_set_16_at(&b, pos, (uint16_t) val); break;
				case 4: sc_buf_set_32_at(&b, pos, (uint32_t) val); break;
				default: sc_buf_set_64_at(&b, pos, val); break;
				}
			}
			bytes.replace(off + in, w, enc);
			q[j].enc.replace(in, w, enc);
			q[j].n = 0;
			for (size_t k = 0; k < q[j].len; k++) q[j].n |= (uint64_t) (unsigned char) q[j].enc[k] << (8 * k);
			REQUIRE(c, sc_buf_valid(&b) && sc_buf_wpos(&b) == w0 && sc_buf_rpos(&b) == r0, "overwriting moved a position");
			uint64_t back = w == 1 ? sc_buf_peek_8_at(&b, pos) : w == 2 ? sc_buf_peek_16_at(&b, pos) :
					w == 4 ? sc_buf_peek_32_at(&b, pos) : sc_buf_peek_64_at(&b, pos);
			uint64_t mask = w == 8 ? ~0ull : (1ull << (8 * w)) - 1;
			REQUIRE(c, back == (val & mask), "peek after overwrite gives %llx, expected %llx", (unsigned long long) back, (unsigned long long) (val & mask));
			c.label("overwrite");
			compare();
			break;
		}
		case 3:
			c.trace("compact");
			sc_buf_compact(&b);
			REQUIRE(c, sc_buf_rpos(&b) == 0, "compact leaves read position %llu", (unsigned long long) sc_buf_rpos(&b));
			compare();
			break;
		default: { // set at the write position does not advance it
			uint64_t w0 = sc_buf_wpos(&b);
			if (sc_buf_quota(&b) >= 8) {
				uint64_t val = c.u64();
				size_t w;
				switch (c.draw(4)) {
				case 0: sc_buf_set_8(&b, (uint8_t) val); w = 1; break;
				case 1: sc_buf_set_16(&b, (uint16_t) val); w = 2; break;
				case 2: sc_buf_set_32(&b, (uint32_t) val); w = 4; break;
				default: sc_buf_set_64(&b, val); w = 8; break;
				}
				std::string enc = le(val, (int) w);
				REQUIRE(c, sc_buf_valid(&b) && sc_buf_wpos(&b) == w0, "set at the write position moved it");
				REQUIRE(c, memcmp(sc_buf_wbuf(&b), enc.data(), w) == 0, "set at the write position stored %s, expected %s",
					hex(sc_buf_wbuf(&b), w).c_str(), hex(enc.data(), w).c_str());
			}
			compare();
		}
		}
	}
	if (!stopped) {
		for (; head < q.size(); head++) {
			get(c, &b, q[head]);
			bytes.erase(0, q[head].len);
			kinds |= 1u << q[head].k;
			nread++;
		}
		REQUIRE(c, sc_buf_size(&b) == 0, "%llu bytes left after reading everything", (unsigned long long) sc_buf_size(&b));
	}
	{
		Alloc a;
		sc_buf_term(&b);
	}
	REQUIRE(c, pbt_alloc_live == 0, "%ld allocations left after term", pbt_alloc_live);
	if (ref) c.label("borrowed");
	if (nread >= 4 && __builtin_popcount(kinds) >= 3) c.nontrivial();
}
