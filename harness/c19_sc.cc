// C19: size conversion, power-of-two, min/max and the random generator against their definitions.
#include "pbt.h"
#include <ctype.h>
#include <errno.h>
#include <stdlib.h>
#include <algorithm>
extern "C" {
#include "sc.h"
int64_t c19_max_i(int64_t, int64_t); int64_t c19_min_i(int64_t, int64_t);
uint64_t c19_max_u(uint64_t, uint64_t); uint64_t c19_min_u(uint64_t, uint64_t);
double c19_max_d(double, double); double c19_min_d(double, double);
uint64_t c19_max_e(uint64_t, uint64_t, uint64_t); uint64_t c19_min_e(uint64_t, uint64_t, uint64_t);
uint64_t c19_max_t(uint64_t, uint64_t, uint64_t); uint64_t c19_min_t(uint64_t, uint64_t, uint64_t);
}
using namespace pbt;

const HarnessInfo harness_info = {
	"size texts (number near every unit's overflow boundary, zero, leading zeros, negative, up to 25 digits; unit in any case with optional "
	"b, with blanks before it, or garbage), byte counts near every unit boundary printed into buffers of 0..40 bytes, power-of-two "
	"arguments near powers of two, min/max over expressions, and random-generator streams read in random chunks compared with RC4. "
	"Non-trivial: every case except empty size texts."};

static const char *UN = "bkmgtpe";

static int64_t ref_size(const std::string &s, bool &open)
{
	// number unit? b?, returns -1 for anything else; 'open' where the documentation does not say
	size_t i = 0;
	open = false;
	unsigned __int128 v = 0;
	bool over = false;
	while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
		v = v * 10 + (unsigned) (s[i] - '0');
		if (v > (unsigned __int128) INT64_MAX) { over = true; v = (unsigned __int128) INT64_MAX + 1; }
		i++;
	}
	if (i == 0) {
		// white space or a sign in front is neither allowed nor refused explicitly
		if (s.size() && (isspace((unsigned char) s[0]) || s[0] == '+')) open = true;
		if (s.size() > 1 && s[0] == '-' && s[1] == '0') open = true; // minus zero
		return -1;
	}
	size_t j = i;
	while (j < s.size() && s[j] == ' ') j++;
	if (j == s.size()) {
		open = j > i; // blanks and nothing behind them
		return over ? -1 : (int64_t) v;
	}
	if (s.size() - j > 2) return -1;
	if (s.size() - j == 2 && tolower((unsigned char) s[j + 1]) != 'b') return -1;
	const char *u = strchr(UN, tolower((unsigned char) s[j]));
	if (!u || !*u) return -1;
	if (s.size() - j == 2 && u == UN) open = true; // "5bb"
	if (over) return -1;
	v <<= 10 * (u - UN);
	return v > (unsigned __int128) INT64_MAX ? -1 : (int64_t) v;
}

static void size_parse(Case &c)
{
	std::string s;
	int unit = (int) c.draw(7);
	switch (c.weighted({4, 2, 2, 2, 1, 1})) {
	case 0: {
		// around the largest number this unit allows
		uint64_t lim = (uint64_t) INT64_MAX >> (10 * unit);
		s = std::to_string(lim + (uint64_t) c.range(-3, 3));
		break;
	}
	case 1: s = std::to_string(c.draw(2000)); break;
	case 2: s = std::to_string(c.ubits()); break;
	case 3: s = (c.flip() ? "-" : "") + std::to_string(c.flip() ? c.draw(10) : c.ubits()); break;
	case 4: s = c.text(c.size(25), "0123456789"); break;
	default: s = std::to_string((uint64_t) INT64_MAX + (uint64_t) c.range(-2, 2)); break;
	}
	if (c.chance(1, 6)) s = std::string(c.draw(5), '0') + s;
	if (c.chance(1, 20)) s = c.text(1, " +-\t") + s;
	if (c.chance(1, 10)) s += std::string(1 + c.draw(2), ' ');
	if (c.chance(7, 8)) {
		char u = UN[unit];
		s += c.flip() ? u : (char) toupper(u);
		if (c.flip()) s += c.chance(1, 6) ? c.text(1, "xkB i\xc2") : c.text(1, "bB");
	}
	if (c.chance(1, 12)) s += c.text(1 + c.draw(3), "bBk 0.x\xff");
	if (c.chance(1, 40)) s += std::string(c.draw(600), 'b');
	char *in = (char *) malloc(s.size() + 1);
	memcpy(in, s.c_str(), s.size() + 1);
	bool open;
	int64_t want = ref_size(s, open);
	errno = c.flip() ? ERANGE : 0;
	int64_t got = sc_size_to_bytes(in);
	c.trace("size text %s: %lld", quote(s).c_str(), (long long) got);
	if (s.size() && !open) {
		REQUIRE(c, got == want, "sc_size_to_bytes(%s) is %lld, expected %lld", quote(s).c_str(), (long long) got, (long long) want);
		c.nontrivial();
		c.label(want >= 0 ? "size accepted" : "size refused");
	}
	REQUIRE(c, got >= -1, "sc_size_to_bytes(%s) is %lld", quote(s).c_str(), (long long) got);
	REQUIRE(c, memcmp(in, s.c_str(), s.size() + 1) == 0, "the text was modified");
	free(in);
}

static void size_print(Case &c)
{
	uint64_t v;
	switch (c.weighted({3, 3, 2, 1})) {
	case 0: v = (1ull << (10 * (1 + c.draw(6)))) + (uint64_t) c.range(-200, 200); break;
	case 1: v = c.ubits(); break;
	case 2: { // just below the next unit, in hundredths
		int sh = (int) (10 * c.draw(6));
		v = (uint64_t) ((unsigned __int128) (1024 * 100 - c.draw(20)) * ((uint64_t) 1 << sh) / 100) + (uint64_t) c.range(-3, 3);
		break;
	}
	default: v = c.draw(3000); break;
	}
	char full[64];
	memset(full, 0x55, sizeof full);
	char *r = sc_bytes_to_size(full, sizeof full, v);
	c.trace("%llu bytes: %s", (unsigned long long) v, r ? r : "NULL");
	REQUIRE(c, r == full, "printing %llu fails with 64 bytes of room", (unsigned long long) v);
	size_t n = strlen(full);
	if (v < 1024) {
		std::string want = std::to_string(v) + " B";
		REQUIRE(c, want == full, "%llu bytes are printed as %s, expected %s", (unsigned long long) v, full, want.c_str());
	} else {
		const char *sp = strchr(full, ' ');
		REQUIRE(c, sp && sp - full >= 4 && sp[-3] == '.' && sp[1] && sp[2] == 'B' && !sp[3], "malformed size text %s for %llu", quote(full).c_str(), (unsigned long long) v);
		const char *u = strchr("KMGTPE", sp[1]);
		REQUIRE(c, u && *u, "unknown unit in %s", full);
		int e = 10 * (int) (1 + std::string("KMGTPE").find(sp[1]));
		for (const char *q = full; q < sp; q++) REQUIRE(c, (*q >= '0' && *q <= '9') || q == sp - 3, "malformed number in %s", full);
		long double num = strtold(full, NULL), real = (long double) v / (long double) ((uint64_t) 1 << e);
		REQUIRE(c, num >= 1.0L && num < 1024.0L, "%llu bytes are printed as %s, not in the fitting unit", (unsigned long long) v, full);
		long double diff = num - real;
		if (diff < 0) diff = -diff;
		REQUIRE(c, diff <= 0.005L + 1.0L / 1024 + 1e-9L, "%llu bytes are printed as %s, off by more than the rounding", (unsigned long long) v, full);
	}
	// bounded buffers
	size_t len = c.flip() ? (size_t) c.range((int64_t) n - 1, (int64_t) n + 2) : c.draw(40);
	char *b = (char *) malloc(len ? len : 1);
	memset(b, 0x55, len);
	r = sc_bytes_to_size(b, len, v);
	if (len > n) REQUIRE(c, r == b && strcmp(b, full) == 0, "%s needs %zu bytes but is not printed into %zu", full, n + 1, len);
	else REQUIRE(c, r == NULL, "printing %llu into %zu bytes is not refused", (unsigned long long) v, len);
	free(b);
	c.nontrivial();
	c.label("size printed");
}

static void pow2(Case &c)
{
	uint64_t v = c.flip() ? (1ull << c.draw(64)) + (uint64_t) c.range(-2, 2) : c.u64();
	bool is = v && (v & (v - 1)) == 0;
	unsigned bits = 0;
	for (unsigned i = 0; i < 64; i++) bits += (v >> i) & 1;
	is = bits == 1;
	REQUIRE(c, sc_is_pow2(v) == is, "sc_is_pow2(%llu) is %d", (unsigned long long) v, sc_is_pow2(v));
	if (v <= 1ull << 63) {
		uint64_t want = 1;
		while (want < v) want *= 2;
		uint64_t got = sc_to_pow2(v);
		REQUIRE(c, got == want, "sc_to_pow2(%llu) is %llu, expected %llu", (unsigned long long) v, (unsigned long long) got, (unsigned long long) want);
	}
	uint64_t a = c.u64(), b = c.chance(1, 4) ? a : c.u64(), m = c.flip() ? c.draw(2) : c.u64();
	int64_t sa = (int64_t) a, sb = (int64_t) b;
	double da = (double) sa / 3, db = (double) sb / 7;
	c.trace("pow2 %llu, min/max %llu %llu %llu", (unsigned long long) v, (unsigned long long) a, (unsigned long long) b, (unsigned long long) m);
	bool ok = c19_max_u(a, b) == std::max(a, b) && c19_min_u(a, b) == std::min(a, b) && c19_max_i(sa, sb) == std::max(sa, sb) &&
		  c19_min_i(sa, sb) == std::min(sa, sb) && c19_max_d(da, db) == std::max(da, db) && c19_min_d(da, db) == std::min(da, db) &&
		  c19_max_e(a, b, m) == std::max(a & m, b | m) + 1 && c19_min_e(a, b, m) == std::min(a & m, b | m) + 1 &&
		  c19_max_t(a, b, m) == 2 * std::max(a, b) && c19_min_t(a, b, m) == 2 * std::min(a, b);
	REQUIRE(c, ok, "sc_min/sc_max of %llu and %llu (mask %llu) differ from arithmetic", (unsigned long long) a, (unsigned long long) b, (unsigned long long) m);
	c.nontrivial();
}

static void rnd(Case &c)
{
	unsigned char key[256];
	switch (c.draw(3)) {
	case 0: { std::string s = c.bytes(256); memcpy(key, s.data(), 256); break; }
	case 1: { unsigned char k = (unsigned char) c.draw(256); memset(key, k, 256); key[c.draw(256)] ^= (unsigned char) c.draw(256); break; }
	default: for (int i = 0; i < 256; i++) key[i] = (unsigned char) (i * (int) (1 + 2 * c.draw(3))); break;
	}
	size_t total = c.chance(1, 2000) ? 66000 + c.draw(3000) : c.size(3000);
	// RC4 keyed with the 256 bytes
	std::string want;
	unsigned char S[256], j = 0, i8 = 0;
	for (int i = 0; i < 256; i++) S[i] = (unsigned char) i;
	for (int i = 0; i < 256; i++) { j = (unsigned char) (j + S[i] + key[i]); std::swap(S[i], S[j]); }
	// like sqlite's generator, which this one names as its base, it goes on with the key schedule's j
	for (size_t k = 0; k < total; k++) {
		i8++;
		j = (unsigned char) (j + S[i8]);
		std::swap(S[i8], S[j]);
		want += (char) S[(unsigned char) (S[i8] + S[j])];
	}
	unsigned char key2[256];
	memcpy(key2, key, 256);
	sc_rand r;
	memset(&r, (int) c.draw(256), sizeof r); // whatever was there before
	sc_rand_init(&r, key2);
	REQUIRE(c, memcmp(key, key2, 256) == 0, "the seed was modified");
	memset(key2, 0, 256);
	std::string got;
	while (got.size() < total) {
		size_t n = c.flip() ? total - got.size() : 1 + c.draw(std::min<size_t>(c.chance(1, 10) ? 5000 : 40, total - got.size()));
		if (c.chance(1, 8)) { char x = 7; sc_rand_read(&r, &x, -(int) c.draw(3)); REQUIRE(c, x == 7, "reading nothing wrote a byte"); }
		if (c.chance(1, 16)) sc_rand_read(&r, NULL, (int) c.draw(10));
		char *b = (char *) malloc(n);
		sc_rand_read(&r, b, (int) n);
		got.append(b, n);
		free(b);
		size_t at = 0;
		while (at < got.size() && got[at] == want[at]) at++;
		REQUIRE(c, at == got.size(), "byte %zu of the random stream is %02x, RC4 gives %02x", at, (unsigned char) got[at], (unsigned char) want[at]);
	}
	c.trace("random stream of %zu bytes", total);
	c.nontrivial();
	c.label("random stream");
}

void run_case(Case &c)
{
	switch (c.weighted({6, 4, 2, 1})) {
	case 0: size_parse(c); break;
	case 1: size_print(c); break;
	case 2: pow2(c); break;
	default: rnd(c); break;
	}
}
