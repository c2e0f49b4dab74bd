// C18: CRC-32C against the bit-by-bit definition; built once table-driven and once with the SSE4.2 instructions.
#include "pbt.h"
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
extern "C" {
#include "sc_crc32.h"
}
using namespace pbt;

const HarnessInfo harness_info = {
	"a byte string (all zero, all ones, sparse, text, random) of 0..20000 bytes (boundary lengths of the 8-byte, 3*256 and 3*2048-byte "
	"loops favoured, a few up to 200000), at an alignment 0..15 in memory ending exactly at its last byte, with starting value 0 or any; "
	"compared with bit-by-bit CRC-32C, then the same data in up to 8 pieces. Non-trivial: at least 9 bytes. Rarely 2 or 4 GB "
	"of zeros with a few other bytes, against the linear operator of the definition."};

static uint32_t step_tbl[256];

static uint32_t ref_byte(uint32_t crc, uint8_t b) // polynomial division, one bit at a time
{
	crc ^= b;
	for (int k = 0; k < 8; k++) crc = crc & 1 ? (crc >> 1) ^ 0x82f63b78u : crc >> 1;
	return crc;
}

static uint32_t ref(uint32_t crc, const uint8_t *p, size_t n)
{
	crc = ~crc;
	for (size_t i = 0; i < n; i++) crc = step_tbl[(crc ^ p[i]) & 0xff] ^ (crc >> 8);
	return ~crc;
}

// the register after n zero bytes: the bit-by-bit step is linear, so square its matrix
static uint32_t zeros(uint32_t reg, uint64_t n)
{
	uint32_t m[32], q[32];
	auto apply = [](const uint32_t *t, uint32_t v) {
		uint32_t r = 0;
		for (int i = 0; v; v >>= 1, i++) if (v & 1) r ^= t[i];
		return r;
	};
	for (int i = 0; i < 32; i++) m[i] = ref_byte(1u << i, 0);
	for (; n; n >>= 1) {
		if (n & 1) reg = apply(m, reg);
		for (int i = 0; i < 32; i++) q[i] = apply(m, m[i]);
		memcpy(m, q, sizeof m);
	}
	return reg;
}

// gigabytes of zeros (pages nobody wrote to take no memory) with something at both ends and in the middle
static void gigabytes(Case &c)
{
	size_t n = ((size_t) 1 << (c.flip() ? 31 : 32)) + c.draw(5000) - 1000, off = c.draw(16), room = n + 4096;
	uint8_t *mem = (uint8_t *) mmap(NULL, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (mem == MAP_FAILED) { c.label("no room for gigabytes"); return; }
	uint8_t *p = mem + off;
	size_t mid = 1000 + c.draw(n - 2000);
	for (int i = 0; i < 3; i++) p[i] = (uint8_t) c.draw(256), p[mid + (size_t) i] = (uint8_t) c.draw(256), p[n - 3 + (size_t) i] = (uint8_t) c.draw(256);
	uint32_t start = (uint32_t) c.u64(), r = ~start;
	auto some = [&](size_t at) { for (int i = 0; i < 3; i++) r = ref_byte(r, p[at + (size_t) i]); };
	some(0);
	r = zeros(r, mid - 3);
	some(mid);
	r = zeros(r, n - 3 - (mid + 3));
	some(n - 3);
	c.trace("%zu bytes, mostly zero, at alignment %zu, start %08x", n, off, start);
	uint32_t got = sc_crc32(start, p, n);
	munmap(mem, room);
	REQUIRE(c, got == ~r, "crc of %zu bytes from %08x is %08x, CRC-32C is %08x", n, start, got, ~r);
	c.label("gigabytes");
	c.nontrivial();
}

void harness_init()
{
	for (unsigned i = 0; i < 256; i++) step_tbl[i] = ref_byte(0, (uint8_t) i);
	// the speed-up itself is checked against the definition
	uint32_t a = 0x12345678, b = ~a;
	uint8_t t[64];
	for (unsigned i = 0; i < 64; i++) { t[i] = (uint8_t) (i * 37 + 11); b = ref_byte(b, t[i]); }
	uint32_t z = ref_byte(~a, 9);
	for (int i = 0; i < 1000; i++) z = ref_byte(z, 0);
	if (zeros(ref_byte(~a, 9), 1000) != z) abort();
	if (ref(a, t, 64) != ~b || ref(0, (const uint8_t *) "123456789", 9) != 0xe3069283u) abort();
#ifdef CRC_HW
	if (!__builtin_cpu_supports("sse4.2")) return;
#endif
	sc_crc32_init();
}

void run_case(Case &c)
{
#ifdef CRC_HW
	if (!__builtin_cpu_supports("sse4.2")) { c.label("no SSE4.2 on this machine"); return; }
#endif
	if (c.chance(1, 100000)) return gigabytes(c);
	size_t n;
	switch (c.weighted({6, 3, 3, 3, 1})) {
	case 0: n = c.draw(40); break;
	case 1: n = (size_t) c.range(0, 3) * 768 + (size_t) c.range(0, 40); break;
	case 2: n = (size_t) c.range(0, 2) * 6144 + (size_t) c.range(0, 3) * 768 + (size_t) c.range(0, 40); break;
	case 3: n = c.draw(20000); break;
	default: n = c.chance(1, 10) ? c.draw(200000) : c.draw(7000); break;
	}
	size_t off = c.draw(16);
	uint32_t start = c.flip() ? 0 : (uint32_t) c.u64();
	// memory that ends exactly with the data
	uint8_t *mem = (uint8_t *) malloc(off + n ? off + n : 1), *p = mem + off;
	int kind = (int) c.draw(5);
	uint64_t x = c.draw(0) | 1;
	for (size_t i = 0; i < n; i++) {
		x ^= x << 13; x ^= x >> 7; x ^= x << 17;
		p[i] = kind == 0 ? (uint8_t) (x >> 24) : kind == 1 ? 0 : kind == 2 ? 0xff : kind == 3 ? (uint8_t) ('a' + x % 26) : (x % 97 == 0 ? (uint8_t) x : 0);
	}
	for (size_t i = 0; i < n && i < 4; i++) p[c.draw(n)] = (uint8_t) c.draw(256);
	uint32_t want = ref(start, p, n);
	c.trace("%zu bytes at alignment %zu, start %08x, kind %d", n, off, start, kind);
	uint32_t got = sc_crc32(start, p, n);
	REQUIRE(c, got == want, "crc of %zu bytes at alignment %zu from %08x is %08x, CRC-32C is %08x (%s)", n, off, start, got, want, hex(p, n, 40).c_str());
	// in pieces
	uint32_t crc = start;
	size_t pos = 0;
	unsigned pieces = (unsigned) c.draw(8);
	for (unsigned i = 0; i <= pieces; i++) {
		size_t k = i == pieces ? n - pos : c.flip() ? c.draw(n - pos + 1) : c.draw(n - pos < 20 ? n - pos + 1 : 20);
		crc = sc_crc32(crc, p + pos, k);
		pos += k;
		REQUIRE(c, crc == ref(start, p, pos), "after feeding %zu of %zu bytes in %u pieces the crc is %08x, CRC-32C is %08x", pos, n, i + 1, crc, ref(start, p, pos));
	}
	REQUIRE(c, ref(start, p, n) == want, "the input was modified");
	if (c.chance(1, 1000)) {
		sc_crc32_init(); // once globally, but must stay right
		REQUIRE(c, sc_crc32(start, p, n) == want, "the crc changes after a second initialisation");
	}
	free(mem);
	if (n >= 9) c.nontrivial();
	c.label(n < 8 ? "len<8" : n < 768 ? "len<768" : n < 6144 ? "len<6144" : "len>=6144");
}
