/* Instances of the queue macros over several element types and argument spellings. */
#include "c07_shim.h"
#include "sc_queue.h"

struct big {
	uint64_t v;
	char pad[41];
	unsigned char tag;
};
struct odd {
	unsigned char b[3];
};
sc_queue_def(struct big, big);
sc_queue_def(struct odd, odd);
sc_queue_def(unsigned char, u8);

unsigned long q_evals;
static size_t once_sz(size_t v)
{
	q_evals++;
	return v;
}
static char pool[65536];
static int mk_int(uint64_t v) { return (int) v; }
static uint64_t un_int(int v) { return (uint64_t) (unsigned) v; }
static uint64_t mk_64(uint64_t v) { return v; }
static uint64_t un_64(uint64_t v) { return v; }
static double mk_dbl(uint64_t v) { return (double) (int64_t) (v & 0xffffffff) - 2147483648.0; }
static uint64_t un_dbl(double v) { return (uint64_t) (v + 2147483648.0); }
static const char *mk_str(uint64_t v) { return &pool[v & 0xffff]; }
static uint64_t un_str(const char *v) { return (uint64_t) (v - pool); }
static long mk_long(uint64_t v) { return (long) v; }
static uint64_t un_long(long long v) { return (uint64_t) v; }
static void *mk_ptr(uint64_t v) { return &pool[v & 0xffff]; }
static uint64_t un_ptr(void *v) { return (uint64_t) ((char *) v - pool); }
typedef void *pvoid;
static struct big mk_big(uint64_t v)
{
	struct big b;
	memset(&b, (int) (v * 7), sizeof(b));
	b.v = v;
	b.tag = (unsigned char) (v * 31);
	return b;
}
static uint64_t un_big(struct big b)
{
	size_t i;
	for (i = 0; i < sizeof(b.pad); i++) {
		if ((unsigned char) b.pad[i] != (unsigned char) (b.v * 7)) {
			return ~b.v;
		}
	}
	return b.tag == (unsigned char) (b.v * 31) ? b.v : ~b.v;
}
static struct odd mk_odd(uint64_t v)
{
	struct odd o = {{(unsigned char) v, (unsigned char) (v >> 8), (unsigned char) (v >> 16)}};
	return o;
}
static uint64_t un_odd(struct odd o) { return o.b[0] | (uint64_t) o.b[1] << 8 | (uint64_t) o.b[2] << 16; }

#define ADD(WHICH, N, T, MK)                                                                                           \
	static void f_##N##_##WHICH(void *p, uint64_t v, int form)                                                     \
	{                                                                                                              \
		que_##N *q = p;                                                                                        \
		switch (form) {                                                                                        \
		case 0: sc_queue_##WHICH(q, MK(v)); break;                                                             \
		case 1: { T pos = MK(v); T cap = MK(~v); sc_queue_##WHICH(q, (v | 1) ? pos : cap); break; }            \
		case 2: { T last = MK(v); que_##N *first = q; sc_queue_##WHICH(first, last); break; }                  \
		case 3: q_evals = 0; sc_queue_##WHICH(q, once_##N(v)); break;                                          \
		case 4: { T t[2]; size_t i = 0; t[0] = MK(~v); t[1] = MK(v); sc_queue_##WHICH(&q[i], t[i + 1]); break; } \
		case 5: { T len = MK(v); T *off = &len; if (v + 1) sc_queue_##WHICH(q, *off); else sc_queue_##WHICH(q, len); break; } \
		default: { T oom = MK(v); struct { int x; que_##N *a; } s = {0, q}; sc_queue_##WHICH(s.a, oom); break; } \
		}                                                                                                      \
	}

#define INSTANCE(N, T, MASK, MK, UN)                                                                                   \
	typedef struct sc_queue_##N que_##N;                                                                           \
	static T once_##N(uint64_t v) { q_evals++; return MK(v); }                                                     \
	static void f_##N##_init(void *p) { que_##N *q = p; sc_queue_init(q); }                                        \
	static void f_##N##_term(void *p) { que_##N *q = p; sc_queue_term(q); }                                        \
	static void f_##N##_clear(void *p) { que_##N *q = p; sc_queue_clear(q); }                                      \
	ADD(add_last, N, T, MK)                                                                                        \
	ADD(add_first, N, T, MK)                                                                                       \
	static void f_##N##_add_peeked(void *p, int at_first, size_t i)                                                \
	{                                                                                                              \
		que_##N *q = p;                                                                                        \
		size_t n = sc_queue_size(q);                                                                           \
		/* the element given as an expression over the queue itself, or through a variable */                  \
		if (at_first & 2) {                                                                                    \
			T elem = sc_queue_at(q, i);                                                                    \
			if (at_first & 1) sc_queue_add_first(q, elem); else sc_queue_add_last(q, elem);                \
		} else if (i == 0 && (at_first & 4)) {                                                                 \
			if (at_first & 1) sc_queue_add_first(q, sc_queue_peek_first(q)); else sc_queue_add_last(q, sc_queue_peek_first(q)); \
		} else if (i == n - 1 && (at_first & 4)) {                                                             \
			if (at_first & 1) sc_queue_add_first(q, sc_queue_peek_last(q)); else sc_queue_add_last(q, sc_queue_peek_last(q)); \
		} else {                                                                                               \
			if (at_first & 1) sc_queue_add_first(q, sc_queue_at(q, i)); else sc_queue_add_last(q, sc_queue_at(q, i)); \
		}                                                                                                      \
	}                                                                                                              \
	static void f_##N##_rotate(void *p, int dir)                                                                   \
	{                                                                                                              \
		que_##N *q = p;                                                                                        \
		T elem;                                                                                                \
		if (dir) { elem = sc_queue_del_first(q); sc_queue_add_last(q, elem); }                                 \
		else { elem = sc_queue_del_last(q); sc_queue_add_first(q, elem); }                                     \
	}                                                                                                              \
	static uint64_t f_##N##_del_last(void *p) { que_##N *q = p; return UN(sc_queue_del_last(q)); }                 \
	static uint64_t f_##N##_del_first(void *p) { que_##N *q = p; return UN(sc_queue_del_first(q)); }               \
	static uint64_t f_##N##_peek_last(void *p) { que_##N *q = p; return UN(sc_queue_peek_last(q)); }               \
	static uint64_t f_##N##_peek_first(void *p) { que_##N *q = p; return UN(sc_queue_peek_first(q)); }             \
	static int f_##N##_oom(void *p) { que_##N *q = p; return sc_queue_oom(q); }                                    \
	static int f_##N##_empty(void *p) { que_##N *q = p; return sc_queue_empty(q); }                                \
	static size_t f_##N##_size(void *p) { que_##N *q = p; return sc_queue_size(q); }                               \
	static uint64_t f_##N##_at(void *p, size_t i, int form)                                                        \
	{                                                                                                              \
		que_##N *q = p;                                                                                        \
		size_t z = 0;                                                                                          \
		switch (form) {                                                                                        \
		case 1: { size_t pos = i; return UN(sc_queue_at(q, pos)); }                                            \
		case 2: return UN(sc_queue_at(&q[z], i + z));                                                          \
		case 3: q_evals = 0; return UN(sc_queue_at(q, once_sz(i)));                                            \
		case 4: return UN(sc_queue_at(q, z ? z : i));                                                          \
		case 5: { int first = (int) i; return UN(sc_queue_at(q, first | (int) z)); }                           \
		default: return UN(sc_queue_at(q, i));                                                                 \
		}                                                                                                      \
	}                                                                                                              \
	static void f_##N##_set(void *p, size_t i, uint64_t v) { que_##N *q = p; sc_queue_at(q, i) = MK(v); }          \
	static size_t f_##N##_walk(void *p, uint64_t *out, size_t max)                                                 \
	{                                                                                                              \
		que_##N *q = p;                                                                                        \
		size_t n = 0, i;                                                                                       \
		for (i = sc_queue_first(q); i != sc_queue_last(q) && n <= max; i = sc_queue_next(q, i)) {              \
			if (n < max) out[n] = UN(q->elems[i]);                                                         \
			n++;                                                                                           \
		}                                                                                                      \
		return n;                                                                                              \
	}                                                                                                              \
	static size_t f_##N##_foreach(void *p, uint64_t *out, size_t max, size_t stop)                                 \
	{                                                                                                              \
		que_##N *q = p;                                                                                        \
		T elem;                                                                                                \
		size_t n = 0, left = 0;                                                                                \
		sc_queue_foreach (q, elem) {                                                                           \
			if (left++) return (size_t) -1; /* break left the loop? */                                     \
			if (n == stop) break;                                                                          \
			left = 0;                                                                                      \
			out[n < max ? n : max - 1] = UN(elem);                                                         \
			if (n++ > max) break;                                                                          \
			if (n % 3 == 1) continue;                                                                      \
		}                                                                                                      \
		return n;                                                                                              \
	}                                                                                                              \
	static size_t f_##N##_pairs(void *p1, void *p2, uint64_t *out, size_t max)                                     \
	{                                                                                                              \
		que_##N *a = p1, *b = p2;                                                                              \
		T x; T y;                                                                                              \
		size_t n = 0;                                                                                          \
		sc_queue_foreach (a, x) {                                                                              \
			sc_queue_foreach (b, y) {                                                                      \
				if (2 * n + 1 < max) {                                                                 \
					out[2 * n] = UN(x);                                                            \
					out[2 * n + 1] = UN(y);                                                        \
				}                                                                                      \
				n++;                                                                                   \
			}                                                                                              \
		}                                                                                                      \
		return n;                                                                                              \
	}

typedef const char *cstr;
INSTANCE(int, int, 0xffffffff, mk_int, un_int)
INSTANCE(64, uint64_t, ~0ull, mk_64, un_64)
INSTANCE(double, double, 0xffffffff, mk_dbl, un_dbl)
INSTANCE(str, cstr, 0xffff, mk_str, un_str)
INSTANCE(uint, unsigned int, 0xffffffff, (unsigned int) mk_64, un_64)
INSTANCE(long, long, ~0ull, mk_long, un_long)
INSTANCE(ll, long long, ~0ull, mk_long, un_long)
INSTANCE(ulong, unsigned long, ~0ull, mk_64, un_64)
INSTANCE(ull, unsigned long long, ~0ull, mk_64, un_64)
INSTANCE(32, uint32_t, 0xffffffff, (uint32_t) mk_64, un_64)
INSTANCE(ptr, pvoid, 0xffff, mk_ptr, un_ptr)
INSTANCE(u8, unsigned char, 0xff, mk_64, un_64)
INSTANCE(big, struct big, ~0ull, mk_big, un_big)
INSTANCE(odd, struct odd, 0xffffff, mk_odd, un_odd)

#define ROW(N, T, MASK)                                                                                                \
	{#N, sizeof(que_##N), sizeof(T), MASK, f_##N##_init, f_##N##_term, f_##N##_clear, f_##N##_add_last,            \
	 f_##N##_add_first, f_##N##_add_peeked, f_##N##_rotate, f_##N##_del_last, f_##N##_del_first, f_##N##_peek_last, \
	 f_##N##_peek_first, f_##N##_oom, f_##N##_empty, f_##N##_size, f_##N##_at, f_##N##_set, f_##N##_walk,          \
	 f_##N##_foreach, f_##N##_pairs}

const struct q_ops q_ops_tab[] = {
	ROW(int, int, 0xffffffff), ROW(64, uint64_t, ~0ull), ROW(double, double, 0xffffffff), ROW(str, cstr, 0xffff),
	ROW(uint, unsigned int, 0xffffffff), ROW(long, long, ~0ull), ROW(ll, long long, ~0ull), ROW(ulong, unsigned long, ~0ull), ROW(ull, unsigned long long, ~0ull), ROW(32, uint32_t, 0xffffffff), ROW(ptr, pvoid, 0xffff),
	ROW(u8, unsigned char, 0xff), ROW(big, struct big, ~0ull), ROW(odd, struct odd, 0xffffff),
};
const size_t q_ops_count = sizeof(q_ops_tab) / sizeof(q_ops_tab[0]);
