/* Instances of the array macros over several element types; "forms" vary the names and shapes of the
 * argument expressions. */
#include "c06_shim.h"
#include "sc_array.h"
#include <stdbool.h>

struct big {
	uint64_t v;
	char pad[41];
	unsigned char tag;
};
struct odd {
	unsigned char b[3];
};
sc_array_def(struct big, big);
sc_array_def(struct odd, odd);
sc_array_def(unsigned char, u8);

unsigned long arr_evals;

static size_t once_sz(size_t v)
{
	arr_evals++;
	return v;
}

static char pool[65536];
static int mk_int(uint64_t v) { return (int) v; }
static uint64_t un_int(int v) { return (uint64_t) (unsigned) v; }
static uint64_t mk_64(uint64_t v) { return v; }
static uint64_t un_64(uint64_t v) { return v; }
static double mk_dbl(uint64_t v) { return (double) (int64_t) (v & 0xffffffff) - 2147483648.0; }
static uint64_t un_dbl(double v) { return (uint64_t) (v + 2147483648.0); }
static const char *mk_str(uint64_t v) { return &pool[v & 0xffff]; }
static uint64_t un_str(const char *v) { return (uint64_t) (v - pool); }
static unsigned char mk_u8(uint64_t v) { return (unsigned char) v; }
static uint64_t un_u8(unsigned char v) { return v; }
static long mk_long(uint64_t v) { return (long) v; }
static uint64_t un_long(long long v) { return (uint64_t) v; }
static void *mk_ptr(uint64_t v) { return &pool[v & 0xffff]; }
static uint64_t un_ptr(void *v) { return (uint64_t) ((char *) v - pool); }
typedef void *pvoid;
static struct big mk_big(uint64_t v)
{
	struct big b;
	memset(&b, (int) (v * 7), sizeof(b));
	b.v = v;
	b.tag = (unsigned char) (v * 31);
	return b;
}
static uint64_t un_big(struct big b)
{
	size_t i;
	for (i = 0; i < sizeof(b.pad); i++) {
		if ((unsigned char) b.pad[i] != (unsigned char) (b.v * 7)) {
			return ~b.v;
		}
	}
	return b.tag == (unsigned char) (b.v * 31) ? b.v : ~b.v;
}
static struct odd mk_odd(uint64_t v)
{
	struct odd o = {{(unsigned char) v, (unsigned char) (v >> 8), (unsigned char) (v >> 16)}};
	return o;
}
static uint64_t un_odd(struct odd o) { return o.b[0] | (uint64_t) o.b[1] << 8 | (uint64_t) o.b[2] << 16; }

#define K_ID(v) (v)
#define K_LONG(v) ((v) ^ (1ull << 63))
#define K_INT(v) ((uint64_t) (int64_t) (int) (v) ^ (1ull << 63))

#define INSTANCE(N, T, MASK, MK, UN, KEY)                                                                              \
	typedef struct sc_array_##N arr_##N;                                                                           \
	static T once_##N(uint64_t v) { arr_evals++; return MK(v); }                                                   \
	static void f_##N##_init(void *p) { arr_##N *a = p; sc_array_init(a); }                                            \
	static void f_##N##_term(void *p) { arr_##N *a = p; sc_array_term(a); }                                            \
	static void f_##N##_clear(void *p) { arr_##N *a = p; sc_array_clear(a); }                                          \
	static void f_##N##_add(void *p, uint64_t v, int form)                                                             \
	{                                                                                                              \
		arr_##N *a = p;                                                                                        \
		switch (form) {                                                                                        \
		case 0: sc_array_add(a, MK(v)); break;                                                                 \
		case 1: { T k = MK(v); sc_array_add(a, k); break; }                                                    \
		case 2: { T idx = MK(v); arr_##N *size = a; sc_array_add(size, idx); break; }                          \
		case 3: { T cap = MK(v); T elems = MK(~v); bool yes = (v | 1) != 0; sc_array_add(&*a, yes ? cap : elems); break; } \
		case 4: arr_evals = 0; sc_array_add(a, once_##N(v)); break;                                            \
		case 5: { T t[2]; t[0] = MK(~v); t[1] = MK(v); size_t i = 0; (void) i; sc_array_add(a, t[i + 1]); break; } \
		case 6: { T max = MK(v); T *ptr = &max; if (v + 1) sc_array_add(a, *ptr); else sc_array_add(a, max); break; } \
		default: { T oom = MK(v); struct { int x; arr_##N *a; } s = {0, a}; sc_array_add(s.a, oom); break; }   \
		}                                                                                                      \
	}                                                                                                              \
	static void f_##N##_add_copy(void *p, size_t i) { arr_##N *a = p; sc_array_add(a, sc_array_at(a, i)); }            \
	static int f_##N##_oom(void *p) { arr_##N *a = p; return sc_array_oom(a); }                                        \
	static size_t f_##N##_size(void *p) { arr_##N *a = p; return sc_array_size(a); }                                   \
	static uint64_t f_##N##_at(void *p, size_t i, int form)                                                            \
	{                                                                                                              \
		arr_##N *a = p;                                                                                        \
		size_t z = 0;                                                                                          \
		switch (form) {                                                                                        \
		case 1: { size_t idx = i; return UN(sc_array_at(a, idx)); }                                            \
		case 2: return UN(sc_array_at(&a[z], i + z));                                                          \
		case 3: return UN(sc_array_at(a, z ? z : i));                                                          \
		case 4: arr_evals = 0; return UN(sc_array_at(a, once_sz(i)));                                          \
		case 5: { int k = (int) i; return UN(sc_array_at(a, k)); }                                             \
		default: return UN(sc_array_at(a, i));                                                                 \
		}                                                                                                      \
	}                                                                                                              \
	static void f_##N##_set(void *p, size_t i, uint64_t v) { arr_##N *a = p; sc_array_at(a, i) = MK(v); }              \
	static const void *f_##N##_addr(void *p, size_t i) { arr_##N *a = p; return &sc_array_at(a, i); }                  \
	static void f_##N##_del(void *p, size_t pos, int form)                                                             \
	{                                                                                                              \
		arr_##N *a = p;                                                                                        \
		switch (form) {                                                                                        \
		case 0: sc_array_del(a, pos); break;                                                                   \
		case 1: { size_t idx = pos; sc_array_del(a, idx); break; }                                             \
		case 2: { size_t z = 0, idx = pos; (void) z; sc_array_del(&a[z], idx + z); break; }                    \
		case 3: { int idx = (int) pos; bool yes = true; sc_array_del(a, yes ? idx : 0); break; }               \
		case 4: arr_evals = 0; sc_array_del(a, once_sz(pos)); break;                                           \
		case 5: { size_t cnt = pos, size = 1; sc_array_del(a, cnt + size - 1); break; }                        \
		case 6: { size_t from_end = sc_array_size(a) - pos; sc_array_del(a, sc_array_size(a) - from_end); break; } \
		default: { unsigned i = (unsigned) pos; if (i + 1) sc_array_del(a, i); else sc_array_del(a, 0); break; } \
		}                                                                                                      \
	}                                                                                                              \
	static void f_##N##_del_un(void *p, size_t pos, int form)                                                          \
	{                                                                                                              \
		arr_##N *a = p;                                                                                        \
		switch (form) {                                                                                        \
		case 0: sc_array_del_unordered(a, pos); break;                                                         \
		case 1: { size_t idx = pos; sc_array_del_unordered(a, idx); break; }                                   \
		case 2: { size_t z = 0, idx = pos; (void) z; sc_array_del_unordered(&a[z], idx + z); break; }          \
		case 3: { int idx = (int) pos; bool yes = true; sc_array_del_unordered(a, yes ? idx : 0); break; }     \
		case 4: arr_evals = 0; sc_array_del_unordered(a, once_sz(pos)); break;                                 \
		case 5: { size_t cnt = pos, size = 1; sc_array_del_unordered(a, cnt + size - 1); break; }              \
		case 6: { size_t from_end = sc_array_size(a) - pos; sc_array_del_unordered(a, sc_array_size(a) - from_end); break; } \
		default: { unsigned i = (unsigned) pos; if (i + 1) sc_array_del_unordered(a, i); else sc_array_del_unordered(a, 0); break; } \
		}                                                                                                      \
	}                                                                                                              \
	static void f_##N##_del_last(void *p) { arr_##N *a = p; sc_array_del_last(a); }                                    \
	static uint64_t f_##N##_last(void *p) { arr_##N *a = p; return UN(sc_array_last(a)); }                             \
	static int f_##N##_cmp(const void *x, const void *y)                                                               \
	{                                                                                                              \
		uint64_t p = KEY(UN(*(T const *) x)), q = KEY(UN(*(T const *) y));                                     \
		return p < q ? -1 : p > q;                                                                             \
	}                                                                                                              \
	static void f_##N##_sort(void *p) { arr_##N *a = p; sc_array_sort(a, f_##N##_cmp); }                                   \
	static size_t f_##N##_foreach(void *p, uint64_t *out, size_t max, size_t stop)                                     \
	{                                                                                                              \
		arr_##N *a = p;                                                                                        \
		T elem;                                                                                                \
		size_t n = 0, left = 0;                                                                                \
		sc_array_foreach (a, elem) {                                                                           \
			if (left++) return (size_t) -1; /* break left the loop? */                                     \
			if (n == stop) {                                                                               \
				break;                                                                                 \
			}                                                                                              \
			left = 0;                                                                                      \
			if (n % 3 == 1) {                                                                              \
				out[n < max ? n : max - 1] = UN(elem);                                                 \
				n++;                                                                                   \
				continue;                                                                              \
			}                                                                                              \
			out[n < max ? n : max - 1] = UN(elem);                                                         \
			n++;                                                                                           \
		}                                                                                                      \
		return n;                                                                                              \
	}                                                                                                              \
	static size_t f_##N##_pairs(void *p, void *q, uint64_t *out, size_t max)                                           \
	{                                                                                                              \
		arr_##N *a = p, *b = q;                                                                                \
		T x; T y;                                                                                              \
		size_t n = 0;                                                                                          \
		sc_array_foreach (a, x) {                                                                              \
			sc_array_foreach (b, y) {                                                                      \
				if (2 * n + 1 < max) {                                                                 \
					out[2 * n] = UN(x);                                                            \
					out[2 * n + 1] = UN(y);                                                        \
				}                                                                                      \
				n++;                                                                                   \
			}                                                                                              \
		}                                                                                                      \
		return n;                                                                                              \
	}                                                                                                              \
	static uint64_t f_##N##_key(uint64_t v) { return KEY(v); }

INSTANCE(int, int, 0xffffffff, mk_int, un_int, K_INT)
INSTANCE(32, uint32_t, 0xffffffff, (uint32_t) mk_64, un_64, K_ID)
INSTANCE(64, uint64_t, ~0ull, mk_64, un_64, K_ID)
INSTANCE(double, double, 0xffffffff, mk_dbl, un_dbl, K_ID)
INSTANCE(str, const char *, 0xffff, mk_str, un_str, K_ID)
INSTANCE(uint, unsigned int, 0xffffffff, (unsigned int) mk_64, un_64, K_ID)
INSTANCE(long, long, ~0ull, mk_long, un_long, K_LONG)
INSTANCE(ll, long long, ~0ull, mk_long, un_long, K_LONG)
INSTANCE(ulong, unsigned long, ~0ull, mk_64, un_64, K_ID)
INSTANCE(ull, unsigned long long, ~0ull, mk_64, un_64, K_ID)
INSTANCE(ptr, pvoid, 0xffff, mk_ptr, un_ptr, K_ID)
INSTANCE(u8, unsigned char, 0xff, mk_u8, un_u8, K_ID)
INSTANCE(big, struct big, ~0ull, mk_big, un_big, K_ID)
INSTANCE(odd, struct odd, 0xffffff, mk_odd, un_odd, K_ID)

#define ROW(N, T, MASK)                                                                                                \
	{#N, sizeof(arr_##N), sizeof(T), MASK, f_##N##_init, f_##N##_term, f_##N##_clear, f_##N##_add, f_##N##_add_copy, f_##N##_oom, f_##N##_size, \
	 f_##N##_at, f_##N##_set, f_##N##_addr, f_##N##_del, f_##N##_del_un, f_##N##_del_last, f_##N##_last, f_##N##_sort, f_##N##_foreach, f_##N##_pairs, f_##N##_key}

const struct arr_ops arr_ops[] = {
	ROW(int, int, 0xffffffff), ROW(32, uint32_t, 0xffffffff), ROW(64, uint64_t, ~0ull), ROW(double, double, 0xffffffff),
	ROW(str, const char *, 0xffff), ROW(uint, unsigned int, 0xffffffff), ROW(long, long, ~0ull), ROW(ll, long long, ~0ull), ROW(ulong, unsigned long, ~0ull), ROW(ull, unsigned long long, ~0ull), ROW(ptr, pvoid, 0xffff),
	ROW(u8, unsigned char, 0xff), ROW(big, struct big, ~0ull), ROW(odd, struct odd, 0xffffff),
};
const size_t arr_ops_count = sizeof(arr_ops) / sizeof(arr_ops[0]);
