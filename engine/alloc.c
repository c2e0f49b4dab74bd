// Allocation accounting and fault injection through -Wl,--wrap.
#include <errno.h>
#include <stddef.h>
#include <stdint.h>

int pbt_alloc_on;
long pbt_alloc_live;
long pbt_alloc_count;
long pbt_alloc_fail_at = -1;
int pbt_alloc_fail_sticky;
long pbt_alloc_failed;
unsigned long pbt_alloc_cap;
long pbt_alloc_bytes, pbt_alloc_peak; /* usable bytes held while active */

size_t malloc_usable_size(void *p);

void *__real_malloc(size_t n);
void *__real_calloc(size_t m, size_t n);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);

void pbt_alloc_reset(void)
{
	pbt_alloc_on = 0;
	pbt_alloc_live = 0;
	pbt_alloc_count = 0;
	pbt_alloc_fail_at = -1;
	pbt_alloc_fail_sticky = 0;
	pbt_alloc_failed = 0;
	pbt_alloc_cap = 0;
	pbt_alloc_bytes = 0;
	pbt_alloc_peak = 0;
}

static void held(void *p, int sign)
{
	if (p == NULL) {
		return;
	}
	pbt_alloc_bytes += sign * (long) malloc_usable_size(p);
	if (pbt_alloc_bytes > pbt_alloc_peak) {
		pbt_alloc_peak = pbt_alloc_bytes;
	}
}

static int inject(size_t n)
{
	if (pbt_alloc_cap && n > pbt_alloc_cap) {
		pbt_alloc_failed++;
		errno = ENOMEM;
		return 1;
	}
	pbt_alloc_count++;
	if (pbt_alloc_fail_at < 0) {
		return 0;
	}
	if (pbt_alloc_fail_at > 0) {
		pbt_alloc_fail_at--;
		return 0;
	}
	if (!pbt_alloc_fail_sticky) {
		pbt_alloc_fail_at = -1;
	}
	pbt_alloc_failed++;
	errno = ENOMEM;
	return 1;
}

void *__wrap_malloc(size_t n)
{
	void *p;
	if (!pbt_alloc_on) {
		return __real_malloc(n);
	}
	if (inject(n)) {
		return NULL;
	}
	p = __real_malloc(n);
	pbt_alloc_live += p != NULL;
	held(p, 1);
	return p;
}

void *__wrap_calloc(size_t m, size_t n)
{
	void *p;
	if (!pbt_alloc_on) {
		return __real_calloc(m, n);
	}
	if (inject(n && m > SIZE_MAX / n ? SIZE_MAX : m * n)) {
		return NULL;
	}
	p = __real_calloc(m, n);
	pbt_alloc_live += p != NULL;
	held(p, 1);
	return p;
}

void *__wrap_realloc(void *q, size_t n)
{
	void *p;
	if (!pbt_alloc_on) {
		return __real_realloc(q, n);
	}
	if (q && n == 0) {
		held(q, -1);
		__real_free(q);
		pbt_alloc_live--;
		return NULL;
	}
	if (inject(n)) {
		return NULL;
	}
	held(q, -1);
	p = __real_realloc(q, n);
	if (p && !q) {
		pbt_alloc_live++;
	}
	held(p ? p : q, 1);
	return p;
}

void __wrap_free(void *p)
{
	if (pbt_alloc_on && p) {
		pbt_alloc_live--;
		held(p, -1);
	}
	__real_free(p);
}
