#ifndef C06_SHIM_H
#define C06_SHIM_H
#include <stddef.h>
#include <stdint.h>
struct arr_ops {
	const char *name;
	size_t objsize, elemsize;
	uint64_t mask; /* element values are compared under this mask */
	void (*init)(void *a);
	void (*term)(void *a);
	void (*clear)(void *a);
	void (*add)(void *a, uint64_t v, int form);
	void (*add_copy)(void *a, size_t i); /* append a copy of element i */
	int (*oom)(void *a);
	size_t (*size)(void *a);
	uint64_t (*at)(void *a, size_t i, int form);
	void (*set)(void *a, size_t i, uint64_t v);
	const void *(*addr)(void *a, size_t i);
	void (*del)(void *a, size_t i, int form);
	void (*del_un)(void *a, size_t i, int form);
	void (*del_last)(void *a);
	uint64_t (*last)(void *a);
	void (*sort)(void *a);
	size_t (*foreach)(void *a, uint64_t *out, size_t max, size_t stop);
	size_t (*pairs)(void *a, void *b, uint64_t *out, size_t max); /* nested loops */
	uint64_t (*key)(uint64_t v);	/* sort key */
};
extern const struct arr_ops arr_ops[];
extern const size_t arr_ops_count;
extern unsigned long arr_evals; /* evaluations of the argument expression of the last call with form 4 */
#define ARR_FORMS 8
#endif
