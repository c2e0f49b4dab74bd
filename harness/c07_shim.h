#ifndef C07_SHIM_H
#define C07_SHIM_H
#include <stddef.h>
#include <stdint.h>
struct q_ops {
	const char *name;
	size_t objsize, elemsize;
	uint64_t mask;
	void (*init)(void *q);
	void (*term)(void *q);
	void (*clear)(void *q);
	void (*add_last)(void *q, uint64_t v, int form);
	void (*add_first)(void *q, uint64_t v, int form);
	void (*add_peeked)(void *q, int at_first, size_t i); /* add a copy of element i */
	void (*rotate)(void *q, int dir); /* move first to last / last to first, in one expression */
	uint64_t (*del_last)(void *q);
	uint64_t (*del_first)(void *q);
	uint64_t (*peek_last)(void *q);
	uint64_t (*peek_first)(void *q);
	int (*oom)(void *q);
	int (*empty)(void *q);
	size_t (*size)(void *q);
	uint64_t (*at)(void *q, size_t i, int form);
	void (*set)(void *q, size_t i, uint64_t v);
	size_t (*walk)(void *q, uint64_t *out, size_t max);
	size_t (*foreach)(void *q, uint64_t *out, size_t max, size_t stop);
	size_t (*pairs)(void *a, void *b, uint64_t *out, size_t max);
};
extern const struct q_ops q_ops_tab[];
extern const size_t q_ops_count;
extern unsigned long q_evals;
#define Q_FORMS 7
#endif
