/* What a user's config.h under SC_HAVE_CONFIG_H may contain: allocators of their own, one family per library. */
#ifndef CFG_CONFIG_H
#define CFG_CONFIG_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
#define CFG_FAMILY(x)                                                          \
	void *cfg_##x##_malloc(size_t n);                                      \
	void *cfg_##x##_calloc(size_t m, size_t n);                            \
	void *cfg_##x##_realloc(void *p, size_t n);                            \
	void cfg_##x##_free(void *p);
CFG_FAMILY(str)
CFG_FAMILY(uri)
CFG_FAMILY(array)
CFG_FAMILY(queue)
CFG_FAMILY(sock)
CFG_FAMILY(map)
CFG_FAMILY(buf)
CFG_FAMILY(heap)
CFG_FAMILY(timer)
#ifdef __cplusplus
}
#endif
#define sc_str_malloc cfg_str_malloc
#define sc_str_calloc cfg_str_calloc
#define sc_str_realloc cfg_str_realloc
#define sc_str_free cfg_str_free
#define sc_uri_malloc cfg_uri_malloc
#define sc_uri_calloc cfg_uri_calloc
#define sc_uri_realloc cfg_uri_realloc
#define sc_uri_free cfg_uri_free
#define sc_array_malloc cfg_array_malloc
#define sc_array_calloc cfg_array_calloc
#define sc_array_realloc cfg_array_realloc
#define sc_array_free cfg_array_free
#define sc_queue_malloc cfg_queue_malloc
#define sc_queue_calloc cfg_queue_calloc
#define sc_queue_realloc cfg_queue_realloc
#define sc_queue_free cfg_queue_free
#define sc_sock_malloc cfg_sock_malloc
#define sc_sock_calloc cfg_sock_calloc
#define sc_sock_realloc cfg_sock_realloc
#define sc_sock_free cfg_sock_free
#define sc_map_malloc cfg_map_malloc
#define sc_map_calloc cfg_map_calloc
#define sc_map_realloc cfg_map_realloc
#define sc_map_free cfg_map_free
#define sc_buf_malloc cfg_buf_malloc
#define sc_buf_calloc cfg_buf_calloc
#define sc_buf_realloc cfg_buf_realloc
#define sc_buf_free cfg_buf_free
#define sc_heap_malloc cfg_heap_malloc
#define sc_heap_calloc cfg_heap_calloc
#define sc_heap_realloc cfg_heap_realloc
#define sc_heap_free cfg_heap_free
#define sc_timer_malloc cfg_timer_malloc
#define sc_timer_calloc cfg_timer_calloc
#define sc_timer_realloc cfg_timer_realloc
#define sc_timer_free cfg_timer_free
#endif
