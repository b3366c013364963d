/* configuration of the library for fault injection: every request of memory goes through the harness */
#ifndef VF_CONFIG
#define VF_CONFIG
#include <stddef.h>
void *vf_malloc(size_t size, void *data);
void vf_free(void *ptr, void *data);
void *vf_malloc_exec(size_t size, void *data);
void vf_free_exec(void *ptr, void *data);
#define SLJIT_MALLOC(size, allocator_data) vf_malloc((size), (allocator_data))
#define SLJIT_FREE(ptr, allocator_data) vf_free((ptr), (allocator_data))
#define SLJIT_MALLOC_EXEC(size, exec_allocator_data) vf_malloc_exec((size), (exec_allocator_data))
#define SLJIT_FREE_EXEC(ptr, exec_allocator_data) vf_free_exec((ptr), (exec_allocator_data))
#endif
