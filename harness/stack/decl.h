extern void *vf_malloc(__SIZE_TYPE__ n, void *data);
extern void vf_free(void *p, void *data);
#define SLJIT_MALLOC(n, d) vf_malloc((n), (d))
#define SLJIT_FREE(p, d) vf_free((p), (d))
