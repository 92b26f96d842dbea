/* Linked with --wrap: counts the library's live allocations, and fills new and
 * released memory with chosen bytes so that results which depend on them differ. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <malloc.h>

void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t);
char *__real_strdup(const char *);
void __real_free(void *);

static long live, total;
static int fill = -1;

long vxm_live(void) { return __atomic_load_n(&live, __ATOMIC_SEQ_CST); }
long vxm_total(void) { return __atomic_load_n(&total, __ATOMIC_SEQ_CST); }
void vxm_fill(int b) { fill = b; }

static void up(void *p) { if (p) { __atomic_add_fetch(&live, 1, __ATOMIC_SEQ_CST); __atomic_add_fetch(&total, 1, __ATOMIC_SEQ_CST); } }

void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); up(p); if (p && fill >= 0) memset(p, fill, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); up(p); return p; }
void *__wrap_realloc(void *q, size_t n) {
    size_t o = q ? malloc_usable_size(q) : 0; void *p = __real_realloc(q, n);
    if (! q) up(p);
    if (p && fill >= 0 && ! q) memset(p, fill, n);
    (void) o; return p;
}
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); up(p); return p; }
void __wrap_free(void *p) {
    if (p) { __atomic_sub_fetch(&live, 1, __ATOMIC_SEQ_CST); if (fill >= 0) memset(p, fill ^ 0x5a, malloc_usable_size(p)); }
    __real_free(p);
}
