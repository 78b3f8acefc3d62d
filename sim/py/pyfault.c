/* The seam under the Python binding: CPython's allocators. Armed, the n-th request of `limit`
   bytes and an object header fails; without that they only count. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>

static PyMemAllocatorEx old[3];
static const PyMemAllocatorDomain dom[3] = {PYMEM_DOMAIN_RAW, PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ};
static size_t limit = (size_t)-1;
static long skip, fired, seen;

static int refuse(size_t n) {
    if (n < limit || n - limit > 64) return 0;
    seen++;
    if (skip-- > 0) return 0;
    fired++;
    return 1;
}
static void *f_malloc(void *c, size_t n) {
    PyMemAllocatorEx *o = c;
    return refuse(n) ? NULL : o->malloc(o->ctx, n);
}
static void *f_calloc(void *c, size_t a, size_t b) {
    PyMemAllocatorEx *o = c;
    return a && refuse(a * b) ? NULL : o->calloc(o->ctx, a, b);
}
static void *f_realloc(void *c, void *p, size_t n) {
    PyMemAllocatorEx *o = c;
    return refuse(n) ? NULL : o->realloc(o->ctx, p, n);
}
static void f_free(void *c, void *p) {
    PyMemAllocatorEx *o = c;
    o->free(o->ctx, p);
}
void pf_install(void) {
    for (int i = 0; i < 3; i++) {
        PyMem_GetAllocator(dom[i], &old[i]);
        PyMemAllocatorEx a = {&old[i], f_malloc, f_calloc, f_realloc, f_free};
        PyMem_SetAllocator(dom[i], &a);
    }
}
void pf_arm(size_t n, long s) {
    skip = s;
    fired = seen = 0;
    limit = n;
}
long pf_disarm(void) {
    limit = (size_t)-1;
    return fired;
}
