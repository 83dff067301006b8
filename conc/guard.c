/* Allocator for numpy arrays whose blocks end at an inaccessible page: any
 * access beyond the end of an array faults, in compiled code and BLAS alike.
 * Fresh memory is filled with a NaN pattern. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#define PG 4096UL
static size_t full(size_t n) { return (n + PG - 1) / PG * PG + PG; }

static void *take(size_t n, int fill)
{
    if (n == 0) n = 1;
    size_t f = full(n);
    char *p = mmap(0, f, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return 0;
    mprotect(p + f - PG, PG, PROT_NONE);
    size_t al = 16;
    while (al > 1 && n % al) al /= 2;
    char *r = p + f - PG - n;
    r -= (uintptr_t)r % al;
    if (fill) memset(r, 0xff, n);
    return r;
}
void *g_malloc(void *c, size_t n) { return take(n, 1); }
void *g_calloc(void *c, size_t a, size_t b) { return take(a * b, 0); }
void g_free(void *c, void *p, size_t n)
{
    if (!p) return;
    /* keep the page, make it inaccessible: use after free faults */
    char *b = (char *)((uintptr_t)p / PG * PG);
    mprotect(b, full(n ? n : 1) - PG, PROT_NONE);
}
void *g_realloc(void *c, void *p, size_t n)
{
    void *r = take(n, 1);
    if (p && r) memcpy(r, p, n); /* may fault when growing: not used here */
    return r;
}
typedef struct { void *ctx; void *(*malloc)(void *, size_t); void *(*calloc)(void *, size_t, size_t);
    void *(*realloc)(void *, void *, size_t); void (*free)(void *, void *, size_t); } Alloc;
typedef struct { char name[127]; uint8_t version; Alloc a; } Handler;
Handler g_handler = { "guard", 1, { 0, g_malloc, g_calloc, g_realloc, g_free } };
