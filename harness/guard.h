/* Allocations of the tested extension end at an inaccessible page: writing or reading past them kills the process. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
typedef struct { void *base; size_t total; uint64_t magic; } guard_head;
static __attribute__((unused)) void *guard_malloc(size_t n)
{
    size_t page = 4096, body = (n + 7) / 8 * 8, pages = (body + sizeof(guard_head) + 16 + page - 1) / page * page;
    char *m = mmap(NULL, pages + page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return NULL;
    mprotect(m + pages, page, PROT_NONE);
    char *p = m + pages - body;
    memset(m, 0x5a, pages);
    guard_head *h = (guard_head *)(p - sizeof(guard_head));
    h->base = m; h->total = pages + page; h->magic = 0x6b6c616e67ULL;
    return p;
}
static __attribute__((unused)) void guard_free(void *p)
{
    if (!p) return;
    guard_head *h = (guard_head *)((char *)p - sizeof(guard_head));
    if (h->magic != 0x6b6c616e67ULL) abort();
    munmap(h->base, h->total);
}
static __attribute__((unused)) void *guard_calloc(size_t a, size_t b)
{
    void *p = guard_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
static __attribute__((unused)) void *guard_realloc(void *q, size_t n)
{
    void *p = guard_malloc(n);
    if (q && p) {
        char *b = ((guard_head *)((char *)q - sizeof(guard_head)))->base;
        size_t have = ((guard_head *)((char *)q - sizeof(guard_head)))->total - 4096 - (size_t)((char *)q - b);
        memcpy(p, q, have < n ? have : n);
        guard_free(q);
    }
    return p;
}
#define malloc guard_malloc
#define free guard_free
#define calloc guard_calloc
#define realloc guard_realloc
