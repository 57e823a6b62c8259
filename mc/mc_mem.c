/* malloc family interposition: counting, failure injection, live set. */
#include "mc.h"
#include <errno.h>
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);

#define SLOTS 262144
static void* slot[SLOTS];
static long live, count, fail_at = -1, since, failures;

/* told of each block that comes into being, and of each that goes (a size of zero: not known). */
__attribute__((weak)) void mc_mem_born(void* p, size_t n) { (void)p; (void)n; }
__attribute__((weak)) void mc_mem_dies(void* p) { (void)p; }
void* mc_xmalloc(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) abort(); return p; }
void mc_xfree(void* p) { __real_free(p); }

/* blocks at addresses that the harness chose: see mc_mem_arena. */
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#define ASAN_POISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#endif
#define ARENAS 64
static struct { char* p; size_t n; } arena_blk[ARENAS];
static int arena_n; static char *arena_at, *arena_end;
void mc_mem_arena(void* base, size_t n) { arena_at = base; arena_end = arena_at + n; if (base) ASAN_POISON_MEMORY_REGION(base, n); }
static void* arena_malloc(size_t n)
{
    size_t k = (n + 15) & ~(size_t)15;
    if (!arena_at || (size_t)(arena_end - arena_at) < k + 64 || arena_n >= ARENAS) return __real_malloc(n);
    char* p = arena_at + 32; arena_at = p + k; arena_blk[arena_n].p = p; arena_blk[arena_n++].n = n;
    ASAN_UNPOISON_MEMORY_REGION(p, n); return p;
}
/* MC_REUSE: the address that was freed last is given out again first, to a request of the same size (a cache keyed by an address meets another object there). */
#include <malloc.h>
enum { REUSE = 512 };
static struct { void* p; size_t n; } gone[REUSE]; static int ngone, reuse = -1;
static bool reuse_put(void* p)
{
    if (reuse < 0) { const char* e = getenv("MC_REUSE"); reuse = e && *e == '1'; }
    size_t n = reuse ? malloc_usable_size(p) : 0; if (!n || n > 4096) return false;
    if (ngone == REUSE) { ASAN_UNPOISON_MEMORY_REGION(gone[0].p, gone[0].n); __real_free(gone[0].p); memmove(gone, gone + 1, sizeof gone - sizeof *gone); --ngone; }
    gone[ngone].p = p; gone[ngone++].n = n; ASAN_UNPOISON_MEMORY_REGION(p, n); memset(p, 0xDD, n); ASAN_POISON_MEMORY_REGION(p, n); return true;
}
static void* reuse_get(size_t n)
{
    for (int i = ngone - 1; i >= 0; --i) if (n && gone[i].n >= n && gone[i].n - n < 16) { void* p = gone[i].p; memmove(gone + i, gone + i + 1, sizeof *gone * (size_t)(ngone - i - 1)); --ngone; ASAN_UNPOISON_MEMORY_REGION(p, n); return p; }
    return NULL;
}
static int arena_find(const void* p) { for (int i = arena_n - 1; i >= 0; --i) if (arena_blk[i].p == (const char*)p) return i; return -1; }

static unsigned h(const void* p) { return (unsigned)((((uintptr_t)p) >> 4) * 2654435761u) % SLOTS; }
static void ins(void* p)
{
    unsigned i = h(p);
    if (live > SLOTS / 2) { fprintf(stderr, "mc_mem: too many live blocks\n"); abort(); }
    while (slot[i]) i = (i + 1) % SLOTS;
    slot[i] = p; ++live;
}
static int find(const void* p)
{
    unsigned i = h(p);
    while (slot[i]) { if (slot[i] == p) return (int)i; i = (i + 1) % SLOTS; }
    return -1;
}
static void del(int i)
{
    --live;
    for (;;)
    {
        slot[i] = NULL;
        unsigned j = (unsigned)i;
        for (;;)
        {
            j = (j + 1) % SLOTS;
            if (!slot[j]) return;
            unsigned k = h(slot[j]);
            /* can slot j move to i? */
            if ((unsigned)i <= j ? ((unsigned)i < k && k <= j) : ((unsigned)i < k || k <= j)) continue;
            slot[i] = slot[j]; i = (int)j; break;
        }
    }
}
void mc_mem_begin(void)
{
    if (live) memset(slot, 0, sizeof(slot));
    live = 0; count = 0; fail_at = -1; since = 0; failures = 0;
    arena_n = 0; arena_at = NULL;
}
long mc_mem_live(void) { return live; }
long mc_mem_count(void) { return count; }
void mc_mem_fail_at(long k) { fail_at = k; since = 0; }
long mc_mem_failures(void) { return failures; }
bool mc_mem_is_live(const void* p) { return p && find(p) >= 0; }

static bool should_fail(void)
{
    ++count;
    if (fail_at >= 0 && since++ == fail_at) { ++failures; errno = ENOMEM; return true; }
    return false;
}
void* __wrap_malloc(size_t n)
{
    if (should_fail()) return NULL;
    void* p = reuse_get(n); if (!p) p = arena_malloc(n);
    /* fresh memory is garbage, never zero. */
    if (p) { memset(p, 0xA5, n); ins(p); mc_mem_born(p, n); }
    return p;
}
void* __wrap_calloc(size_t a, size_t b)
{
    if (should_fail()) return NULL;
    void* p = __real_calloc(a, b);
    if (p) { ins(p); mc_mem_born(p, a * b); }
    return p;
}
void* __wrap_realloc(void* p, size_t n)
{
    if (should_fail()) return NULL;
    int i = p ? find(p) : -1;
    /* always move, so that a stale pointer is noticed. */
    if (!p) { void* q = __real_malloc(n); if (q) { memset(q, 0xA5, n); ins(q); mc_mem_born(q, n); } return q; }
    if (arena_n && arena_find(p) >= 0) { fprintf(stderr, "realloc of a block in an arena\n"); abort(); }
    mc_mem_dies(p);
    void* q = __real_realloc(p, n);
    if (q) { if (i >= 0) del(find(p) >= 0 ? find(p) : i); ins(q); mc_mem_born(q, n); }
    return q;
}
void __wrap_free(void* p)
{
    if (!p) return;
    int i = find(p);
    if (i >= 0) { del(i); mc_mem_dies(p); }
    int k = arena_n ? arena_find(p) : -1;
    if (k >= 0)
    {
        if (i < 0) { fprintf(stderr, "double free of %p\n", p); abort(); }
        ASAN_POISON_MEMORY_REGION(p, arena_blk[k].n); return;
    }
    if (i >= 0 && reuse_put(p)) return;
    __real_free(p);
}
