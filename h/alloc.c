/*
 * Every operation sequence on an allocator.
 * mode 0: the bump allocator, over every region size and a menu of request
 *         sizes that includes the exact fit, its neighbours and sizes close to
 *         the top of the address range.
 * mode 1: the malloc allocator, with each underlying allocation failing.
 */
#include "common.h"
#include <rcpr/vtable.h>
const char* mc_name = "alloc";
static status own_release(resource* r) { (void)r; return STATUS_SUCCESS; }
typedef RCPR_SYM(allocator_vtable) avt; RCPR_VTABLE avt no_control = { .hdr = { &own_release } };
#define REGION 256
static unsigned char arena[REGION + 96] __attribute__((aligned(64)));
static struct { unsigned char* p; size_t n; unsigned char pat; } B[32]; static int nb;
static unsigned char patn;
static void put(unsigned char* p, size_t n) { B[nb].p = p; B[nb].n = n; B[nb].pat = ++patn; if (n < 100000) memset(p, B[nb].pat, n); ++nb; }
static void intact(const char* after)
{
    for (int i = 0; i < nb; ++i)
        for (size_t j = 0; j < B[i].n && j < 100000; ++j)
            MC_CHECK(B[i].p[j] == B[i].pat, "content", "block %d changed at %zu after %s", i, j, after);
}
void mc_setup(void) {}
int mc_scenarios(void) { return mc_mode == 0 ? 2 * (REGION + 1) : 6; }
static void bump(int scenario)
{
    size_t off = (scenario & 1) ? 8 : 0; size_t rs = (size_t)(scenario >> 1);
    memset(arena, 0xC3, sizeof arena);
    unsigned char* region = arena + 32 + off; unsigned char* lim = region + rs;
    allocator* a = (allocator*)1;
    status s = bump_allocator_create(&a, region, rs);
    mc_trace("create over %zu bytes at offset %zu: %x", rs, off, (unsigned)s);
#define GUARDS(w) do { for (unsigned char* q = arena; q < arena + sizeof arena; ++q) if (q < region || q >= lim) MC_CHECK(*q == 0xC3, "outside", "memory outside of the region was written by %s", w); } while (0)
    GUARDS("create");
    if (s != STATUS_SUCCESS)
    {
        MC_CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY && a == NULL, "create-fail", "status %x", (unsigned)s);
        MC_CHECK(rs < 128, "create-fail", "a region of %zu bytes was refused", rs);
        mc_step(); return;
    }
    MC_CHECK((unsigned char*)a >= region && (unsigned char*)a < lim, "create", "the allocator is not inside of its region");
    /* the room left at the start is learned from a zero size request. */
    size_t end = 0; bool known = false; nb = 0; patn = 0;
    unsigned char* start = NULL;
    for (int step = 0; step < mc_bound; ++step)
    {
        size_t room = known ? (size_t)(lim - region) - ((end + (((size_t)region + end) % 16 ? 16 - ((size_t)region + end) % 16 : 0))) : 0;
        size_t off2 = known ? (size_t)(region - region) + end : 0;
        size_t sz[] = { 0, 1, 16, 24, room, room - 1, room + 1, room + 17, SIZE_MAX, SIZE_MAX - 15, SIZE_MAX - off2, (size_t)0 - off2 - 16, (size_t)0 - (size_t)region, (size_t)1 << 63 };
        int nsz = (int)(sizeof sz / sizeof *sz);
        int op = mc_choose(nsz + 4, "operation");
        if (op < nsz)
        {
            size_t n = sz[op]; void* p = (void*)arena;
            s = allocator_allocate(a, &p, n);
            mc_trace("allocate(%zu): %x at %td", n, (unsigned)s, s == STATUS_SUCCESS ? (unsigned char*)p - region : -1);
            if (s != STATUS_SUCCESS)
            {
                MC_CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY, "alloc-status", "allocate returned %x", (unsigned)s);
                MC_CHECK(p == NULL, "alloc-output", "a failed allocation did not set the pointer to NULL");
                if (known) MC_CHECK((end > rs) || n >= room || room > rs, "alloc-refused", "allocate(%zu) was refused with room for %zu", n, room);
            }
            else
            {
                unsigned char* q = p;
                MC_CHECK((size_t)q % 16 == 0, "alignment", "block at %p is not aligned to 16 bytes", p);
                MC_CHECK(n <= rs && q >= region && q + n <= lim, "bounds", "allocate(%zu) from a region of %zu bytes gave offset %td", n, rs, q - region);
                for (int i = 0; i < nb; ++i) MC_CHECK(q + n <= B[i].p || B[i].p + B[i].n <= q, "overlap", "two live blocks overlap");
                put(q, n); if (!known) { start = q; known = true; } 
                end = (size_t)(q + n - region);
            }
        }
        else if (op == nsz)
        {
            if (!nb) return;
            int i = nb - 1; mc_trace("reclaim last block"); s = allocator_reclaim(a, B[i].p); MC_CHECK(s == STATUS_SUCCESS, "reclaim-status", "reclaim returned %x", (unsigned)s);
            --nb;
        }
        else if (op == nsz + 1)
        {
            if (!nb) return;
            void* p = B[0].p; mc_trace("reallocate"); s = allocator_reallocate(a, &p, 48);
            if (s == STATUS_SUCCESS) mc_fail("realloc", "the bump allocator claims to reallocate");
            MC_CHECK(p == B[0].p, "realloc", "a failed reallocate moved the pointer");
        }
        else if (op == nsz + 2)
        {
            mc_trace("reset"); s = allocator_control(a, RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET, NULL, 0);
            MC_CHECK(s == STATUS_SUCCESS, "reset-status", "reset returned %x", (unsigned)s);
            nb = 0; if (known) end = (size_t)(start - region);
        }
        else
        {
            mc_trace("unknown control"); s = allocator_control(a, 0x7eadbeef, NULL, 0);
            MC_CHECK(s == ERROR_GENERAL_CONTROL_KEY_INVALID, "control-status", "an unknown control returned %x", (unsigned)s);
        }
        intact("an operation"); GUARDS("an operation");
        mc_state(mc_hash(mc_hash(mc_hash(rs, off), end), (uint64_t)nb)); mc_step();
    }
    s = resource_release(allocator_resource_handle(a)); MC_CHECK(s == STATUS_SUCCESS, "release-status", "release returned %x", (unsigned)s);
    intact("release"); GUARDS("release");
}
static void heap(int scenario)
{
    mc_mem_begin(); nb = 0; patn = 0;
    allocator* a = (allocator*)1; status s;
    mc_mem_fail_at(0); s = malloc_allocator_create(&a); mc_mem_fail_at(-1);
    MC_CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY && a == NULL, "create-oom", "create without memory: %x", (unsigned)s);
    s = malloc_allocator_create(&a); MC_CHECK(s == STATUS_SUCCESS, "create", "create returned %x", (unsigned)s);
    static const size_t sz[] = { 0, 1, 24, 100, 5000, SIZE_MAX, SIZE_MAX / 2 + 1 };
    for (int step = 0; step < mc_bound; ++step)
    {
        int op = step == 0 ? scenario : mc_choose(7 + (nb ? 1 + 14 : 0), "operation");
        if (op < 7)
        {
            size_t n = sz[op]; void* p = arena; long f0 = mc_mem_failures(); if (mc_choose(2, "memory runs out")) mc_mem_fail_at(0);
            s = allocator_allocate(a, &p, n); mc_mem_fail_at(-1); mc_trace("allocate(%zu): %x", n, (unsigned)s);
            bool must = mc_mem_failures() > f0 || n > 1u << 30;
            if (must) MC_CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY && p == NULL, "alloc-oom", "allocate(%zu) returned %x, pointer %p", n, (unsigned)s, p);
            else { MC_CHECK(s == STATUS_SUCCESS && p && mc_mem_is_live(p), "alloc", "allocate(%zu) returned %x", n, (unsigned)s); put(p, n); }
        }
        else if (op == 7)
        {
            int i = mc_choose(nb, "which block"); s = allocator_reclaim(a, B[i].p); MC_CHECK(s == STATUS_SUCCESS, "reclaim-status", "reclaim returned %x", (unsigned)s);
            MC_CHECK(!mc_mem_is_live(B[i].p) , "reclaim-leak", "reclaim did not free the block");
            B[i] = B[--nb]; mc_trace("reclaim");
        }
        else
        {
            int i = nb - 1; size_t n = sz[(op - 8) % 7]; bool oom = (op - 8) / 7; void* p = B[i].p; long f0 = mc_mem_failures(); if (oom) mc_mem_fail_at(0);
            s = allocator_reallocate(a, &p, n); mc_mem_fail_at(-1); mc_trace("reallocate(%zu -> %zu): %x", B[i].n, n, (unsigned)s);
            bool must = mc_mem_failures() > f0 || n > 1u << 30;
            if (s != STATUS_SUCCESS)
            {
                MC_CHECK(must, "realloc-refused", "reallocate(%zu) failed with %x though memory was there", n, (unsigned)s);
                MC_CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY && p == B[i].p && mc_mem_is_live(p), "realloc-oom", "failed reallocate: status %x, block lost", (unsigned)s);
            }
            else
            {
                MC_CHECK(!must, "realloc-lie", "reallocate claims success without memory");
                MC_CHECK(p && mc_mem_is_live(p), "realloc", "reallocate(%zu) gave no block", n);
                size_t keep = B[i].n < n ? B[i].n : n; for (size_t j = 0; j < keep; ++j) MC_CHECK(((unsigned char*)p)[j] == B[i].pat, "realloc-content", "byte %zu was not kept", j);
                --nb; put(p, n);
            }
        }
        intact("an operation"); MC_CHECK(mc_mem_live() == nb + 1, "leak", "%ld blocks live, expected %d", mc_mem_live(), nb + 1);
        uint64_t h = 3; for (int i = 0; i < nb; ++i) h = mc_hash(h, B[i].n);
        mc_state(h); mc_step();
    }
    while (nb) { --nb; MC_CHECK(allocator_reclaim(a, B[nb].p) == STATUS_SUCCESS, "reclaim-status", "reclaim"); }
    s = allocator_control(a, 1, NULL, 0); MC_CHECK(s == ERROR_GENERAL_CONTROL_KEY_INVALID, "control-status", "control returned %x", (unsigned)s);
    struct { RCPR_SYM(resource) hdr; long pad[8]; } own; memset(&own, 0, sizeof own); resource_init(&own.hdr, &no_control.hdr); s = allocator_control((allocator*)&own, 1, NULL, 0); MC_CHECK(s == ERROR_GENERAL_CONTROL_KEY_INVALID, "control-status", "control of an allocator that has none returned %x", (unsigned)s);
    s = resource_release(allocator_resource_handle(a)); MC_CHECK(s == STATUS_SUCCESS, "release-status", "release");
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks were leaked", mc_mem_live());
}
void mc_run(int scenario) { if (mc_mode == 0) bump(scenario); else heap(scenario); }
