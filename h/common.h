/* Shared helpers: tracked resources, a fault injecting allocator. */
#pragma once
#include "mc.h"
#include <rcpr/allocator.h>
#include <rcpr/resource.h>
#include <rcpr/resource/protected.h>
#include <rcpr/status.h>
#include <rcpr/vtable.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_resource;

#define TR_MAGIC 0x7472636bU
#define TR_MAX 256
#define TR_FAIL_STATUS ((status)0x80FF0001)

typedef struct tr { resource hdr; unsigned magic; int id; int key; bool fail; } tr;
static tr* tr_tab[TR_MAX];
static int tr_n, tr_released[TR_MAX];
static long tr_release_calls;

static status tr_release(resource* r)
{
    tr* t = (tr*)r;
    if (t->magic != TR_MAGIC) mc_fail("release-garbage", "a release was made through a pointer that is not a resource");
    ++tr_release_calls;
    if (tr_released[t->id]++) mc_fail("double-release", "resource %d was released twice", t->id);
    return t->fail ? TR_FAIL_STATUS : STATUS_SUCCESS;
}
RCPR_VTABLE resource_vtable tr_vtable = { &tr_release };

static inline void tr_reset(void)
{
    for (int i = 0; i < tr_n; ++i) mc_xfree(tr_tab[i]);
    tr_n = 0; tr_release_calls = 0; memset(tr_released, 0, sizeof tr_released);
}
static inline tr* tr_new(int key)
{
    if (tr_n >= TR_MAX) { fprintf(stderr, "tr_new\n"); abort(); }
    tr* t = (tr*)mc_xmalloc(sizeof(tr));
    resource_init(&t->hdr, &tr_vtable);
    t->magic = TR_MAGIC; t->id = tr_n; t->key = key; t->fail = false;
    tr_tab[tr_n++] = t;
    return t;
}

/* ---- allocator over malloc whose calls can be made to fail ---- */
typedef struct fa { resource hdr; long reclaim_fail_at, reclaims; } fa;
#define FA_RECLAIM_STATUS ((status)0x80FF0002)
static status fa_release(resource* r) { (void)r; return STATUS_SUCCESS; }
void* __wrap_malloc(size_t); void __wrap_free(void*); void* __wrap_realloc(void*, size_t);
static bool (*fa_refuse)(void);              /* when set, says which requests are refused. */
static size_t fa_cap = (size_t)1 << 26;      /* larger requests are refused. */
static status fa_allocate(allocator* a, void** p, size_t n)
{ (void)a; if (n > fa_cap || (fa_refuse && fa_refuse())) return ERROR_GENERAL_OUT_OF_MEMORY; void* q = __wrap_malloc(n); if (!q) return ERROR_GENERAL_OUT_OF_MEMORY; *p = q; return STATUS_SUCCESS; }
static status fa_reclaim(allocator* a, void* p)
{
    fa* f = (fa*)a;
    if (!mc_mem_is_live(p)) mc_fail("bad-reclaim", "memory was reclaimed that is not allocated");
    __wrap_free(p);
    if (f->reclaim_fail_at >= 0 && f->reclaims++ == f->reclaim_fail_at) return FA_RECLAIM_STATUS;
    return STATUS_SUCCESS;
}
static status fa_reallocate(allocator* a, void** p, size_t n)
{ (void)a; void* q = __wrap_realloc(*p, n); if (!q) return ERROR_GENERAL_OUT_OF_MEMORY; *p = q; return STATUS_SUCCESS; }
static status fa_control(allocator* a, int k, void* v, size_t n)
{ (void)a; (void)k; (void)v; (void)n; return ERROR_GENERAL_CONTROL_KEY_INVALID; }
RCPR_VTABLE allocator_vtable fa_vtable = {
    .hdr = { &fa_release }, .allocate_fn = &fa_allocate, .reclaim_fn = &fa_reclaim,
    .reallocate_fn = &fa_reallocate, .control_fn = &fa_control };
static fa fa_inst;
static inline allocator* fa_init(void)
{
    memset(&fa_inst, 0, sizeof fa_inst);
    resource_init(&fa_inst.hdr, &fa_vtable.hdr);
    fa_inst.reclaim_fail_at = -1;
    return (allocator*)&fa_inst;
}
