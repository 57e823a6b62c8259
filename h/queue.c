/*
 * Every operation sequence on a queue: append, insert (at the front), pop,
 * count, release; mode 0: with memory exhaustion at each insertion;
 * mode 1: the release of one contained resource fails; mode 2: one reclaim fails.
 */
#include "common.h"
#include <rcpr/queue.h>
RCPR_IMPORT_queue;
const char* mc_name = "queue";
void mc_setup(void) {}
int mc_scenarios(void) { return mc_mode ? 1 : 5 * 5; }
/* the histories with failing releases: what the release of a resource or a reclaim reports is passed on, and everything else happens all the same. */
static void run_failing(void)
{
    tr_reset(); mc_mem_begin(); allocator* a = fa_init(); queue* q = NULL; MC_CHECK(queue_create(&q, a) == STATUS_SUCCESS, "setup", "create failed"); int M[32], n = 0;
    for (int step = 0; step < mc_bound; ++step)
    {
        int op = mc_choose(n ? 4 : 3, "operation"); if (op == 0) break;
        if (op < 3)
        {
            bool front = op == 2; tr* r = tr_new(0); mc_trace("%s(%d)", front ? "insert" : "append", r->id); status s = front ? queue_insert(q, &r->hdr) : queue_append(q, &r->hdr); MC_CHECK(s == STATUS_SUCCESS, "insert-status", "insertion returned %x", (unsigned)s);
            if (front) { memmove(M + 1, M, sizeof(int) * (size_t)n); M[0] = r->id; } else M[n] = r->id;
            ++n;
        }
        else
        {
            bool fail = mc_mode == 2 && mc_choose(2, "reclaim fails"); if (fail) { fa_inst.reclaims = 0; fa_inst.reclaim_fail_at = 0; } resource* r = NULL; status s = queue_pop(q, &r); mc_trace("pop%s gives %x", fail ? " with a failing reclaim" : "", (unsigned)s); fa_inst.reclaim_fail_at = -1;
            if (!fail) { MC_CHECK(s == STATUS_SUCCESS && r == &tr_tab[M[0]]->hdr, "fifo", "pop returned %x", (unsigned)s); --n; memmove(M, M + 1, sizeof(int) * (size_t)n); MC_CHECK(resource_release(r) == STATUS_SUCCESS, "setup", "release"); }
            else
            {
                /* either the element was taken or it is still there. */
                mc_nontrivial(); MC_CHECK(s != STATUS_SUCCESS, "pop-status", "pop with a failing reclaim succeeded"); MC_CHECK(r == NULL || r == &tr_tab[M[0]]->hdr, "fifo", "pop gave something else");
                if (queue_count(q) == (size_t)n - 1) { if (!tr_released[M[0]]) { MC_CHECK(r == &tr_tab[M[0]]->hdr, "lost", "the element was lost"); MC_CHECK(resource_release(r) == STATUS_SUCCESS, "setup", "release"); } --n; memmove(M, M + 1, sizeof(int) * (size_t)n); }
            }
        }
        MC_CHECK(queue_count(q) == (size_t)n, "count", "count is %zu, expected %d", queue_count(q), n); mc_step(); uint64_t h = 6; for (int i = 0; i < n; ++i) h = mc_hash(h, (uint64_t)M[i]); mc_state(h);
    }
    int bad = -1; bool more = false;
    if (mc_mode == 1) { if (n) { bad = mc_choose(n + 1, "whose release fails") - 1; if (bad >= 0) { tr_tab[M[bad]]->fail = true; mc_nontrivial(); } } }
    else { fa_inst.reclaims = 0; fa_inst.reclaim_fail_at = mc_choose(n + 3, "which reclaim fails"); more = true; }
    status s = resource_release(queue_resource_handle(q)); bool failed = more ? fa_inst.reclaims > fa_inst.reclaim_fail_at : bad >= 0; if (more && failed) mc_nontrivial();
    mc_trace("release gives %x", (unsigned)s); mc_step(); MC_CHECK((s == STATUS_SUCCESS) == !failed, "release-status", "release returned %x %s", (unsigned)s, failed ? "though something failed" : "though nothing failed");
    for (int i = 0; i < tr_n; ++i) MC_CHECK(tr_released[i] == 1, "leak", "resource %d was released %d times", i, tr_released[i]);
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks were leaked", mc_mem_live());
}
void mc_run(int scenario)
{
    if (mc_mode) { run_failing(); return; }
    tr_reset(); mc_mem_begin();
    allocator* a = NULL; MC_CHECK(malloc_allocator_create(&a) == STATUS_SUCCESS, "setup", "allocator");
    queue* q = NULL; int M[32], n = 0; int forced = 0;
    for (int k = 0; k < 4; ++k)
    {
        /* creation fails at each of its allocations first. */
        long l0 = mc_mem_live(); mc_mem_fail_at(k); long f0 = mc_mem_failures();
        status s = queue_create(&q, a); mc_mem_fail_at(-1);
        if (mc_mem_failures() == f0) { MC_CHECK(s == STATUS_SUCCESS && q, "create", "create failed"); break; }
        MC_CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY && q == NULL && mc_mem_live() == l0, "create-oom", "create without memory: status %x, %ld blocks leaked", (unsigned)s, mc_mem_live() - l0);
    }
    MC_CHECK(q, "create", "create did not succeed");
    long base = mc_mem_live();
    for (int step = 0; step < mc_bound; ++step)
    {
        int op;
        if (step < 2) { op = forced == 0 ? scenario % 5 : scenario / 5; ++forced; } else op = mc_choose(5, "operation");
        if (op < 4)
        {
            bool front = op & 1, oom = op & 2; tr* r = tr_new(0); long f0 = mc_mem_failures(); if (oom) mc_mem_fail_at(0);
            mc_trace("%s(%d)%s", front ? "insert" : "append", r->id, oom ? " without memory" : "");
            status s = front ? queue_insert(q, &r->hdr) : queue_append(q, &r->hdr); mc_mem_fail_at(-1);
            if (mc_mem_failures() > f0) { MC_CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY && !tr_released[r->id], "oom", "status %x, released %d", (unsigned)s, tr_released[r->id]); tr_released[r->id] = 1; }
            else
            {
                MC_CHECK(s == STATUS_SUCCESS, "insert-status", "insertion returned %x", (unsigned)s);
                if (front) { memmove(M + 1, M, sizeof(int) * (size_t)n); M[0] = r->id; } else M[n] = r->id;
                ++n;
            }
        }
        else
        {
            resource* r = NULL; status s = queue_pop(q, &r); mc_trace("pop");
            MC_CHECK(s == STATUS_SUCCESS, "pop-status", "pop returned %x", (unsigned)s);
            if (!n) MC_CHECK(r == NULL, "pop-empty", "pop of an empty queue gave something");
            else { MC_CHECK(r == &tr_tab[M[0]]->hdr && !tr_released[M[0]], "fifo", "pop did not give element %d", M[0]); tr_released[M[0]] = 1; memmove(M, M + 1, sizeof(int) * (size_t)(--n)); }
        }
        MC_CHECK(queue_count(q) == (size_t)n, "count", "count is %zu, expected %d", queue_count(q), n);
        if (!n) MC_CHECK(mc_mem_live() == base, "leak", "an empty queue holds %ld blocks", mc_mem_live() - base);
        uint64_t h = 5; for (int i = 0; i < n; ++i) h = mc_hash(h, (uint64_t)M[i]);
        mc_state(h); mc_step();
    }
    int drain = mc_choose(2, "drain before release");
    while (drain && n)
    { resource* r = NULL; MC_CHECK(queue_pop(q, &r) == STATUS_SUCCESS && r == &tr_tab[M[0]]->hdr, "fifo", "drain did not give element %d", M[0]); tr_released[M[0]] = 1; memmove(M, M + 1, sizeof(int) * (size_t)(--n)); mc_step(); }
    MC_CHECK(resource_release(queue_resource_handle(q)) == STATUS_SUCCESS, "release-status", "release failed");
    for (int i = 0; i < tr_n; ++i) MC_CHECK(tr_released[i] == 1, "leak", "resource %d was released %d times", i, tr_released[i]);
    MC_CHECK(resource_release(allocator_resource_handle(a)) == STATUS_SUCCESS, "setup", "allocator");
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks were leaked", mc_mem_live());
}
