/*
 * Every operation sequence on two doubly linked lists (mode 0) or two singly
 * linked lists (mode 1), compared after each step with arrays.
 * mode bit 1 (2): children whose release fails are put in the containers.
 * mode bit 2 (4): the allocator's reclaim fails at an enumerated call.
 */
#include "common.h"
#include <rcpr/list.h>
#include <rcpr/slist.h>
RCPR_IMPORT_list;
RCPR_IMPORT_slist;
const char* mc_name = "seq";

typedef void L; typedef void N;
struct api {
    status (*create)(L**, allocator*);
    status (*insert_head)(L*, resource*); status (*append_tail)(L*, resource*);
    status (*append)(N*, resource*); status (*insert)(N*, resource*);
    status (*child_swap)(N*, resource**);
    status (*pop)(L*, resource**); status (*next_pop)(N*, resource**);
    void (*swap)(L*, L*); status (*clear)(L*);
    resource* (*handle)(L*);
    status (*head)(N**, L*); status (*tail)(N**, L*); size_t (*count)(L*);
    status (*child)(resource**, N*); status (*next)(N**, N*); status (*prev)(N**, N*);
};
#define F(x) (void*)&RCPR_SYM(x)
static struct api A_list, A_slist, *X;
static bool slist_mode, failing, reclaimfail;
void mc_setup(void)
{
#define S(f, n) *(void**)&A_list.f = F(list_##n)
    S(create, create); S(insert_head, insert_head); S(append_tail, append_tail); S(append, append); S(insert, insert);
    S(child_swap, node_child_swap); S(pop, pop); S(swap, swap); S(clear, clear); S(handle, resource_handle);
    S(head, head); S(tail, tail); S(count, count); S(child, node_child); S(next, node_next); S(prev, node_prev);
#undef S
#define S(f, n) *(void**)&A_slist.f = F(slist_##n)
    S(create, create); S(insert_head, insert_head); S(append_tail, append_tail); S(append, append);
    S(child_swap, node_child_swap); S(pop, pop); S(next_pop, node_next_pop); S(swap, swap); S(clear, clear); S(handle, resource_handle);
    S(head, head); S(tail, tail); S(count, count); S(child, node_child); S(next, node_next);
#undef S
    slist_mode = mc_mode & 1; failing = mc_mode & 2; reclaimfail = mc_mode & 4;
    X = slist_mode ? &A_slist : &A_list;
}
#define CAP 16
static int M[2][CAP], mn[2];       /* model: tr ids, -1 for no child. */
static L* l[2];

static int idof(resource* r)
{
    if (!r) return -1;
    for (int i = 0; i < tr_n; ++i) if ((resource*)tr_tab[i] == r) return i;
    mc_fail("foreign-child", "a node holds a child that was never inserted");
}
/* read container k through the public API. */
static int read_list(int k, int* out, N** nodes)
{
    N* n = NULL; int c = 0; N* last = NULL;
    MC_CHECK(X->head(&n, l[k]) == STATUS_SUCCESS, "head-status", "head failed");
    while (n)
    {
        if (c >= CAP) mc_fail("cycle", "more nodes than were ever inserted");
        resource* r = (resource*)1;
        MC_CHECK(X->child(&r, n) == STATUS_SUCCESS, "child-status", "node_child failed");
        out[c] = idof(r); nodes[c] = n; ++c; last = n;
        N* nx = n;
        MC_CHECK(X->next(&nx, n) == STATUS_SUCCESS, "next-status", "node_next failed");
        n = nx;
    }
    N* t = (N*)1;
    MC_CHECK(X->tail(&t, l[k]) == STATUS_SUCCESS, "tail-status", "tail failed");
    MC_CHECK(t == last, "tail", "list %d: tail is not the last node reached from the head (%d nodes)", k, c);
    MC_CHECK(X->count(l[k]) == (size_t)c, "count", "list %d: count is %zu, %d nodes", k, X->count(l[k]), c);
    if (X->prev)
    {
        int i = c; N* p = t;
        while (p)
        {
            --i; MC_CHECK(i >= 0 && nodes[i] == p, "backward", "list %d: backward walk differs from forward walk at %d", k, i);
            N* pp = p; MC_CHECK(X->prev(&pp, p) == STATUS_SUCCESS, "prev-status", "node_prev failed"); p = pp;
        }
        MC_CHECK(i == 0, "backward", "list %d: backward walk stops %d nodes early", k, i);
    }
    return c;
}
static N* nodes[2][CAP];
static void verify(void)
{
    uint64_t h = 7;
    for (int k = 0; k < 2; ++k)
    {
        int got[CAP]; int c = read_list(k, got, nodes[k]);
        MC_CHECK(c == mn[k], "length", "list %d: %d nodes, expected %d", k, c, mn[k]);
        for (int i = 0; i < c; ++i)
        {
            MC_CHECK(got[i] == M[k][i], "order", "list %d: child at %d is %d, expected %d", k, i, got[i], M[k][i]);
            if (got[i] >= 0) MC_CHECK(!tr_released[got[i]], "released-in-list", "list %d: child %d was already released", k, got[i]);
            h = mc_hash(h, (uint64_t)(got[i] + 2) * 2 + (got[i] >= 0 && tr_tab[got[i]]->fail));
        }
        h = mc_hash(h, 99);
    }
    mc_state(h); mc_step();
}
static void model_ins(int k, int at, int id)
{ memmove(&M[k][at + 1], &M[k][at], sizeof(int) * (size_t)(mn[k] - at)); M[k][at] = id; ++mn[k]; }
static int model_del(int k, int at)
{ int v = M[k][at]; memmove(&M[k][at], &M[k][at + 1], sizeof(int) * (size_t)(mn[k] - at - 1)); --mn[k]; return v; }

static bool used_fail;
static tr* fresh(void)
{
    tr* t = tr_new(0);
    if (failing && !used_fail && mc_choose(2, "release of this child fails")) t->fail = used_fail = true;
    return t;
}
/* a resource handed back to us: release it ourselves, once. */
static void take(int id)
{
    if (id < 0) return;
    MC_CHECK(!tr_released[id], "handed-back-released", "resource %d was handed back after its release", id);
    tr_released[id] = 1; /* the caller disposes of it. */
}
static void after_insert(status s, int k, int at, tr* t, long failures)
{
    if (failures)
    {
        MC_CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY, "oom-status", "insertion under memory exhaustion returned %x", (unsigned)s);
        MC_CHECK(!tr_released[t->id], "oom-owner", "the resource of a failed insertion was released");
        tr_released[t->id] = 1;
    }
    else
    {
        MC_CHECK(s == STATUS_SUCCESS, "insert-status", "insertion failed with %x", (unsigned)s);
        model_ins(k, at, t->id);
    }
}
static void reread(void)
{
    /* after a failed clear: a valid list which is a suffix of what was there. */
    for (int k = 0; k < 2; ++k)
    {
        int got[CAP]; N* nn[CAP]; int c = read_list(k, got, nn);
        MC_CHECK(c <= mn[k], "clear-partial", "nodes appeared during clear");
        for (int i = 0; i < c; ++i)
            MC_CHECK(got[i] == M[k][mn[k] - c + i], "clear-partial", "the rest of list %d is not what was there", k);
        for (int i = 0; i < mn[k] - c; ++i)
            if (M[k][i] >= 0) MC_CHECK(tr_released[M[k][i]] == 1, "clear-leak", "child %d was removed but not released", M[k][i]);
        memmove(M[k], &M[k][mn[k] - c], sizeof(int) * (size_t)c); mn[k] = c;
    }
}
enum { IH, AT, POP, CLR, SWAP, NODE };
int mc_scenarios(void) { return 2 * 9 * 3; }
void mc_run(int scenario)
{
    tr_reset(); mc_mem_begin();
    mn[0] = mn[1] = 0; used_fail = false;
    allocator* a = NULL;
    if (reclaimfail) a = fa_init();
    else MC_CHECK(malloc_allocator_create(&a) == STATUS_SUCCESS, "setup", "no allocator");
    for (int k = 0; k < 2; ++k) { l[k] = NULL; MC_CHECK(X->create(&l[k], a) == STATUS_SUCCESS, "create", "create failed"); }
    long base = mc_mem_live();
    /* initial contents: 0..2 nodes in the second list, 0..2 in the first. */
    int pre1 = scenario % 3, pre0 = scenario / 3 % 3; bool oomy = scenario / 9 % 2; int first = scenario / 18;
    for (int k = 0; k < 2; ++k)
        for (int i = 0; i < (k ? pre1 : pre0); ++i)
        { tr* t = fresh(); after_insert(X->append_tail(l[k], &t->hdr), k, mn[k], t, 0); }
    mc_trace("start: list0 %d nodes, list1 %d nodes", mn[0], mn[1]);
    verify();
    for (int step = 0; step < mc_bound; ++step)
    {
        /* build the menu of operations for the current shape. */
        int nn = mn[0] + mn[1];
        int per = slist_mode ? 4 : 4; /* append, insert|next_pop, swap child out, swap child in */
        int n = 9 + per * nn;
        /* the first operation is split over scenarios, for parallelism. */
        int op = 0;
        if (step == 0) { int w = (n + 2) / 3, lo = first * w, hi = lo + w < n ? lo + w : n; if (hi <= lo) goto done; op = lo + mc_choose(hi - lo, "operation"); }
        else op = mc_choose(n, "operation");
        long f0 = mc_mem_failures();
        bool insertion = (op < 4) || (op >= 9 && (op - 9) % per == 0) || (!slist_mode && op >= 9 && (op - 9) % per == 1);
        if (insertion && oomy && mc_choose(2, "memory runs out")) mc_mem_fail_at(0);
        if (reclaimfail) { fa_inst.reclaims = 0; fa_inst.reclaim_fail_at = mc_choose(3, "reclaim that fails") - 1; }
        if (op < 2)
        { tr* t = fresh(); mc_trace("insert_head(list%d, %d)", op, t->id); status s = X->insert_head(l[op], &t->hdr); after_insert(s, op, 0, t, mc_mem_failures() - f0); }
        else if (op < 4)
        { int k = op - 2; tr* t = fresh(); mc_trace("append_tail(list%d, %d)", k, t->id); status s = X->append_tail(l[k], &t->hdr); after_insert(s, k, mn[k], t, mc_mem_failures() - f0); }
        else if (op < 6)
        {
            int k = op - 4; resource* r = NULL; bool had = mn[k] > 0; long before = fa_inst.reclaims;
            mc_trace("pop(list%d)", k);
            status s = X->pop(l[k], &r);
            int want = had ? model_del(k, 0) : -1;
            bool rf = reclaimfail && fa_inst.reclaim_fail_at >= before && fa_inst.reclaim_fail_at < fa_inst.reclaims;
            if (rf)
            {
                MC_CHECK(s != STATUS_SUCCESS, "pop-hides-failure", "pop reported success though freeing the node failed (resource lost: %d)", want >= 0 && !r);
                MC_CHECK(r == NULL, "pop-failure-output", "failed pop set its output");
                if (want >= 0) MC_CHECK(tr_released[want] == 1, "pop-failure-leak", "failed pop lost the resource");
            }
            else
            {
                MC_CHECK(s == STATUS_SUCCESS, "pop-status", "pop failed with %x", (unsigned)s);
                MC_CHECK(idof(r) == want, "pop", "pop gave %d, expected %d", idof(r), want);
                take(want);
            }
        }
        else if (op < 8)
        {
            int k = op - 6; bool anyfail = false;
            for (int i = 0; i < mn[k]; ++i) if (M[k][i] >= 0 && tr_tab[M[k][i]]->fail) anyfail = true;
            mc_trace("clear(list%d)", k);
            status s = X->clear(l[k]);
            bool rf = reclaimfail && fa_inst.reclaim_fail_at >= 0 && fa_inst.reclaim_fail_at < fa_inst.reclaims;
            if (anyfail || rf)
            {
                MC_CHECK(s != STATUS_SUCCESS, "clear-hides-failure", "clear reported success though a release failed");
                reread();
            }
            else
            {
                MC_CHECK(s == STATUS_SUCCESS, "clear-status", "clear failed with %x", (unsigned)s);
                for (int i = 0; i < mn[k]; ++i) if (M[k][i] >= 0) MC_CHECK(tr_released[M[k][i]] == 1, "clear-leak", "child %d not released by clear", M[k][i]);
                mn[k] = 0;
            }
        }
        else if (op == 8)
        {
            mc_trace("swap(list0, list1)");
            X->swap(l[0], l[1]);
            int t[CAP]; memcpy(t, M[0], sizeof t); memcpy(M[0], M[1], sizeof t); memcpy(M[1], t, sizeof t);
            int q = mn[0]; mn[0] = mn[1]; mn[1] = q;
        }
        else
        {
            int i = (op - 9) / per, what = (op - 9) % per; int k = i >= mn[0]; if (k) i -= mn[0];
            N* node = nodes[k][i];
            if (what == 0)
            { tr* t = fresh(); mc_trace("append(list%d node %d, %d)", k, i, t->id); status s = X->append(node, &t->hdr); after_insert(s, k, i + 1, t, mc_mem_failures() - f0); }
            else if (what == 1 && !slist_mode)
            { tr* t = fresh(); mc_trace("insert(list%d node %d, %d)", k, i, t->id); status s = X->insert(node, &t->hdr); after_insert(s, k, i, t, mc_mem_failures() - f0); }
            else if (what == 1)
            {
                resource* r = NULL; bool had = i + 1 < mn[k]; mc_trace("node_next_pop(list%d node %d)", k, i);
                status s = X->next_pop(node, &r);
                int want = had ? model_del(k, i + 1) : -1;
                bool rf = reclaimfail && fa_inst.reclaim_fail_at >= 0 && fa_inst.reclaim_fail_at < fa_inst.reclaims;
                if (rf)
                {
                    MC_CHECK(s != STATUS_SUCCESS, "pop-hides-failure", "pop of the next node reported success though freeing it failed");
                    MC_CHECK(r == NULL, "pop-failure-output", "failed pop set its output");
                    if (want >= 0) MC_CHECK(tr_released[want] == 1, "pop-failure-leak", "failed pop lost the resource");
                }
                else
                {
                    MC_CHECK(s == STATUS_SUCCESS, "pop-status", "pop of the next node failed with %x", (unsigned)s);
                    MC_CHECK(idof(r) == want, "pop", "pop of the next node gave %d, expected %d", idof(r), want);
                    take(want);
                }
            }
            else
            {
                resource* r = NULL; int in = -1;
                if (what == 3) { tr* t = fresh(); r = &t->hdr; in = t->id; }
                mc_trace("node_child_swap(list%d node %d, %d)", k, i, in);
                status s = X->child_swap(node, &r);
                MC_CHECK(s == STATUS_SUCCESS, "swap-status", "child swap failed");
                MC_CHECK(idof(r) == M[k][i], "child-swap", "child swap gave %d, expected %d", idof(r), M[k][i]);
                take(M[k][i]); M[k][i] = in;
            }
        }
        mc_mem_fail_at(-1);
        fa_inst.reclaim_fail_at = -1;
        verify();
        /* memory in use is exactly one node per element. */
        if (mn[0] + mn[1] == 0) MC_CHECK(mc_mem_live() == base, "leak", "empty lists, but %ld extra blocks are allocated", mc_mem_live() - base);
    }
done:
    mc_trace("release both lists");
    bool anyfail = false;
    for (int k = 0; k < 2; ++k)
        for (int i = 0; i < mn[k]; ++i) if (M[k][i] >= 0 && tr_tab[M[k][i]]->fail) anyfail = true;
    for (int k = 0; k < 2; ++k)
    {
        status s = resource_release(X->handle(l[k]));
        if (!anyfail) MC_CHECK(s == STATUS_SUCCESS, "release-status", "release failed with %x", (unsigned)s);
    }
    if (anyfail) return; /* what a failed release leaves behind is not specified. */
    for (int i = 0; i < tr_n; ++i) MC_CHECK(tr_released[i] == 1, "leak", "resource %d was released %d times", i, tr_released[i]);
    if (!reclaimfail) MC_CHECK(resource_release(allocator_resource_handle(a)) == STATUS_SUCCESS, "setup", "allocator release");
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks were leaked", mc_mem_live());
    mc_step();
}
