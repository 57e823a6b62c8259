/*
 * Every operation sequence on two red-black trees with few keys, compared with
 * arrays: insert, duplicate insert, delete by key (output wanted or not),
 * delete by node, find, clear, swap, release; with memory exhaustion (mode 1),
 * resources whose release fails (mode 2).
 */
#include "common.h"
#include <rcpr/rbtree.h>
#include <rcpr/compare.h>
RCPR_IMPORT_rbtree;
RCPR_IMPORT_compare;
const char* mc_name = "rbops";
#define K 3
/* the trees differ in everything: comparison (one is descending), key function and context; a swap exchanges these with the contents. */
static int ctxs[2];
static rcpr_comparison_result order(int x, int y) { return x < y ? RCPR_COMPARE_LT : x > y ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
static rcpr_comparison_result cmp_up(void* c, const void* a, const void* b)
{ MC_CHECK(c == &ctxs[0], "context", "the comparison got the wrong context"); return order(*(const int*)a, *(const int*)b); }
static rcpr_comparison_result cmp_down(void* c, const void* a, const void* b)
{ MC_CHECK(c == &ctxs[1], "context", "the comparison got the wrong context"); return order(*(const int*)b, *(const int*)a); }
static const void* key_up(void* c, const resource* r) { MC_CHECK(c == &ctxs[0], "context", "the key function got the wrong context"); return &((const tr*)r)->key; }
static const void* key_down(void* c, const resource* r) { MC_CHECK(c == &ctxs[1], "context", "the key function got the wrong context"); return &((const tr*)r)->key; }
static bool down[2];       /* the trees whose order is descending. */
static rbtree* t[2];
static int M[2][8];        /* M[k][key] = tr id or -1. */
static int keys;
static rbtree_node* nodeof[2][8];
static void verify(void)
{
    uint64_t h = 11;
    for (int k = 0; k < 2; ++k)
    {
        rbtree_node* nil = rbtree_nil_node(t[k]); rbtree_node* x = rbtree_root_node(t[k]);
        int cnt = 0; for (int i = 0; i < keys; ++i) cnt += M[k][i] >= 0;
        MC_CHECK(rbtree_count(t[k]) == (size_t)cnt, "count", "tree %d: count %zu, expected %d", k, rbtree_count(t[k]), cnt);
        if (cnt) x = rbtree_minimum_node(t[k], x);
        for (int o = 0; o < keys; ++o)
        {
            int i = down[k] ? keys - 1 - o : o; resource* r = (resource*)1; status s = rbtree_find(&r, t[k], &i);
            nodeof[k][i] = NULL;
            if (M[k][i] >= 0)
            {
                resource* want = &tr_tab[M[k][i]]->hdr;
                MC_CHECK(!tr_released[M[k][i]], "released-in-tree", "tree %d: the resource with key %d was already released", k, i);
                MC_CHECK(s == STATUS_SUCCESS && r == want, "find", "tree %d: find of key %d is wrong", k, i);
                MC_CHECK(x != nil && rbtree_node_value(t[k], x) == want, "walk", "tree %d: walk misses key %d", k, i);
                nodeof[k][i] = x; x = rbtree_successor_node(t[k], x);
            }
            else MC_CHECK(s == ERROR_RBTREE_NOT_FOUND && r == NULL, "find-absent", "tree %d: find of absent key %d gave %x", k, i, (unsigned)s);
            h = mc_hash(h, M[k][i] < 0 ? 0 : tr_tab[M[k][i]]->fail ? 2 : 1);
        }
        MC_CHECK(x == nil, "walk", "tree %d: extra nodes", k);
    }
    mc_state(h); mc_step();
}
static bool used_fail;
static tr* fresh(int key)
{ tr* x = tr_new(key); if (mc_mode == 2 && !used_fail && mc_choose(2, "release of this resource fails")) x->fail = used_fail = true; return x; }
void mc_setup(void) { keys = K + (mc_bound2 > 0 ? mc_bound2 : 0); }
int mc_scenarios(void) { return 2 * (1 << K); }
void mc_run(int scenario)
{
    tr_reset(); mc_mem_begin(); used_fail = false;
    allocator* a = NULL; MC_CHECK(malloc_allocator_create(&a) == STATUS_SUCCESS, "setup", "allocator");
    for (int k = 0; k < 2; ++k) { t[k] = NULL; MC_CHECK(rbtree_create(&t[k], a, k ? &cmp_down : &cmp_up, k ? &key_down : &key_up, &ctxs[k]) == STATUS_SUCCESS, "create", "create"); for (int i = 0; i < 8; ++i) M[k][i] = -1; }
    long base = mc_mem_live(); down[0] = false; down[1] = true;
    int order = scenario & 1, set = scenario >> 1;
    for (int i = 0; i < K; ++i)
    {
        int key = order ? K - 1 - i : i; if (!(set >> key & 1)) continue;
        tr* r = fresh(key); MC_CHECK(rbtree_insert(t[0], &r->hdr) == STATUS_SUCCESS, "insert-status", "insert"); M[0][key] = r->id;
    }
    mc_trace("start: keys %x in tree 0", set);
    verify();
    for (int step = 0; step < mc_bound; ++step)
    {
        int n = 2 * (5 * keys + 1) + 1; int op = mc_choose(n, "operation");
        if (op == n - 1) { mc_trace("swap"); rbtree_swap(t[0], t[1]); int q[8]; memcpy(q, M[0], sizeof q); memcpy(M[0], M[1], sizeof q); memcpy(M[1], q, sizeof q); bool d = down[0]; down[0] = down[1]; down[1] = d; verify(); continue; }
        int k = op & 1; op >>= 1;
        if (op == 5 * keys)
        {
            mc_trace("clear(tree %d)", k); bool f = false; for (int i = 0; i < keys; ++i) if (M[k][i] >= 0 && tr_tab[M[k][i]]->fail) f = true;
            status s = rbtree_clear(t[k]);
            MC_CHECK((s != STATUS_SUCCESS) == f, "clear-status", "clear returned %x, a release failed: %d", (unsigned)s, f);
            for (int i = 0; i < keys; ++i) { if (M[k][i] >= 0) MC_CHECK(tr_released[M[k][i]] == 1, "clear-leak", "clear did not release key %d", i); M[k][i] = -1; }
            verify(); continue;
        }
        int key = op % keys; op /= keys;
        int old = M[k][key];
        if (op == 0)
        {
            tr* r = fresh(key); long f0 = mc_mem_failures(); if (mc_mode == 1 && mc_choose(2, "memory runs out")) mc_mem_fail_at(0);
            mc_trace("insert(tree %d, key %d)", k, key);
            status s = rbtree_insert(t[k], &r->hdr); mc_mem_fail_at(-1);
            if (mc_mem_failures() > f0) MC_CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY, "oom-status", "insert without memory returned %x", (unsigned)s);
            else if (old >= 0) MC_CHECK(s == ERROR_RBTREE_DUPLICATE, "duplicate", "insert of a present key returned %x", (unsigned)s);
            else { MC_CHECK(s == STATUS_SUCCESS, "insert-status", "insert returned %x", (unsigned)s); M[k][key] = r->id; }
            if (s != STATUS_SUCCESS) { MC_CHECK(!tr_released[r->id], "insert-owner", "a failed insert released the resource"); tr_released[r->id] = 1; }
        }
        else if (op == 1 || op == 2)
        {
            resource* r = (resource*)1; mc_trace("delete(tree %d, key %d, %s)", k, key, op == 1 ? "hand back" : "release");
            status s = rbtree_delete(op == 1 ? &r : NULL, t[k], &key);
            if (old < 0)
            {
                MC_CHECK(s == ERROR_RBTREE_NOT_FOUND, "delete-absent", "delete of an absent key returned %x", (unsigned)s);
                if (op == 1) MC_CHECK(r == NULL, "delete-output", "a failed delete did not set its output to NULL");
            }
            else if (op == 1)
            { MC_CHECK(s == STATUS_SUCCESS && r == &tr_tab[old]->hdr && !tr_released[old], "delete", "delete of key %d is wrong", key); tr_released[old] = 1; M[k][key] = -1; }
            else
            { MC_CHECK((s != STATUS_SUCCESS) == tr_tab[old]->fail, "delete-status", "delete returned %x", (unsigned)s); MC_CHECK(tr_released[old] == 1, "delete-leak", "delete did not release the resource"); M[k][key] = -1; }
        }
        else
        {
            if (old < 0) { mc_trace("skip"); return; }
            resource* r = (resource*)1; mc_trace("delete_node(tree %d, key %d, %s)", k, key, op == 3 ? "hand back" : "release");
            status s = rbtree_delete_node(op == 3 ? &r : NULL, t[k], nodeof[k][key]);
            if (op == 3) { MC_CHECK(s == STATUS_SUCCESS && r == &tr_tab[old]->hdr && !tr_released[old], "delete", "delete of the node of key %d is wrong", key); tr_released[old] = 1; }
            else { MC_CHECK((s != STATUS_SUCCESS) == tr_tab[old]->fail, "delete-status", "delete returned %x", (unsigned)s); MC_CHECK(tr_released[old] == 1, "delete-leak", "delete did not release the resource"); }
            M[k][key] = -1;
        }
        verify();
        int cnt = 0; for (int j = 0; j < 2; ++j) for (int i = 0; i < keys; ++i) cnt += M[j][i] >= 0;
        if (!cnt) MC_CHECK(mc_mem_live() == base, "leak", "empty trees, but %ld blocks remain", mc_mem_live() - base);
    }
    /* release in either order; the other must stay usable in between. */
    int o = mc_choose(2, "which tree is released first");
    for (int i = 0; i < 2; ++i)
    {
        int k = i ^ o; bool f = false; for (int j = 0; j < keys; ++j) if (M[k][j] >= 0 && tr_tab[M[k][j]]->fail) f = true;
        mc_trace("release tree %d", k);
        status s = resource_release(rbtree_resource_handle(t[k]));
        MC_CHECK((s != STATUS_SUCCESS) == f, "release-status", "release returned %x", (unsigned)s);
        if (i == 0)
        {
            int q = 1 - k; int key = 0; resource* r = NULL;
            for (key = 0; key < keys; ++key)
            { status fs = rbtree_find(&r, t[q], &key); MC_CHECK((fs == STATUS_SUCCESS) == (M[q][key] >= 0), "find", "after releasing the other tree find is wrong"); }
        }
    }
    for (int i = 0; i < tr_n; ++i) MC_CHECK(tr_released[i] == 1, "leak", "resource %d was released %d times", i, tr_released[i]);
    MC_CHECK(resource_release(allocator_resource_handle(a)) == STATUS_SUCCESS, "setup", "allocator");
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks were leaked", mc_mem_live());
    mc_step();
}
