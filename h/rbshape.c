/*
 * Explicit-state search of the red-black tree: every tree of at most N nodes
 * that insertions and deletions can reach, with every insertion point and every
 * deletion tried from each.  The code only compares keys, so the position
 * among the present keys is all that matters.  A state is the shape and colour
 * of the real tree; it is restored by replaying the operations that led to it.
 * mode 1: instead of the rules, each resource's release fails in turn when the tree
 * is cleared (and then used again) or released.
 */
#include "common.h"
#include <rcpr/rbtree.h>
#include <rcpr/compare.h>
#include "src/rbtree/rbtree_internal.h"
RCPR_IMPORT_rbtree;
RCPR_IMPORT_compare;
const char* mc_name = "rbshape";
#define MAXN 24
#define MAXPATH 64

typedef struct kr { resource hdr; double key; int live; int released; } kr;
static kr pool[MAXPATH * 2]; static int npool;
static status kr_release(resource* r) { kr* k = (kr*)r; if (k->released++) mc_fail("double-release", "a resource was released twice"); return k->live ? (status)0x80FF0003 : STATUS_SUCCESS; }
RCPR_VTABLE resource_vtable kr_vtable = { &kr_release };
static rcpr_comparison_result cmp(void* c, const void* a, const void* b)
{ (void)c; double x = *(const double*)a, y = *(const double*)b; return x < y ? RCPR_COMPARE_LT : x > y ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
static const void* keyfn(void* c, const resource* r) { (void)c; return &((const kr*)r)->key; }

static rbtree* t; static allocator* al;
static kr* sorted[MAXN + 1]; static int n;

/* op: 0..n inserts at that gap; then deletes of element i by key, by node. */
static void apply(int op, int by_node)
{
    if (op >= 0)
    {
        double lo = op > 0 ? sorted[op - 1]->key : (n ? sorted[0]->key - 2 : 0), hi = op < n ? sorted[op]->key : lo + 2;
        kr* k = &pool[npool++]; resource_init(&k->hdr, &kr_vtable); k->key = (lo + hi) / 2; k->released = k->live = 0;
        status s = rbtree_insert(t, &k->hdr);
        MC_CHECK(s == STATUS_SUCCESS, "insert-status", "insert of a new key failed with %x", (unsigned)s);
        memmove(&sorted[op + 1], &sorted[op], sizeof(kr*) * (size_t)(n - op)); sorted[op] = k; ++n;
    }
    else
    {
        int i = -op - 1; kr* k = sorted[i]; resource* r = NULL; status s;
        if (by_node)
        {
            rbtree_node* x = rbtree_root_node(t); rbtree_node* nil = rbtree_nil_node(t);
            while (x != nil) { kr* q = (kr*)rbtree_node_value(t, x); if (q == k) break; x = k->key < q->key ? rbtree_left_node(t, x) : rbtree_right_node(t, x); }
            MC_CHECK(x != nil, "search", "a present key is not reachable by comparing");
            s = rbtree_delete_node(&r, t, x);
        }
        else s = rbtree_delete(&r, t, &k->key);
        MC_CHECK(s == STATUS_SUCCESS, "delete-status", "delete of a present key failed with %x", (unsigned)s);
        MC_CHECK(r == &k->hdr, "delete", "delete handed back the wrong resource");
        MC_CHECK(!k->released, "delete-released", "delete released the resource it handed back");
        memmove(&sorted[i], &sorted[i + 1], sizeof(kr*) * (size_t)(n - i - 1)); --n;
    }
    mc_step();
}
static int idx; static uint64_t fp; static int steps_guard;
/* feasible (root colour, black height) pairs of a shape as bit sets. */
struct feas { uint64_t black, red; };
static struct feas walk(rbtree_node* x, rbtree_node* parent, int depth, int* height)
{
    rbtree_node* nil = rbtree_nil_node(t);
    if (x == nil) { *height = 0; fp = mc_hash(fp, 1); return (struct feas){ 1, 0 }; }
    if (++steps_guard > MAXN + 2 || depth > MAXN) mc_fail("shape", "the links of the tree do not form a tree");
    MC_CHECK(rbtree_parent_node(t, x) == parent, "parent", "a parent link is wrong");
    int hl, hr;
    fp = mc_hash(fp, 2 + (x->color == RBTREE_RED));
    struct feas l = walk(rbtree_left_node(t, x), x, depth + 1, &hl);
    MC_CHECK(idx < n && rbtree_node_value(t, x) == &sorted[idx]->hdr, "order", "in-order position %d does not hold the expected resource", idx);
    ++idx;
    struct feas r = walk(rbtree_right_node(t, x), x, depth + 1, &hr);
    *height = 1 + (hl > hr ? hl : hr);
    /* red root needs black children; black root adds one to the height. */
    uint64_t both = (l.black | l.red) & (r.black | r.red);
    return (struct feas){ both << 1, l.black & r.black };
}
static uint64_t verify(bool full)
{
    rbtree_node* nil = rbtree_nil_node(t); int height = 0;
    idx = 0; fp = 3; steps_guard = 0;
    struct feas f = walk(rbtree_root_node(t), nil, 0, &height);
    uint64_t mine = fp;
    MC_CHECK(idx == n, "size", "%d nodes, expected %d", idx, n);
    MC_CHECK(rbtree_count(t) == (size_t)n, "count", "count is %zu, expected %d", rbtree_count(t), n);
    if (n)
    {
        MC_CHECK(f.black != 0, "balance", "the shape of %d nodes (height %d) is not that of a red-black tree", n, height);
        /* the guarantee itself: height at most 2 log2(n + 1). */
        double lim = 1; int h2 = 0; while (lim * lim < (double)(n + 1) * (n + 1)) { lim *= 1.4142135623730951; ++h2; }
        MC_CHECK(height <= h2, "height", "height %d with %d nodes", height, n);
    }
    if (!full) return mine;
    rbtree_node* x = rbtree_root_node(t);
    if (n)
    {
        x = rbtree_minimum_node(t, rbtree_root_node(t));
        for (int i = 0; i < n; ++i) { MC_CHECK(x != nil && rbtree_node_value(t, x) == &sorted[i]->hdr, "successor", "successor walk is wrong at %d", i); x = rbtree_successor_node(t, x); }
        MC_CHECK(x == nil, "successor", "the successor of the last node is not nil");
        x = rbtree_maximum_node(t, rbtree_root_node(t));
        for (int i = n - 1; i >= 0; --i) { MC_CHECK(x != nil && rbtree_node_value(t, x) == &sorted[i]->hdr, "predecessor", "predecessor walk is wrong at %d", i); x = rbtree_predecessor_node(t, x); }
        MC_CHECK(x == nil, "predecessor", "the predecessor of the first node is not nil");
    }
    else MC_CHECK(x == nil, "empty-root", "an empty tree has a root");
    for (int i = 0; i < n; ++i)
    {
        resource* r = NULL; MC_CHECK(rbtree_find(&r, t, &sorted[i]->key) == STATUS_SUCCESS && r == &sorted[i]->hdr, "find", "find misses a present key");
    }
    for (int i = 0; i <= n; ++i)
    {
        double k = n == 0 ? 0.5 : i == 0 ? sorted[0]->key - 1 : i == n ? sorted[n - 1]->key + 1 : (sorted[i - 1]->key + sorted[i]->key) / 2;
        resource* r = (resource*)1; status s = rbtree_find(&r, t, &k);
        MC_CHECK(s == ERROR_RBTREE_NOT_FOUND && r == NULL, "find-absent", "find of an absent key returned %x", (unsigned)s);
    }
    return mine;
}
static void fresh(void)
{
    mc_mem_begin(); npool = 0; n = 0; t = NULL; al = NULL;
    MC_CHECK(malloc_allocator_create(&al) == STATUS_SUCCESS, "setup", "allocator");
    MC_CHECK(rbtree_create(&t, al, &cmp, &keyfn, NULL) == STATUS_SUCCESS, "create", "rbtree_create failed");
}
static void drop(void)
{
    MC_CHECK(resource_release(rbtree_resource_handle(t)) == STATUS_SUCCESS, "release-status", "release failed");
    for (int i = 0; i < n; ++i) MC_CHECK(sorted[i]->released == 1, "leak", "the tree's release did not release a resource");
    MC_CHECK(resource_release(allocator_resource_handle(al)) == STATUS_SUCCESS, "setup", "allocator");
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks were leaked", mc_mem_live());
    mc_exec();
}
/* the tree is there: the release of one of its resources fails. */
static void failing(int i, bool clear)
{
    int had = n; sorted[i]->live = 1; mc_nontrivial();
    status s = clear ? rbtree_clear(t) : resource_release(rbtree_resource_handle(t)); mc_step();
    MC_CHECK(s == (status)0x80FF0003, "hidden-failure", "the failing release of element %d of %d was answered with %x", i, had, (unsigned)s);
    for (int k = 0; k < had; ++k) MC_CHECK(sorted[k]->released == 1, "leak", "element %d of %d was released %d times when that of %d failed", k, had, sorted[k]->released, i);
    n = 0;
    if (clear) { verify(true); apply(0, 0); apply(1, 0); verify(true); drop(); }
    else { MC_CHECK(resource_release(allocator_resource_handle(al)) == STATUS_SUCCESS && mc_mem_live() == 0, "leak", "%ld blocks were leaked", mc_mem_live()); mc_exec(); }
}
struct st { int parent; signed char op; short size; short depth; };
static struct st* S; static long nS, capS; static uint64_t* H; static uint64_t hm;
static bool seen(uint64_t h) { if (!h) h = 1; uint64_t i = h & hm; while (H[i]) { if (H[i] == h) return true; i = (i + 1) & hm; } H[i] = h; return false; }
void mc_setup(void) {}
int mc_scenarios(void) { return 1; }
void mc_run(int scenario)
{
    (void)scenario;
    capS = 1 << 22; S = mc_xmalloc(sizeof(struct st) * (size_t)capS); hm = (1u << 23) - 1; H = mc_xmalloc(8 * (hm + 1)); memset(H, 0, 8 * (hm + 1));
    long last = 1; nS = 0; S[nS++] = (struct st){ -1, 0, 0, 0 };
    fresh(); uint64_t h0 = verify(true); drop(); seen(h0); mc_state(h0);
    for (long i = 0; i < nS; ++i)
    {
        signed char path[MAXPATH]; int d = S[i].depth; { long j = i; for (int k = d; k > 0; --k) { path[k - 1] = S[j].op; j = S[j].parent; } }
        int sz = S[i].size; int nops = (sz < mc_bound ? sz + 1 : 0) + 2 * sz;
        for (int o = 0; o < nops; ++o)
        {
            int ins = sz < mc_bound ? sz + 1 : 0; int op = o < ins ? o : -(((o - ins) >> 1) + 1); int by_node = o >= ins && ((o - ins) & 1);
            char ctx[512]; size_t l = 0; for (int k = 0; k < d && l < 480; ++k) l += (size_t)snprintf(ctx + l, 512 - l, "%s%d ", path[k] >= 0 ? "i" : "d", path[k] >= 0 ? path[k] : -path[k] - 1);
            snprintf(ctx + l, 512 - l, "%s%d", op >= 0 ? "i" : by_node ? "D" : "d", op >= 0 ? op : -op - 1);
            mc_context(ctx);
            fresh(); for (int k = 0; k < d; ++k) apply(path[k], 0);
            apply(op, by_node);
            uint64_t h = verify(true); int n0 = n;
            if (!by_node && !seen(h))
            {
                mc_state(h);
                if (nS < capS && d + 1 < MAXPATH) S[nS++] = (struct st){ (int)i, (signed char)op, (short)n, (short)(d + 1) };
                if (nS % 997 == 3 || nS < 4) mc_trace("state %ld: ops %s -> %d nodes", nS, ctx, n);
            }
            drop();
            if (mc_mode == 1 && S[nS - 1].parent == (int)i && S[nS - 1].op == op && nS > last) { last = nS; for (int f = 0; f < 2 * n0; ++f) { fresh(); for (int k = 0; k < d; ++k) apply(path[k], 0); apply(op, 0); failing(f / 2, f & 1); } }
        }
    }
    mc_xfree(S); mc_xfree(H);
}
