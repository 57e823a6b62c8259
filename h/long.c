/*
 * Long histories: containers filled up to a size around a power of two in one of
 * a few ways, one or two operations at either end or in the middle, and emptied in
 * one of a few ways, against arrays.
 * mode 0: doubly linked lists.  mode 1: singly linked lists.  mode 2: queues.
 * mode 3: red-black trees.
 * bound: operations between filling and emptying; bound2: how many of the sizes.
 */
#include "common.h"
#include <rcpr/compare.h>
#include <rcpr/list.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>
RCPR_IMPORT_list; RCPR_IMPORT_slist; RCPR_IMPORT_queue; RCPR_IMPORT_rbtree; RCPR_IMPORT_compare;
const char* mc_name = "long";
static const int LEN[] = { 5, 7, 8, 9, 11, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537 };
enum { NLEN = sizeof LEN / sizeof *LEN, CAP = 65700 };
static allocator* al;

/* ---- what is put in ---- */
typedef struct item { resource hdr; int key, released; } item;
static item* pool; static int np;
static status item_release(resource* r) { item* i = (item*)r; if (i < pool || i >= pool + np) mc_fail("release-garbage", "something was released that was never put in"); if (i->released++) mc_fail("double-release", "element %d was released twice", i->key); return STATUS_SUCCESS; }
RCPR_VTABLE resource_vtable item_vtable = { &item_release };
static item* fresh(void) { if (np >= CAP + 300) abort(); item* i = &pool[np++]; resource_init(&i->hdr, &item_vtable); i->key = np - 1; i->released = 0; return i; }
static void take(resource* r) { item* i = (item*)r; MC_CHECK(!i->released, "handed-back-released", "element %d was handed back after its release", i->key); i->released = 1; }
static void all_released(void)
{
    for (int i = 0; i < np; ++i) MC_CHECK(pool[i].released == 1, "leak", "element %d of %d was released %d times", i, np, pool[i].released);
    MC_CHECK(resource_release(allocator_resource_handle(al)) == STATUS_SUCCESS && mc_mem_live() == 0, "leak", "%ld blocks were leaked", mc_mem_live());
}

/* ---- lists ---- */
typedef void L; typedef void N;
static struct api {
    status (*create)(L**, allocator*); status (*insert_head)(L*, resource*); status (*append_tail)(L*, resource*); status (*append)(N*, resource*); status (*insert)(N*, resource*);
    status (*child_swap)(N*, resource**); status (*pop)(L*, resource**); status (*next_pop)(N*, resource**); void (*swap)(L*, L*); status (*clear)(L*); resource* (*handle)(L*);
    status (*head)(N**, L*); status (*tail)(N**, L*); size_t (*count)(L*); status (*child)(resource**, N*); status (*next)(N**, N*); status (*prev)(N**, N*);
} A;
static L* l[2]; static item** M[2]; static int mn[2]; static N** nodes[2];
static void ins(int k, int at, item* t, status s) { MC_CHECK(s == STATUS_SUCCESS, "insert-status", "insertion returned %x", (unsigned)s); memmove(&M[k][at + 1], &M[k][at], sizeof(item*) * (size_t)(mn[k] - at)); M[k][at] = t; ++mn[k]; }
static void del(int k, int at, status s, resource* r)
{
    MC_CHECK(s == STATUS_SUCCESS, "pop-status", "pop returned %x", (unsigned)s);
    if (at >= mn[k]) { MC_CHECK(r == NULL, "pop-empty", "something came out of nothing"); return; }
    MC_CHECK(r == &M[k][at]->hdr, "pop", "pop gave something else than element %d", at); take(r); memmove(&M[k][at], &M[k][at + 1], sizeof(item*) * (size_t)(mn[k] - at - 1)); --mn[k];
}
static void verify(void)
{
    for (int k = 0; k < 2; ++k)
    {
        N* n = NULL; N* last = NULL; int c = 0; MC_CHECK(A.head(&n, l[k]) == STATUS_SUCCESS, "head-status", "head failed");
        for (; n; ++c)
        {
            resource* r = NULL; MC_CHECK(c < mn[k], "length", "list %d has more than its %d nodes", k, mn[k]); MC_CHECK(A.child(&r, n) == STATUS_SUCCESS && r == (M[k][c] ? &M[k][c]->hdr : NULL), "order", "list %d: the element at %d of %d is wrong", k, c, mn[k]);
            nodes[k][c] = last = n; N* x = n; MC_CHECK(A.next(&x, n) == STATUS_SUCCESS, "next-status", "next failed"); n = x;
        }
        MC_CHECK(c == mn[k], "length", "list %d: %d nodes, expected %d", k, c, mn[k]); MC_CHECK(A.count(l[k]) == (size_t)c, "count", "list %d: count is %zu, %d nodes", k, A.count(l[k]), c);
        N* t = (N*)1; MC_CHECK(A.tail(&t, l[k]) == STATUS_SUCCESS && t == last, "tail", "list %d: the tail is wrong, %d nodes", k, c);
        if (A.prev) { for (; t && c > 0; ) { --c; MC_CHECK(nodes[k][c] == t, "backward", "list %d: the backward walk is wrong at %d", k, c); N* p = t; MC_CHECK(A.prev(&p, t) == STATUS_SUCCESS, "prev-status", "prev failed"); t = p; } MC_CHECK(c == 0 && !t, "backward", "list %d: the backward walk stops at %d", k, c); }
    }
    mc_state(mc_hash((uint64_t)mn[0] << 20 | (uint64_t)mn[1], (uint64_t)(mn[0] ? M[0][mn[0] / 2] ? M[0][mn[0] / 2]->key : -1 : -2))); mc_step();
}
static void list_op(int k, int op, int at)
{
    resource* r = NULL; item* t;
    switch (op)
    {
        case 0: mc_trace("pop"); { status s = A.pop(l[k], &r); del(k, 0, s, r); } break;
        case 1: mc_trace("append_tail"); t = fresh(); ins(k, mn[k], t, A.append_tail(l[k], &t->hdr)); break;
        case 2: mc_trace("insert_head"); t = fresh(); ins(k, 0, t, A.insert_head(l[k], &t->hdr)); break;
        case 3: mc_trace("append after node %d", at); if (at >= mn[k]) break; t = fresh(); ins(k, at + 1, t, A.append(nodes[k][at], &t->hdr)); break;
        case 4: if (at >= mn[k]) break;
            if (A.insert) { mc_trace("insert before node %d", at); t = fresh(); ins(k, at, t, A.insert(nodes[k][at], &t->hdr)); }
            else { mc_trace("pop the node after %d", at); status s = A.next_pop(nodes[k][at], &r); del(k, at + 1, s, r); } break;
        case 5: mc_trace("swap the element of node %d", at); if (at >= mn[k]) break; t = fresh(); r = &t->hdr; MC_CHECK(A.child_swap(nodes[k][at], &r) == STATUS_SUCCESS && r == &M[k][at]->hdr, "child-swap", "swapping an element is wrong"); take(r); M[k][at] = t; break;
        case 6: mc_trace("clear"); MC_CHECK(A.clear(l[k]) == STATUS_SUCCESS, "clear-status", "clear failed"); for (int i = 0; i < mn[k]; ++i) MC_CHECK(M[k][i]->released == 1, "clear-leak", "element %d was released %d times", i, M[k][i]->released); mn[k] = 0; break;
        default: mc_trace("swap"); A.swap(l[0], l[1]); item** q = M[0]; M[0] = M[1]; M[1] = q; int c = mn[0]; mn[0] = mn[1]; mn[1] = c; break;
    }
    verify();
}
static int where(int n, const char* what) { int p[] = { 0, n - 1, n / 2, n - 2, 1 }; return p[mc_choose(n > 4 ? 5 : 2, what)]; }
static void run_list(int len)
{
    mn[0] = mn[1] = 0; for (int k = 0; k < 2; ++k) { l[k] = NULL; MC_CHECK(A.create(&l[k], al) == STATUS_SUCCESS, "create", "create failed"); }
    int how = mc_choose(4, "how it is filled"), other = mc_choose(2, "what the other list holds") * 3; item** buf = mc_xmalloc(sizeof(item*) * 2 * CAP); M[0] = buf; mc_trace("fill with %d, %d", len, how);
    for (int i = 0; i < len; ++i)
    {
        item* t = fresh(); N* n = NULL;
        /* the model is filled afterwards. */
        status s; if (how == 0 || i == 0 || (how == 2 && i & 1)) s = A.append_tail(l[0], &t->hdr); else if (how == 1 || how == 2) s = A.insert_head(l[0], &t->hdr); else { MC_CHECK(A.tail(&n, l[0]) == STATUS_SUCCESS && n, "tail-status", "tail"); s = A.append(n, &t->hdr); }
        MC_CHECK(s == STATUS_SUCCESS, "insert-status", "insertion returned %x", (unsigned)s);
    }
    /* alternating: odd ones at the back in order, even ones at the front; the first is in the middle. */
    int c = 0; item** m = M[0]; if (how == 1) for (int i = len - 1; i >= 0; --i) m[c++] = &pool[i]; else if (how == 2) { for (int i = (len - 1) & ~1; i >= 2; i -= 2) m[c++] = &pool[i]; m[c++] = &pool[0]; for (int i = 1; i < len; i += 2) m[c++] = &pool[i]; } else for (int i = 0; i < len; ++i) m[c++] = &pool[i];
    mn[0] = len; M[1] = buf + CAP; for (int i = 0; i < other; ++i) { item* t = fresh(); ins(1, mn[1], t, A.append_tail(l[1], &t->hdr)); }
    verify();
    for (int i = 0; i < mc_bound; ++i) { int k = mn[0] >= mn[1] ? 0 : 1; int op = mc_choose(8, "operation"), at = op >= 3 && op <= 5 && mn[k] ? where(mn[k], "place") : 0; list_op(k, op, at); }
    int end = mc_choose(4, "how it is emptied"); int k = mn[0] >= mn[1] ? 0 : 1; mc_trace("empty, %d", end);
    if (end == 0) { int o = 0; resource* r; while (o < mn[k]) { r = NULL; MC_CHECK(A.pop(l[k], &r) == STATUS_SUCCESS && r == &M[k][o]->hdr, "pop", "pop %d gave something else", o); take(r); ++o; MC_CHECK(A.count(l[k]) == (size_t)(mn[k] - o), "count", "count is %zu after %d of %d pops", A.count(l[k]), o, mn[k]); } mn[k] = 0; verify(); list_op(k, 1, 0); }
    else if (end == 1) { list_op(k, 6, 0); list_op(k, 2, 0); list_op(k, 1, 0); }
    else if (end == 2 && !A.insert) { while (mn[k] > 1) { resource* r = NULL; MC_CHECK(A.next_pop(nodes[k][0], &r) == STATUS_SUCCESS && r == &M[k][1]->hdr, "pop", "pop of the next node gave something else"); take(r); M[k][1] = M[k][0]; ++M[k]; --mn[k]; } verify(); }
    else if (end == 2) list_op(0, 7, 0);
    int first = end & 1; for (int i = 0; i < 2; ++i) MC_CHECK(resource_release(A.handle(l[i ^ first])) == STATUS_SUCCESS, "release-status", "release failed");
    mc_xfree(buf); all_released();
}

/* ---- queues: counts going up and down ---- */
static void run_queue(int len)
{
    queue* q = NULL; MC_CHECK(queue_create(&q, al) == STATUS_SUCCESS, "create", "create failed"); item** ring = mc_xmalloc(sizeof(item*) * 4 * CAP); int lo = 2 * CAP, hi = lo;
    for (int i = 0; i <= mc_bound; ++i)
    {
        int op = i ? mc_choose(5, "operation") : mc_choose(2, "operation"); int amount = i ? (int[]){ 1, 2, len / 2, len - 1 }[mc_choose(len > 5 ? 4 : 2, "how many")] : len; mc_trace("%s %d", op == 0 ? "append" : op == 1 ? "insert" : op == 2 ? "pop" : op == 3 ? "append and pop" : "insert and pop", amount);
        for (int j = 0; j < amount && np < CAP; ++j)
        {
            if (op == 0 || op == 3) { item* t = fresh(); MC_CHECK(queue_append(q, &t->hdr) == STATUS_SUCCESS, "insert-status", "append failed"); ring[hi++] = t; }
            if (op == 1 || op == 4) { item* t = fresh(); MC_CHECK(queue_insert(q, &t->hdr) == STATUS_SUCCESS, "insert-status", "insert failed"); ring[--lo] = t; }
            MC_CHECK(queue_count(q) == (size_t)(hi - lo), "count", "count is %zu, expected %d", queue_count(q), hi - lo);
            if (op >= 2) { resource* r = NULL; MC_CHECK(queue_pop(q, &r) == STATUS_SUCCESS, "pop-status", "pop failed"); if (lo == hi) MC_CHECK(!r, "pop-empty", "an empty queue gave something"); else { MC_CHECK(r == &ring[lo]->hdr, "fifo", "pop gave something else"); take(r); ++lo; } }
        }
        MC_CHECK(queue_count(q) == (size_t)(hi - lo), "count", "count is %zu, expected %d", queue_count(q), hi - lo); mc_state((uint64_t)(hi - lo) * 8 + (uint64_t)op); mc_step();
    }
    if (mc_choose(2, "drain before release"))
    {
        while (lo < hi) { resource* r = NULL; MC_CHECK(queue_pop(q, &r) == STATUS_SUCCESS && r == &ring[lo]->hdr, "fifo", "pop gave something else, %d left", hi - lo); take(r); ++lo; MC_CHECK(queue_count(q) == (size_t)(hi - lo), "count", "count is %zu, expected %d", queue_count(q), hi - lo); }
        resource* r = NULL; MC_CHECK(queue_pop(q, &r) == STATUS_SUCCESS && !r, "pop-empty", "an empty queue gave something");
    }
    MC_CHECK(resource_release(queue_resource_handle(q)) == STATUS_SUCCESS, "release-status", "release failed"); mc_xfree(ring); all_released(); mc_step();
}

/* ---- trees ---- */
static rcpr_comparison_result cmp(void* c, const void* a, const void* b) { (void)c; int x = *(const int*)a, y = *(const int*)b; return x < y ? RCPR_COMPARE_LT : x > y ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
static const void* keyfn(void* c, const resource* r) { (void)c; return &((const item*)r)->key; }
/* the i-th of n in an order of one of six kinds. */
static int perm(int kind, int i, int n)
{
    switch (kind)
    {
        case 0: return i;
        case 1: return n - 1 - i;
        case 2: return i & 1 ? n - 1 - i / 2 : i / 2;                               /* from the ends. */
        case 3: return i & 1 ? n / 2 - (i + 1) / 2 : n / 2 + i / 2;                    /* from the middle. */
        case 4: return (int)((long)i * 2 < n ? i * 2 : ((long)i - (n + 1) / 2) * 2 + 1); /* even ones, then odd ones. */
        default: { long p = 7919; while (n % p == 0) p += 2; return (int)((long)i * p % n); }
    }
}
static rbtree* t; static char* in;
static int walk(rbtree_node* x, rbtree_node* parent, int lo, int hi, int* cnt)
{
    if (x == rbtree_nil_node(t)) return 0;
    item* i = (item*)rbtree_node_value(t, x); MC_CHECK(rbtree_parent_node(t, x) == parent, "parent", "a parent link is wrong"); MC_CHECK(i->key >= lo && i->key <= hi && in[i->key], "order", "the node of key %d is at the wrong place or was deleted", i->key); ++*cnt;
    int a = walk(rbtree_left_node(t, x), x, lo, i->key - 1, cnt), b = walk(rbtree_right_node(t, x), x, i->key + 1, hi, cnt); return 1 + (a > b ? a : b);
}
static void verify_tree(int n, int have, bool full)
{
    int c = 0, h = walk(rbtree_root_node(t), rbtree_nil_node(t), 0, n - 1, &c); MC_CHECK(c == have, "size", "%d nodes, expected %d", c, have); MC_CHECK(rbtree_count(t) == (size_t)have, "count", "count is %zu, expected %d", rbtree_count(t), have);
    double lim = 1; int h2 = 0; while (lim * lim < (double)(have + 1) * (have + 1)) { lim *= 1.4142135623730951; ++h2; } MC_CHECK(h <= h2, "height", "height %d with %d nodes", h, have);
    mc_state(mc_hash((uint64_t)n << 20 | (uint64_t)have, (uint64_t)h)); mc_step(); if (!full) return;
    rbtree_node* nil = rbtree_nil_node(t); rbtree_node *f = have ? rbtree_minimum_node(t, rbtree_root_node(t)) : nil, *b = have ? rbtree_maximum_node(t, rbtree_root_node(t)) : nil;
    for (int i = 0; i < n; ++i)
    {
        resource* r = (resource*)1; status s = rbtree_find(&r, t, &i);
        if (in[i]) { MC_CHECK(s == STATUS_SUCCESS && ((item*)r)->key == i, "find", "find misses key %d", i); MC_CHECK(f != nil && rbtree_node_value(t, f) == r, "successor", "the walk forwards misses key %d", i); f = rbtree_successor_node(t, f); }
        else MC_CHECK(s == ERROR_RBTREE_NOT_FOUND && !r, "find-absent", "find of absent key %d gave %x", i, (unsigned)s);
        int j = n - 1 - i; if (in[j]) { MC_CHECK(b != nil && ((item*)rbtree_node_value(t, b))->key == j, "predecessor", "the walk backwards misses key %d", j); b = rbtree_predecessor_node(t, b); }
    }
    MC_CHECK(f == nil && b == nil, "walk", "a walk does not end");
}
static void run_tree(int len)
{
    t = NULL; MC_CHECK(rbtree_create(&t, al, &cmp, &keyfn, NULL) == STATUS_SUCCESS, "create", "create failed"); in = mc_xmalloc((size_t)len + 1); memset(in, 0, (size_t)len + 1); char* put = mc_xmalloc((size_t)len + 1); memset(put, 0, (size_t)len + 1);
    int how = mc_choose(6, "order of insertion"), out = mc_choose(8, "order of deletion"); mc_trace("%d keys, order %d, then %d", len, how, out); int every = len <= 65 ? 1 : len / 24; np = len; 
    for (int i = 0; i < len; ++i) { resource_init(&pool[i].hdr, &item_vtable); pool[i].key = i; pool[i].released = 0; }
    for (int i = 0; i < len; ++i)
    {
        int k = perm(how, i, len); if (k < 0 || k >= len || put[k]) { fprintf(stderr, "perm %d %d %d gives %d\n", how, i, len, k); abort(); } put[k] = 1;
        MC_CHECK(rbtree_insert(t, &pool[k].hdr) == STATUS_SUCCESS, "insert-status", "insertion of key %d failed", k); in[k] = 1; item dup; resource_init(&dup.hdr, &item_vtable); dup.key = k; if (i % every == 0) { MC_CHECK(rbtree_insert(t, &dup.hdr) == ERROR_RBTREE_DUPLICATE, "duplicate", "key %d was taken twice", k); verify_tree(len, i + 1, false); }
    }
    verify_tree(len, len, true); int have = len;
    if (out < 7) for (int i = 0; i < len; ++i)
    {
        resource* r = NULL; int k; status s;
        if (out == 6) { k = ((item*)rbtree_node_value(t, rbtree_root_node(t)))->key; s = rbtree_delete_node(&r, t, rbtree_root_node(t)); } else { k = perm(out, i, len); if (!in[k]) continue; s = rbtree_delete(&r, t, &k); }
        MC_CHECK(s == STATUS_SUCCESS && r == &pool[k].hdr, "delete", "deletion of key %d gave %x", k, (unsigned)s); take(r); in[k] = 0; --have; if (i % every == 0) verify_tree(len, have, i % (every * 8) == 0);
        if (i == len / 2 && mc_choose(2, "stop half way")) break;
    }
    else if (mc_choose(2, "clear")) { MC_CHECK(rbtree_clear(t) == STATUS_SUCCESS, "clear-status", "clear failed"); for (int i = 0; i < len; ++i) in[i] = 0; have = 0; verify_tree(len, 0, true); }
    verify_tree(len, have, true); MC_CHECK(resource_release(rbtree_resource_handle(t)) == STATUS_SUCCESS, "release-status", "release failed"); mc_xfree(in); mc_xfree(put); all_released();
}

void mc_setup(void)
{
    pool = mc_xmalloc(sizeof(item) * (CAP + 400)); for (int k = 0; k < 2; ++k) nodes[k] = mc_xmalloc(sizeof(N*) * CAP);
#define F(x) (void*)&RCPR_SYM(x)
#define S(f, n) *(void**)&A.f = mc_mode ? F(slist_##n) : F(list_##n)
    S(create, create); S(insert_head, insert_head); S(append_tail, append_tail); S(append, append); S(child_swap, node_child_swap); S(pop, pop); S(swap, swap); S(clear, clear); S(handle, resource_handle); S(head, head); S(tail, tail); S(count, count); S(child, node_child); S(next, node_next);
    if (!mc_mode) { *(void**)&A.insert = F(list_insert); *(void**)&A.prev = F(list_node_prev); } else *(void**)&A.next_pop = F(slist_node_next_pop);
}
int mc_scenarios(void) { return mc_bound2 < NLEN ? mc_bound2 : NLEN; }
void mc_run(int scenario)
{
    mc_mem_begin(); np = 0; al = NULL; MC_CHECK(malloc_allocator_create(&al) == STATUS_SUCCESS, "setup", "allocator"); int len = LEN[scenario];
    if (len > 64) mc_nontrivial();
    if (mc_mode < 2) run_list(len); else if (mc_mode == 2) run_queue(len); else run_tree(len);
}
