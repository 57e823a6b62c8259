/*
 * Which allocator a block comes from and goes back to.
 * Objects that work together are created with up to three allocators, in every assignment, and used in a fixed story with choices
 * (which container, swap or not, the order of the releases, one allocation that fails). Every new block must come from
 * one of the allocators that the operation was given or whose object it works on, and every block goes back to the one it came from.
 */
#define _GNU_SOURCE
#include "common.h"
#include "vk.h"
#include <netinet/in.h>
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/compare.h>
#include <rcpr/condition.h>
#include <rcpr/fiber.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/psock.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>
#include <rcpr/stack.h>
#include <rcpr/string.h>
#include <rcpr/thread.h>
#include <rcpr/uuid.h>
#include <sys/mman.h>
RCPR_IMPORT_auto_reset_trigger; RCPR_IMPORT_bigint; RCPR_IMPORT_compare; RCPR_IMPORT_condition; RCPR_IMPORT_fiber; RCPR_IMPORT_list; RCPR_IMPORT_message; RCPR_IMPORT_psock; RCPR_IMPORT_queue; RCPR_IMPORT_rbtree; RCPR_IMPORT_slist; RCPR_IMPORT_stack; RCPR_IMPORT_string_as(rcpr); RCPR_IMPORT_thread; RCPR_IMPORT_uuid;
const char* mc_name = "own";
void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
#define MAPS 8
static struct { void* p; size_t n; bool used; } maps[MAPS]; static int mapped;
void* __wrap_mmap(void* p, size_t n, int prot, int fl, int fd, off_t o)
{
    if (fd != -1 || p || n > 1024 * 1024 || (fl & MAP_SHARED)) return __real_mmap(p, n, prot, fl, fd, o);
    for (int i = 0; i < MAPS; ++i) if (!maps[i].used && (!maps[i].p || maps[i].n == n)) { if (!maps[i].p) { maps[i].p = __real_mmap(p, n, prot, fl, fd, o); maps[i].n = n; } maps[i].used = true; ++mapped; return maps[i].p; }
    return __real_mmap(p, n, prot, fl, fd, o);
}
int __wrap_munmap(void* p, size_t n) { for (int i = 0; i < MAPS; ++i) if (maps[i].used && maps[i].p == p) { maps[i].used = false; --mapped; return 0; } return __real_munmap(p, n); }
/* ---- three allocators that know their blocks ---- */
enum { NA = 3, BLK = 512 };
typedef struct { resource hdr; int id; long live; } oa; static oa AL[NA]; static struct { void* p; int own; } blk[BLK]; static int nblk; static int fresh; /* a bit for each allocator that gave a block since it was cleared. */
static long direct; /* blocks that came from an allocator. */
static int owner(const void* p) { for (int i = nblk - 1; i >= 0; --i) if (blk[i].p == p) return blk[i].own; return -1; }
static status own_allocate(allocator* a, void** p, size_t n)
{
    oa* o = (oa*)a; if (n > fa_cap) return ERROR_GENERAL_OUT_OF_MEMORY; ++direct; void* q = __wrap_malloc(n); if (!q) return ERROR_GENERAL_OUT_OF_MEMORY;
    MC_CHECK(nblk < BLK, "setup", "too many blocks"); blk[nblk].p = q; blk[nblk++].own = o->id; ++o->live; fresh |= 1 << o->id; *p = q; return STATUS_SUCCESS;
}
static status own_reclaim(allocator* a, void* p)
{
    oa* o = (oa*)a; int w = owner(p); MC_CHECK(w >= 0, "bad-reclaim", "something is given to allocator %d that no allocator gave out", o->id);
    MC_CHECK(w == o->id, "wrong-allocator", "a block of allocator %d is given to allocator %d", w, o->id);
    for (int i = 0; i < nblk; ++i) if (blk[i].p == p) { blk[i] = blk[--nblk]; break; }
    --o->live; __wrap_free(p); return STATUS_SUCCESS;
}
static status own_reallocate(allocator* a, void** p, size_t n)
{
    oa* o = (oa*)a; int w = *p ? owner(*p) : o->id; MC_CHECK(w == o->id, "wrong-allocator", "allocator %d is asked to resize a block of allocator %d", o->id, w);
    void* old = *p; ++direct; void* q = __wrap_realloc(old, n); if (!q) return ERROR_GENERAL_OUT_OF_MEMORY; for (int i = 0; i < nblk; ++i) if (blk[i].p == old) blk[i].p = q; fresh |= 1 << o->id; *p = q; return STATUS_SUCCESS;
}
RCPR_VTABLE allocator_vtable own_vt = { .hdr = { &fa_release }, .allocate_fn = &own_allocate, .reclaim_fn = &own_reclaim, .reallocate_fn = &own_reallocate, .control_fn = &fa_control };
static allocator* al(int i) { return (allocator*)&AL[i]; }
static int pick(const char* what) { int i = mc_choose(mc_bound < NA ? mc_bound : NA, what); mc_trace("%s: allocator %d", what, i); return i; }
/* ---- an operation, the allocators it may use, and possibly memory running out in it ---- */
static bool failed; static uint64_t shape;
static bool after(const char* name, status s, long fails, int allowed)
{
    mc_mem_fail_at(-1); mc_step(); bool hit = mc_mem_failures() > fails; mc_trace("%s: %x", name, (unsigned)s); shape = mc_hash(shape, mc_hash((uint64_t)fresh, (uint64_t)nblk)); mc_state(shape);
    MC_CHECK(!(fresh & ~allowed), "stray", "%s took memory of allocators %x, it may take that of %x", name, fresh, allowed);
    MC_CHECK(mc_mem_count() == direct, "direct", "%s took memory from no allocator", name);
    if (hit) { mc_nontrivial(); MC_CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY, "oom", "%s without memory: %x", name, (unsigned)s); return false; }
    MC_CHECK(s == STATUS_SUCCESS, "status", "%s: %x", name, (unsigned)s); return true;
}
static void before(void) { fresh = 0; if (mc_mode & 1 && !failed) { int k = mc_choose(9, "allocation that fails"); if (k) { mc_mem_fail_at(k - 1); failed = true; } } }
/* DO(operation, allowed): false when memory ran out in it. */
static bool ok_; static long f_;
#define DO(x, allowed) (before(), f_ = mc_mem_failures(), ok_ = after(#x, (x), f_, (allowed)))
#define FREE(h) do { fresh = 0; status s_ = resource_release(h); mc_trace("release " #h ": %x", (unsigned)s_); MC_CHECK(s_ == STATUS_SUCCESS, "release", "the release of " #h " gives %x", (unsigned)s_); mc_step(); } while (0)
#define GIVE(a, p) do { MC_CHECK(owner(p) == (a), "result", "a block asked of allocator %d came from %d", (a), owner(p)); MC_CHECK(allocator_reclaim(al(a), (p)) == STATUS_SUCCESS, "result", "reclaim"); } while (0)
/* releases n things, in any order. */
static void free_all(resource** h, int n) { while (n) { int i = n == 1 ? 0 : mc_choose(n, "released next"); if (h[i]) FREE(h[i]); h[i] = h[--n]; } }
static rcpr_comparison_result cmp(void* c, const void* a, const void* b) { (void)c; return a < b ? RCPR_COMPARE_LT : a > b ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
static const void* keyf(void* c, const resource* r) { (void)c; return r; }
static status fmain(void* c) { (void)c; return STATUS_SUCCESS; }
static status tmain(void* c) { (void)c; return STATUS_SUCCESS; }
static status dcb(void* c, fiber* f, int e, void* p) { (void)c; (void)f; (void)e; (void)p; return STATUS_SUCCESS; }
static status scb(void* ctx, fiber* yf, int ye, void* yp, fiber** rf, const rcpr_uuid** id, int* re, void** rp) { (void)ctx; (void)ye; (void)yp; (void)id; *rf = yf; *re = FIBER_SCHEDULER_RESUME_EVENT_MAIN; *rp = NULL; return STATUS_SUCCESS; }
static status u_rd(psock* s, void* x, void* d, size_t* n, bool b) { (void)s; (void)x; (void)b; memset(d, 3, *n); return STATUS_SUCCESS; }
static status u_wr(psock* s, void* x, const void* d, size_t* n) { (void)s; (void)x; (void)d; (void)n; return STATUS_SUCCESS; }
static const RCPR_SYM(psock_vtable) u_vt = { .read_fn = u_rd, .write_fn = u_wr };
static status vcat(char** o, allocator* a, const char* s, ...) { va_list l; va_start(l, s); status r = rcpr_vstrcat(o, a, s, l); va_end(l); return r; }
static char big[70000];
/* a resource that is not given away is released by the harness. */
static tr* elem(void) { return tr_new(0); }
static void keep(tr* t) { if (!tr_released[t->id]) resource_release(&t->hdr); }
/* ---- the stories ---- */
static void lists(bool sl)
{
    int a[2] = { pick("first list"), pick("second list") }, n[2] = { 0, 0 }; list* l[2] = { NULL, NULL }; slist* s[2] = { NULL, NULL }; resource* h[2] = { NULL, NULL };
    for (int i = 0; i < 2; ++i) if (sl ? DO(slist_create(&s[i], al(a[i])), 1 << a[i]) : DO(list_create(&l[i], al(a[i])), 1 << a[i])) h[i] = sl ? slist_resource_handle(s[i]) : list_resource_handle(l[i]); else { if (i) FREE(h[0]); return; }
    for (int step = 0; step < mc_bound2; ++step)
    {
        int op = mc_choose(6, "operation"); if (op == 5) break;
        if (op == 4) { mc_trace("swap"); fresh = 0; if (sl) slist_swap(s[0], s[1]); else list_swap(l[0], l[1]); MC_CHECK(!fresh, "stray", "a swap takes memory"); int t = n[0]; n[0] = n[1]; n[1] = t; continue; }
        int k = op & 1; resource* r = NULL;
        if (op < 2) { tr* t = elem(); if (sl ? DO(slist_append_tail(s[k], &t->hdr), 1 << a[k]) : DO(list_append_tail(l[k], &t->hdr), 1 << a[k])) ++n[k]; else keep(t); }
        else { status q = sl ? slist_pop(s[k], &r) : list_pop(l[k], &r); MC_CHECK((q == STATUS_SUCCESS && r) == (n[k] > 0), "pop", "pop: %x", (unsigned)q); if (n[k]) { --n[k]; keep((tr*)r); } }
        mc_step(); MC_CHECK(AL[0].live + AL[1].live + AL[2].live == 2 + n[0] + n[1], "blocks", "%ld blocks for two lists of %d and %d", AL[0].live + AL[1].live + AL[2].live, n[0], n[1]);
    }
    free_all(h, 2);
}
static void trees(void)
{
    int a[2] = { pick("first tree"), pick("second tree") }; rbtree* t[2] = { NULL, NULL }; resource* h[2] = { NULL, NULL }; tr* in[2][8]; int n[2] = { 0, 0 };
    for (int i = 0; i < 2; ++i) if (DO(rbtree_create(&t[i], al(a[i]), cmp, keyf, NULL), 1 << a[i])) h[i] = rbtree_resource_handle(t[i]); else { if (i) FREE(h[0]); return; }
    for (int step = 0; step < mc_bound2; ++step)
    {
        int op = mc_choose(6, "operation"); if (op == 5) break;
        if (op == 4) { mc_trace("swap"); rbtree_swap(t[0], t[1]); tr* q[8]; memcpy(q, in[0], sizeof q); memcpy(in[0], in[1], sizeof q); memcpy(in[1], q, sizeof q); int c = n[0]; n[0] = n[1]; n[1] = c; continue; }
        int k = op & 1; resource* r = NULL;
        if (op < 2) { tr* e = elem(); if (DO(rbtree_insert(t[k], &e->hdr), 1 << a[k])) in[k][n[k]++] = e; else keep(e); }
        else if (n[k]) { tr* e = in[k][--n[k]]; status q = rbtree_delete(&r, t[k], &e->hdr); MC_CHECK(q == STATUS_SUCCESS && r == &e->hdr, "delete", "delete: %x", (unsigned)q); keep(e); }
        mc_step(); MC_CHECK(AL[0].live + AL[1].live + AL[2].live == 2 + n[0] + n[1], "blocks", "%ld blocks for two trees of %d and %d", AL[0].live + AL[1].live + AL[2].live, n[0], n[1]);
    }
    free_all(h, 2);
}
static void queues(void)
{
    int a[2] = { pick("first queue"), pick("second queue") }, n[2] = { 0, 0 }; queue* q[2] = { NULL, NULL }; resource* h[2] = { NULL, NULL };
    for (int i = 0; i < 2; ++i) if (DO(queue_create(&q[i], al(a[i])), 1 << a[i])) h[i] = queue_resource_handle(q[i]); else { if (i) FREE(h[0]); return; }
    for (int step = 0; step < mc_bound2; ++step)
    {
        int op = mc_choose(5, "operation"); if (op == 4) break; int k = op & 1; resource* r = NULL;
        if (op < 2) { tr* t = elem(); if (DO(queue_append(q[k], &t->hdr), 1 << a[k])) ++n[k]; else keep(t); }
        else { status s = queue_pop(q[k], &r); MC_CHECK((s == STATUS_SUCCESS && r) == (n[k] > 0), "pop", "pop: %x", (unsigned)s); if (n[k]) { --n[k]; keep((tr*)r); } }
        mc_step();
    }
    free_all(h, 2);
}
static void values(void)
{
    int a = pick("allocator"), b = pick("other allocator"); char *p = NULL; static const rcpr_uuid id = { { 1, 2, 3 } }; resource* h[4] = { 0 }; int n = 0; bigint *x = NULL, *y = NULL; stack* st = NULL; auto_reset_trigger* g = NULL; message* m = NULL;
    if (DO(rcpr_strdup(&p, al(a), "abc"), 1 << a)) GIVE(a, p); if (DO(rcpr_strcatv(&p, al(a), "abc", "d", NULL), 1 << a)) GIVE(a, p); if (DO(vcat(&p, al(a), "abc", "d", NULL), 1 << a)) GIVE(a, p); if (DO(rcpr_uuid_to_string(&p, al(a), &id), 1 << a)) GIVE(a, p);
    if (DO(bigint_create_zero(&x, al(a), 200), 1 << a)) { h[n++] = bigint_resource_handle(x); if (DO(bigint_clone(&y, al(b), x), 1 << b)) h[n++] = bigint_resource_handle(y); }
    if (DO(stack_create(&st, al(a), 16384), 1 << a)) h[n++] = stack_resource_handle(st); if (DO(auto_reset_trigger_create(&g, al(b)), 1 << b)) h[n++] = auto_reset_trigger_resource_handle(g);
    free_all(h, n); tr* t = elem(); if (DO(message_create(&m, al(b), 3, &t->hdr), 1 << b)) FREE(message_resource_handle(m)); else keep(t);
}
static void threads(void)
{
    int a = pick("mutex"), b = pick("condition variable"), c = pick("thread"); thread_mutex* m = NULL; thread_cond* v = NULL; thread* t = NULL; resource* h[3]; int n = 0;
    if (DO(thread_mutex_create(&m, al(a)), 1 << a)) { thread_mutex_lock* k = NULL; if (DO(thread_mutex_lock_acquire(&k, m), 0)) FREE(thread_mutex_lock_resource_handle(k)); h[n++] = thread_mutex_resource_handle(m); }
    if (DO(thread_cond_create(&v, al(b)), 1 << b)) h[n++] = thread_cond_resource_handle(v); if (DO(thread_create(&t, al(c), 65536, NULL, tmain), 1 << c)) h[n++] = thread_resource_handle(t);
    free_all(h, n);
}
static void fibers(void)
{
    int a = pick("scheduler"), b = pick("message discipline"), c = pick("condition discipline"), d = pick("message, fiber and discipline"), S = 1 << a; fiber_scheduler* sc = NULL; fiber_scheduler_discipline *md = NULL, *cd = NULL, *xd = NULL; mailbox_address mb = 0; conditional cv = 0; fiber *f = NULL, *g = NULL; message* m = NULL; tr* t;
    static fiber_scheduler_discipline_callback_fn vec[2] = { dcb, dcb }; static const rcpr_uuid id = { { 9 } };
    if (!DO(fiber_scheduler_create_with_disciplines(&sc, al(a)), S)) return;
    bool m1 = DO(message_discipline_get_or_create(&md, al(b), sc), S | 1 << b), c1 = DO(condition_discipline_get_or_create(&cd, al(c), sc), S | 1 << c);
    if (m1) { fiber_scheduler_discipline* e = NULL; DO(message_discipline_get_or_create(&e, al(d), sc), 0); MC_CHECK(e == md, "again", "another discipline"); }
    bool b1 = m1 && DO(mailbox_create(&mb, md), S | 1 << b), v1 = c1 && DO(conditional_create(&cv, cd), S | 1 << c);
    t = elem(); bool q1 = false; if (DO(message_create(&m, al(d), mb, &t->hdr), 1 << d)) { if (b1 && DO(message_send(mb, m, md), S | 1 << b)) q1 = true; else FREE(message_resource_handle(m)); } else keep(t);
    if (DO(fiber_scheduler_discipline_create(&xd, &id, al(d), NULL, 2, vec), 1 << d)) if (!mc_choose(2, "the discipline is added") || !DO(fiber_scheduler_discipline_add(sc, xd), S)) FREE(fiber_scheduler_discipline_resource_handle(xd));
    if (DO(fiber_create(&f, al(d), sc, 16384, NULL, fmain), 1 << d)) if (!mc_choose(2, "the fiber is added") || !DO(fiber_scheduler_add(sc, f), S)) FREE(fiber_resource_handle(f));
    if (q1 && mc_choose(2, "the message is received")) { message* r = NULL; if (DO(message_receive(mb, &r, md), S | 1 << b)) { MC_CHECK(r == m, "receive", "another message"); m = r; q1 = false; if (mc_choose(2, "released after the scheduler")) { FREE(fiber_scheduler_resource_handle(sc)); FREE(message_resource_handle(m)); return; } FREE(message_resource_handle(m)); } }
    if (b1 && mc_choose(2, "the mailbox is closed")) DO(mailbox_close(mb, md), S | 1 << b);
    if (v1 && mc_choose(2, "the conditional is closed")) DO(conditional_close(cv, cd), S | 1 << c);
    (void)g; FREE(fiber_scheduler_resource_handle(sc));
}
static void plain(void)
{
    int a = pick("scheduler"), b = pick("fiber"), c = pick("thread's fiber"); fiber_scheduler* sc = NULL; fiber *f = NULL, *g = NULL; resource* h[3]; int n = 0;
    if (DO(fiber_scheduler_create(&sc, al(a), NULL, scb), 1 << a)) h[n++] = fiber_scheduler_resource_handle(sc); else return;
    if (DO(fiber_create(&f, al(b), sc, 16384, NULL, fmain), 1 << b)) h[n++] = fiber_resource_handle(f); if (DO(fiber_create_for_thread(&g, sc, al(c)), 1 << c)) h[n++] = fiber_resource_handle(g);
    free_all(h, n);
}
static void buffers(void)
{
    int a = pick("socket"), b = pick("result"), c = pick("reader"); psock *s = NULL, *i = NULL; void* o = NULL; size_t n = 0; psock_br* br = NULL; resource* h[2]; int k = 0;
    if (DO(psock_create_from_buffer(&s, al(a), NULL, 0), 1 << a))
    {
        static const size_t sz[] = { 10, 5000, 20000, 60000 }; if (!mc_choose(2, "typed values only")) { for (int w = 0; w < 2; ++w) if (!DO(psock_write_raw_data(s, big, sz[mc_choose(4, "size")]), 1 << a)) goto end; if (DO(psock_from_buffer_get_output_buffer(s, al(b), &o, &n), 1 << b)) GIVE(b, o); FREE(psock_resource_handle(s)); return; }
        if (!DO(psock_write_boxed_data(s, "wxyz", 4), 1 << a) || !DO(psock_write_boxed_string(s, "abcd"), 1 << a) || !DO(psock_write_raw_data(s, "raw", 3), 1 << a)) goto end;
        if (!DO(psock_from_buffer_get_output_buffer(s, al(b), &o, &n), 1 << b)) goto end;
        bool cut = !(mc_mode & 1) && mc_choose(2, "the input is cut short"); if (cut) n = (size_t)mc_choose((int)n, "bytes of input");
        if (!DO(psock_create_from_buffer(&i, al(c), o, n), 1 << c)) { GIVE(b, o); goto end; }
        GIVE(b, o); psock* in = i; h[k++] = psock_resource_handle(i);
        if (mc_choose(2, "through a buffered reader")) { int d = pick("buffered reader"); if (!DO(psock_br_create_from_psock(&br, al(d), i), 1 << d)) goto endi; in = psock_br_psock_adapter(br); h[k++] = psock_br_resource_handle(br); }
        if (cut)
        {
            for (int w = 0, r = STATUS_SUCCESS; w < 3 && r == STATUS_SUCCESS; ++w) { int g = w == 0 ? b : w == 1 ? a : c; r = (int)(w == 0 ? psock_read_boxed_data(in, al(g), &o, &n) : w == 1 ? psock_read_boxed_string(in, al(g), (char**)&o, &n) : psock_read_raw_data(in, al(g), &o, 3)); mc_step(); if (r == STATUS_SUCCESS) GIVE(g, o); else mc_nontrivial(); }
        }
        else if (DO(psock_read_boxed_data(in, al(b), &o, &n), 1 << b)) { GIVE(b, o); if (DO(psock_read_boxed_string(in, al(a), (char**)&o, &n), 1 << a)) { GIVE(a, o); if (DO(psock_read_raw_data(in, al(c), &o, 3), 1 << c)) GIVE(c, o); if (!mc_mem_failures()) { status e = psock_read_raw_data(in, al(b), &o, 3); MC_CHECK(e != STATUS_SUCCESS, "end", "a read past the end"); } } }
    endi: while (k) FREE(h[--k]);
    end: FREE(psock_resource_handle(s));
    }
}
static int ends[4], nends;
static void sockets(void)
{
    int a = pick("scheduler"), b = pick("first socket"), c = pick("its wrapper"), e = pick("second wrapper"); fiber_scheduler* sc = NULL; fiber* mf = NULL; psock *s[2] = { NULL, NULL }; void* o = NULL; resource* h[4]; int k = 0; size_t n; psock_br* br = NULL;
    if (!DO(fiber_scheduler_create_with_disciplines(&sc, al(a)), 1 << a)) return; MC_CHECK(disciplined_fiber_scheduler_main_fiber_get(&mf, sc) == STATUS_SUCCESS, "setup", "main fiber"); h[k++] = fiber_scheduler_resource_handle(sc);
    for (int i = 0; i < 2; ++i)
    {
        int d[2], w = i ? e : c; vk_pair(SOCK_STREAM, d); ends[nends++] = d[1]; if (!DO(psock_create_from_descriptor(&s[i], al(b), d[0]), 1 << b)) { if (vk_is_open(d[0])) vk_drop(d[0]); continue; }
        psock* wrap = NULL; if (DO(psock_create_wrap_async(&wrap, al(w), mf, s[i]), 1 << w | 1 << a)) s[i] = wrap;
        vk_push(d[1], "abcdef", 6); if (DO(psock_read_raw_data(s[i], al(c), &o, 6), 1 << c)) GIVE(c, o);
        if (i) { if (DO(psock_br_create_from_psock(&br, al(a), s[i]), 1 << a)) FREE(psock_br_resource_handle(br)); }
        h[k++] = psock_resource_handle(s[i]);
    }
    free_all(h, k); (void)n;
}
static void others(void)
{
    int a = pick("user socket"), b = pick("connection"), c = pick("listener"); psock *u = NULL, *p = NULL, *l = NULL; resource* h[3]; int k = 0; void* o = NULL; struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; vk_host4 = 2;
    if (DO(psock_create_from_user_methods(&u, al(a), NULL, &u_vt), 1 << a)) { h[k++] = psock_resource_handle(u); if (DO(psock_read_raw_data(u, al(b), &o, 4), 1 << b)) GIVE(b, o); }
    before(); f_ = mc_mem_failures(); status s = psock_create_from_hostname_and_port(&p, al(b), "name", 80); if (s == STATUS_SUCCESS) { mc_mem_fail_at(-1); MC_CHECK(!(fresh & ~(1 << b)), "stray", "a connection took memory of allocators %x", fresh); mc_step(); h[k++] = psock_resource_handle(p); } else after("psock_create_from_hostname_and_port", s, f_, 1 << b);
    if (DO(psock_create_from_listen_address(&l, al(c), (struct sockaddr*)&sa, sizeof sa), 1 << c)) h[k++] = psock_resource_handle(l);
    free_all(h, k);
}
void mc_setup(void) { for (size_t i = 0; i < sizeof big; ++i) big[i] = (char)(i * 7 + i / 251); }
enum { STORIES = 11 };
int mc_scenarios(void) { return STORIES; }
void mc_run(int sc)
{
    tr_reset(); mc_mem_begin(); vk_reset(); vk_host6 = 0; vk_cap = 64; mapped = 0; nblk = 0; direct = 0; failed = false; shape = (uint64_t)sc; nends = 0; for (int i = 0; i < MAPS; ++i) maps[i].used = false;
    memset(AL, 0, sizeof AL); for (int i = 0; i < NA; ++i) { resource_init(&AL[i].hdr, &own_vt.hdr); AL[i].id = i; }
    switch (sc) { case 0: lists(false); break; case 1: lists(true); break; case 2: trees(); break; case 3: queues(); break; case 4: values(); break; case 5: threads(); break; case 6: fibers(); break; case 7: plain(); break; case 8: buffers(); break; case 9: sockets(); break; default: others(); }
    for (int i = 0; i < NA; ++i) MC_CHECK(AL[i].live == 0, "leak", "%ld blocks of allocator %d are left", AL[i].live, i);
    MC_CHECK(mc_mem_live() == 0 && mapped == 0, "leak", "%ld blocks, %d mappings are left", mc_mem_live(), mapped);
    for (int i = 0; i < tr_n; ++i) MC_CHECK(tr_released[i] == 1, "released", "an element was released %d times", tr_released[i]);
    for (int i = 0; i < nends; ++i) if (vk_is_open(ends[i])) vk_drop(ends[i]); if (vk_connect_peer >= 0) { if (vk_is_open(vk_connect_peer)) vk_drop(vk_connect_peer); vk_connect_peer = -1; }
    MC_CHECK(vk_open_count() == 0 && !vk_badclose && !vk_badfd, "leak", "%d descriptors are left", vk_open_count());
}
