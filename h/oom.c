/*
 * Constructors when memory runs out, and releases when reclaims fail.
 * mode 0: everything but sockets; mode 1: sockets.
 * For each object: no failure, each allocation or mapping failing; in each case any one
 * reclaim made while unwinding failing too (mc_bound 2: any two); after a failure the construction is repeated.
 * Then the release with any one reclaim failing (mc_bound 2: any two).
 */
#define _GNU_SOURCE
#include "common.h"
#include "vk.h"
#include <netinet/in.h>
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/compare.h>
#include <rcpr/condition.h>
#include <rcpr/fiber.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/psock.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>
#include <rcpr/stack.h>
#include <rcpr/string.h>
#include <rcpr/uuid.h>
#include <sys/mman.h>
RCPR_IMPORT_auto_reset_trigger; RCPR_IMPORT_bigint; RCPR_IMPORT_compare; RCPR_IMPORT_condition; RCPR_IMPORT_fiber; RCPR_IMPORT_list; RCPR_IMPORT_message; RCPR_IMPORT_psock; RCPR_IMPORT_queue; RCPR_IMPORT_rbtree; RCPR_IMPORT_slist; RCPR_IMPORT_stack; RCPR_IMPORT_string_as(rcpr); RCPR_IMPORT_uuid;
const char* mc_name = "oom";
#define OK(x) do { status s_ = (x); MC_CHECK(s_ == STATUS_SUCCESS, "setup", "%s failed: %x", #x, (unsigned)s_); } while (0)
/* mappings: few, reused, and one may fail. */
void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
#define MAPS 8
static struct { void* p; size_t n; bool used; } maps[MAPS]; static int mapped; static bool mmap_fail;
void* __wrap_mmap(void* p, size_t n, int prot, int fl, int fd, off_t o)
{
    if (fd != -1 || p || n > 1024 * 1024 || (fl & MAP_SHARED)) return __real_mmap(p, n, prot, fl, fd, o);
    if (mmap_fail) { mmap_fail = false; return MAP_FAILED; }
    for (int i = 0; i < MAPS; ++i) if (!maps[i].used && (!maps[i].p || maps[i].n == n)) { if (!maps[i].p) { maps[i].p = __real_mmap(p, n, prot, fl, fd, o); maps[i].n = n; } maps[i].used = true; ++mapped; return maps[i].p; }
    return __real_mmap(p, n, prot, fl, fd, o);
}
int __wrap_munmap(void* p, size_t n) { for (int i = 0; i < MAPS; ++i) if (maps[i].used && maps[i].p == p) { MC_CHECK(maps[i].n == n, "munmap", "a mapping of %zu bytes is unmapped with size %zu", maps[i].n, n); maps[i].used = false; --mapped; return 0; } return __real_munmap(p, n); }

static allocator* al; static fiber_scheduler* sched; static fiber* mainf; static fiber_scheduler_discipline *md, *cd; static bigint* big; static psock *child, *bufs; static int d2[2], lis; static void* out; static mailbox_address mb; static conditional cv; static tr* pay; static size_t bsize;
static rcpr_comparison_result cmp(void* c, const void* a, const void* b) { (void)c; return a < b ? RCPR_COMPARE_LT : a > b ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
static const void* keyf(void* c, const resource* r) { (void)c; return r; }
static status fmain(void* c) { (void)c; return STATUS_SUCCESS; }
static status dcb(void* c, fiber* f, int e, void* p) { (void)c; (void)f; (void)e; (void)p; return STATUS_SUCCESS; }
static status scb(void* ctx, fiber* yf, int ye, void* yp, fiber** rf, const rcpr_uuid** id, int* re, void** rp) { (void)ctx; (void)ye; (void)yp; (void)id; *rf = yf; *re = FIBER_SCHEDULER_RESUME_EVENT_MAIN; *rp = NULL; return STATUS_SUCCESS; }
static status u_rd(psock* s, void* x, void* d, size_t* n, bool b) { (void)s; (void)x; (void)d; (void)n; (void)b; return 7; }
static status u_wr(psock* s, void* x, const void* d, size_t* n) { (void)s; (void)x; (void)d; (void)n; return 7; }
static const RCPR_SYM(psock_vtable) u_vt = { .read_fn = u_rd, .write_fn = u_wr };
static status vcat(char** o, allocator* a, const char* s, ...) { va_list l; va_start(l, s); status r = rcpr_vstrcat(o, a, s, l); va_end(l); return r; }
enum { NUL, KEEP, ANY };                       /* what a failure does to the output. */
enum { RES, BLOCK, OTHER };                    /* how the object is disposed of. */
static char bigdata[70000];
enum { NEEDS_SCHED = 1, NEEDS_MD = 2, NEEDS_CD = 4, NEEDS_CHILD = 8, NEEDS_BUF = 16, NEEDS_BIG = 32, NEEDS_LIS = 64 };
enum { K_LIST, K_SLIST, K_QUEUE, K_RBTREE, K_STACK, K_BIG, K_CLONE, K_TRIGGER, K_UUID, K_DUP, K_CATV, K_VCAT, K_MALLOC, K_MSG, K_SCHED, K_SCHEDD, K_FIBER, K_FIBERT, K_DISC, K_MDISC, K_CDISC, K_MBOX, K_COND, K_SCHEDREL, N0,
    P_DESC = N0, P_BUFIN, P_BUFOUT, P_USER, P_ASYNC, P_BR, P_HOST, P_LISTEN, P_GETOUT, P_GROW, P_GROWBIG, P_RDATA, P_RBOX, P_RSTR, N1 };
static const struct { const char* name; int outk, disp, needs; } T[N1] = {
    { "list", NUL, RES, 0 }, { "slist", NUL, RES, 0 }, { "queue", NUL, RES, 0 }, { "rbtree", NUL, RES, 0 }, { "stack", NUL, RES, 0 }, { "bigint", NUL, RES, 0 }, { "bigint_clone", NUL, RES, NEEDS_BIG }, { "auto_reset_trigger", NUL, RES, 0 },
    { "uuid_to_string", NUL, BLOCK, 0 }, { "strdup", ANY, BLOCK, 0 }, { "strcatv", ANY, BLOCK, 0 }, { "vstrcat", ANY, BLOCK, 0 }, { "malloc_allocator", NUL, RES, 0 }, { "message", ANY, RES, 0 },
    { "fiber_scheduler", NUL, RES, 0 }, { "fiber_scheduler with disciplines", NUL, RES, 0 }, { "fiber", NUL, RES, NEEDS_SCHED }, { "fiber for a thread", NUL, RES, NEEDS_SCHED }, { "discipline", NUL, RES, 0 }, { "message discipline", ANY, OTHER, NEEDS_SCHED }, { "condition discipline", ANY, OTHER, NEEDS_SCHED },
    { "mailbox", ANY, OTHER, NEEDS_SCHED | NEEDS_MD }, { "conditional", ANY, OTHER, NEEDS_SCHED | NEEDS_CD }, { "fiber_scheduler with disciplines, released", NUL, RES, 0 },
    { "psock of a descriptor", NUL, OTHER, 0 }, { "psock of a buffer", NUL, RES, 0 }, { "psock of an output buffer", NUL, RES, 0 }, { "psock of user methods", NUL, RES, 0 }, { "asynchronous psock", KEEP, OTHER, NEEDS_SCHED | NEEDS_CHILD }, { "buffered reader", NUL, RES, NEEDS_CHILD },
    { "psock of a hostname", NUL, RES, 0 }, { "listening psock", NUL, RES, 0 }, { "output of a buffer", KEEP, BLOCK, NEEDS_BUF }, { "write to a buffer", ANY, OTHER, NEEDS_BUF }, { "large write to a buffer", ANY, OTHER, NEEDS_BUF },
    { "raw data", KEEP, BLOCK, NEEDS_CHILD }, { "boxed data", KEEP, BLOCK, NEEDS_CHILD }, { "boxed string", KEEP, BLOCK, NEEDS_CHILD } };
static status make(int k)
{
    static fiber_scheduler_discipline_callback_fn vec[2] = { dcb, dcb }; static const rcpr_uuid id = { { 9 } }, id2 = { { 1, 2 } }; struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; size_t n; const void* p;
    switch (k)
    {
        case K_LIST: return list_create((list**)&out, al); case K_SLIST: return slist_create((slist**)&out, al); case K_QUEUE: return queue_create((queue**)&out, al); case K_RBTREE: return rbtree_create((rbtree**)&out, al, cmp, keyf, NULL);
        case K_STACK: return stack_create((stack**)&out, al, 16384); case K_BIG: return bigint_create_zero((bigint**)&out, al, 200); case K_CLONE: return bigint_clone((bigint**)&out, al, big); case K_TRIGGER: return auto_reset_trigger_create((auto_reset_trigger**)&out, al);
        case K_UUID: return rcpr_uuid_to_string((char**)&out, al, &id2); case K_DUP: return rcpr_strdup((char**)&out, al, "abcd"); case K_CATV: return rcpr_strcatv((char**)&out, al, "ab", "c", "def", NULL); case K_VCAT: return vcat((char**)&out, al, "ab", "c", "def", NULL);
        case K_MALLOC: return malloc_allocator_create((allocator**)&out); case K_MSG: return message_create((message**)&out, al, 5, &pay->hdr);
        case K_SCHED: return fiber_scheduler_create((fiber_scheduler**)&out, al, NULL, scb); case K_SCHEDD: case K_SCHEDREL: return fiber_scheduler_create_with_disciplines((fiber_scheduler**)&out, al);
        case K_FIBER: return fiber_create((fiber**)&out, al, sched, 16384, NULL, fmain); case K_FIBERT: return fiber_create_for_thread((fiber**)&out, sched, al); case K_DISC: return fiber_scheduler_discipline_create((fiber_scheduler_discipline**)&out, &id, al, NULL, 2, vec);
        case K_MDISC: return message_discipline_get_or_create((fiber_scheduler_discipline**)&out, al, sched); case K_CDISC: return condition_discipline_get_or_create((fiber_scheduler_discipline**)&out, al, sched);
        case K_MBOX: return mailbox_create(&mb, md); case K_COND: return conditional_create(&cv, cd);
        case P_DESC: return psock_create_from_descriptor((psock**)&out, al, d2[0]); case P_BUFIN: return psock_create_from_buffer((psock**)&out, al, "abc", 3); case P_BUFOUT: return psock_create_from_buffer((psock**)&out, al, NULL, 0); case P_USER: return psock_create_from_user_methods((psock**)&out, al, NULL, &u_vt);
        case P_ASYNC: return psock_create_wrap_async((psock**)&out, al, mainf, child); case P_BR: return psock_br_create_from_psock((psock_br**)&out, al, child); case P_HOST: return psock_create_from_hostname_and_port((psock**)&out, al, "name", 80);
        case P_LISTEN: return psock_create_from_listen_address((psock**)&out, al, (struct sockaddr*)&sa, sizeof sa); case P_GETOUT: bsize = 77; return psock_from_buffer_get_output_buffer(bufs, al, &out, &bsize);
        case P_GROW: return psock_write_raw_data(bufs, bigdata, 20000); case P_GROWBIG: return psock_write_raw_data(bufs, bigdata, 60000);
        case P_RDATA: return psock_read_raw_data(child, al, &out, 6); case P_RBOX: bsize = 77; return psock_read_boxed_data(child, al, &out, &bsize); default: bsize = 77; return psock_read_boxed_string(child, al, (char**)&out, &bsize);
    }
    (void)n; (void)p;
}
/* what a released object may still be asked: put things into it first, so that its release has more to do. */
static resource* handle(int k)
{
    switch (k)
    {
        case K_LIST: return list_resource_handle(out); case K_SLIST: return slist_resource_handle(out); case K_QUEUE: return queue_resource_handle(out); case K_RBTREE: return rbtree_resource_handle(out); case K_STACK: return stack_resource_handle(out); case K_BIG: case K_CLONE: return bigint_resource_handle(out);
        case K_TRIGGER: return auto_reset_trigger_resource_handle(out); case K_MALLOC: return allocator_resource_handle(out); case K_MSG: return message_resource_handle(out); case K_SCHED: case K_SCHEDD: case K_SCHEDREL: return fiber_scheduler_resource_handle(out); case K_FIBER: case K_FIBERT: return fiber_resource_handle(out);
        case K_DISC: return fiber_scheduler_discipline_resource_handle(out); case P_BR: return psock_br_resource_handle(out); default: return psock_resource_handle(out);
    }
}
static void prepare(int k)
{
    int n = T[k].needs; sched = NULL; md = cd = NULL; child = bufs = NULL; big = NULL; d2[0] = d2[1] = lis = -1;
    if (n & NEEDS_SCHED) { OK(fiber_scheduler_create_with_disciplines(&sched, al)); OK(disciplined_fiber_scheduler_main_fiber_get(&mainf, sched)); }
    if (n & NEEDS_MD) OK(message_discipline_get_or_create(&md, al, sched));
    if (n & NEEDS_CD) OK(condition_discipline_get_or_create(&cd, al, sched));
    if (n & NEEDS_BIG) OK(bigint_create_zero(&big, al, 200));
    if (n & NEEDS_BUF) { OK(psock_create_from_buffer(&bufs, al, NULL, 0)); if (k == P_GETOUT) OK(psock_write_raw_data(bufs, bigdata, 20000)); }
    if (k == P_DESC || (n & NEEDS_CHILD)) vk_pair(SOCK_STREAM, d2);
    if (n & NEEDS_CHILD) OK(psock_create_from_descriptor(&child, al, d2[0]));
    pay = tr_new(1);
}
static void refill(int k)
{
    /* every attempt finds the same input. */
    if (k != P_RDATA && k != P_RBOX && k != P_RSTR) return;
    unsigned char t[32]; while (vk_buffered(d2[0]) > 0) { size_t n = sizeof t; OK(psock_read_raw(child, t, &n)); }
    if (k == P_RDATA) { vk_push(d2[1], "abcdef", 6); return; }
    psock* w; OK(psock_create_from_buffer(&w, al, NULL, 0)); if (k == P_RBOX) OK(psock_write_boxed_data(w, "wxyz", 4)); else OK(psock_write_boxed_string(w, "wxyz")); void* o; size_t n; OK(psock_from_buffer_get_output_buffer(w, al, &o, &n)); vk_push(d2[1], o, (int)n); OK(allocator_reclaim(al, o)); OK(resource_release(psock_resource_handle(w)));
}
static int fail1, fail2; static long met;
static bool arm(int a, int b) { fail1 = a; fail2 = b; met = 0; fa_inst.reclaims = 0; return true; }
/* nothing is really freed while a scheduler is released with a failing reclaim: a second reclaim is then seen before a use of what it freed. */
static status twice(resource* r) { (void)r; mc_fail("scheduler-reclaim", "the main fiber is released twice when a reclaim fails during the release of its scheduler"); return STATUS_SUCCESS; }
RCPR_VTABLE resource_vtable twice_vt = { &twice };
static bool lazy; static fiber* lazy_main; static void* lazies[64]; static int nlazy;
static status oom_reclaim(allocator* a, void* p)
{
    if (lazy)
    {
        for (int i = 0; i < nlazy; ++i) if (lazies[i] == p) mc_fail("double-reclaim", "a block is reclaimed twice"); MC_CHECK(mc_mem_is_live(p) && nlazy < 64, "bad-reclaim", "reclaim of a wrong block");
        lazies[nlazy++] = p; if (p == (void*)lazy_main) resource_init((resource*)p, &twice_vt); long n = fa_inst.reclaims++; if (n == fail1 || n == fail2) { ++met; return FA_RECLAIM_STATUS; } return STATUS_SUCCESS;
    }
    status r = fa_reclaim(a, p); long n = fa_inst.reclaims++; if (n == fail1 || n == fail2) { ++met; return FA_RECLAIM_STATUS; } return r;
}
static RCPR_SYM(allocator_vtable) const oom_vt;
static void unpeer(void) { if (vk_connect_peer >= 0) { if (vk_is_open(vk_connect_peer)) vk_drop(vk_connect_peer); vk_connect_peer = -1; } }
static void run(int k)
{
    tr_reset(); mc_mem_begin(); vk_reset(); al = fa_init(); mapped = 0; for (int i = 0; i < MAPS; ++i) maps[i].used = false; mmap_fail = false; lazy = false; arm(-1, -1); resource_init(&fa_inst.hdr, &oom_vt.hdr); vk_host4 = 2; vk_host6 = 0; vk_cap = 64;
    prepare(k); enum { RC = 6, AL = 14 }; int at = k == K_SCHEDREL ? 0 : mc_choose(AL + 2, "what fails"), r1 = at && k != K_SCHEDD && k != K_MBOX && k != K_COND ? mc_choose(RC + 1, "reclaim that fails") - 1 : -1, r2 = r1 >= 0 && mc_bound > 1 ? mc_choose(RC - r1, "another one") : 0;
    refill(k); long l0 = mc_mem_live(); int m0 = mapped, f0 = vk_open_count(); long failures = mc_mem_failures(); static int mark; out = &mark; mb = 0; cv = 0; long calls0 = vk_nfailed;
    /* at: 0 nothing, 1 to AL an allocation, then a mapping. */
    if (at >= 1 && at <= AL) mc_mem_fail_at(at - 1); else if (at == AL + 1) mmap_fail = true;
    arm(r1, r2 ? r1 + r2 : -1); status s = make(k); mc_mem_fail_at(-1); bool mapfail = at == AL + 1 && !mmap_fail; mmap_fail = false; vk_faults = 0; long unwound = met; arm(-1, -1);
    bool hit = mc_mem_failures() > failures || mapfail || vk_nfailed > calls0; mc_trace("%s, %d fails, reclaims %d, %d: %x", T[k].name, at, r1, r2, (unsigned)s); mc_step(); mc_state(mc_hash((uint64_t)k * 64 + (uint64_t)at, mc_hash((uint64_t)s, (uint64_t)unwound)));
    if (s != STATUS_SUCCESS)
    {
        unpeer(); mc_nontrivial(); MC_CHECK(hit || unwound, "status", "%s failed with %x though nothing failed", T[k].name, (unsigned)s); if (hit && !unwound && at <= AL) MC_CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY, "oom-status", "%s without memory gives %x", T[k].name, (unsigned)s);
        if (T[k].outk == NUL) MC_CHECK(out == NULL, "output", "%s: the output is not NULL after a failure", T[k].name); if (T[k].outk == KEEP) MC_CHECK(out == &mark, "output", "%s: the output was changed by a failure", T[k].name); if (k == P_GETOUT || k == P_RBOX || k == P_RSTR) MC_CHECK(bsize == 77, "output", "%s: the size was changed", T[k].name);
        bool partial = k == P_GROW || k == P_GROWBIG || k == P_ASYNC || k == K_MDISC || k == K_CDISC || k == K_MBOX || k == K_COND;
        if (!partial) MC_CHECK(mc_mem_live() == l0, "leak", "%s leaks %ld blocks", T[k].name, mc_mem_live() - l0); MC_CHECK(mapped == m0 || (partial && k == P_ASYNC), "leak", "%s leaks a mapping", T[k].name); if (k != P_ASYNC) MC_CHECK(vk_open_count() == f0, "leak", "%s: %d descriptors more", T[k].name, vk_open_count() - f0);
        MC_CHECK(!tr_release_calls, "released", "a resource that was given was released");
        refill(k); out = &mark; if (k == P_GROW || k == P_GROWBIG) { OK(resource_release(psock_resource_handle(bufs))); MC_CHECK(mc_mem_live() == 0, "leak", "%s leaks %ld blocks", T[k].name, mc_mem_live()); OK(psock_create_from_buffer(&bufs, al, NULL, 0)); }
        s = make(k); MC_CHECK(s == STATUS_SUCCESS, "again", "%s fails again with %x, after a failure", T[k].name, (unsigned)s);
    }
    else { MC_CHECK(!hit || k == P_HOST, "status", "%s succeeded though memory ran out", T[k].name); }
    /* it works. */
    if (k == K_DUP) MC_CHECK(!strcmp(out, "abcd"), "value", "strdup"); if (k == K_CATV || k == K_VCAT) MC_CHECK(!strcmp(out, "abcdef"), "value", "strcat"); if (k == P_RDATA) MC_CHECK(!memcmp(out, "abcdef", 6), "value", "data"); if (k == P_RBOX || k == P_RSTR) MC_CHECK(bsize == 4 && !memcmp(out, "wxyz", 4), "value", "data");
    if (k == P_GETOUT) MC_CHECK(bsize == 20000 && !memcmp(out, bigdata, 20000), "value", "the output of the buffer");
    if (k == P_GROW || k == P_GROWBIG) { void* o = NULL; size_t n = 0, e = k == P_GROW ? 20000 : 60000; OK(psock_from_buffer_get_output_buffer(bufs, al, &o, &n)); MC_CHECK(n == e && !memcmp(o, bigdata, e), "value", "the output of the buffer has %zu bytes", n); OK(allocator_reclaim(al, o)); }
    if (k == K_FIBER) { resource_release(handle(k)); out = NULL; OK(make(k)); }
    if ((k == K_SCHEDD || k == K_SCHEDREL) && mc_choose(2, "with disciplines, a mailbox and a conditional"))
    {
        fiber_scheduler* sc = out; OK(message_discipline_get_or_create(&md, al, sc)); OK(condition_discipline_get_or_create(&cd, al, sc)); OK(mailbox_create(&mb, md)); OK(conditional_create(&cv, cd)); message* m; tr* t = tr_new(3); OK(message_create(&m, al, 3, &t->hdr)); OK(message_send(mb, m, md));
        fiber* f; OK(fiber_create(&f, al, sc, 16384, NULL, fmain)); OK(fiber_scheduler_add(sc, f));
    }
    if (k == P_BUFOUT) { OK(psock_write_raw_data(out, bigdata, 20000)); }
    /* the release, a reclaim of which may fail. */
    bool sch = k == K_SCHEDD || sched; int q1 = at || sch ? -1 : mc_choose(30, "reclaim that fails") - 1, q2 = q1 >= 0 && mc_bound > 1 ? mc_choose(5, "another one") : 0; arm(q1, q2 ? q1 + q2 : -1); s = STATUS_SUCCESS;
    if (k == K_SCHEDREL) { OK(disciplined_fiber_scheduler_main_fiber_get(&lazy_main, out)); lazy = true; } nlazy = 0; if (T[k].disp == RES) s = resource_release(handle(k));
    else if (T[k].disp == BLOCK) s = allocator_reclaim(al, out);
    else if (k == K_MBOX) s = mailbox_close(mb, md); else if (k == K_COND) s = conditional_close(cv, cd);
    else if (k == P_DESC || k == P_ASYNC) { s = resource_release(psock_resource_handle(out)); child = NULL; }
    if (lazy) { lazy = false; for (int i = 0; i < nlazy; ++i) __wrap_free(lazies[i]); }
    long bad = met; arm(-1, -1); mc_step(); if (q1 >= 0) { mc_trace("release, reclaims %d, %d fail: %x", q1, q2, (unsigned)s); if (bad) mc_nontrivial(); }
    MC_CHECK((s != STATUS_SUCCESS) == (bad > 0), "release-status", "%s: the release gives %x, %ld reclaims failed", T[k].name, (unsigned)s, bad);
    /* and what is around. */
    if (bufs) { arm(q1, -1); s = resource_release(psock_resource_handle(bufs)); MC_CHECK((s != STATUS_SUCCESS) == (met > 0), "release-status", "%s: the release of the buffer gives %x", T[k].name, (unsigned)s); arm(-1, -1); }
    if (child) OK(resource_release(psock_resource_handle(child))); if (big) OK(resource_release(bigint_resource_handle(big)));
    if (sched) { arm(q1, q2 ? q1 + q2 : -1); s = resource_release(fiber_scheduler_resource_handle(sched)); MC_CHECK((s != STATUS_SUCCESS) == (met > 0), "release-status", "%s: the release of the scheduler gives %x, %ld reclaims failed", T[k].name, (unsigned)s, met); arm(-1, -1); }
    MC_CHECK(tr_released[pay->id] == (k == K_MSG), "released", "the payload was released %d times", tr_released[pay->id]); for (int i = 1; i < tr_n; ++i) MC_CHECK(tr_released[i] == 1, "released", "a payload was released %d times", tr_released[i]);
    MC_CHECK(mc_mem_live() == 0, "leak", "%s: %ld blocks are left after the release", T[k].name, mc_mem_live()); MC_CHECK(mapped == 0, "leak", "%s: %d mappings are left", T[k].name, mapped);
    unpeer();
    for (int i = 1; i >= 0; --i) if (d2[i] >= 0 && vk_is_open(d2[i])) { MC_CHECK(i == 1, "leak", "%s: the descriptor was not closed", T[k].name); vk_drop(d2[i]); } MC_CHECK(vk_open_count() == 0 && !vk_badclose && !vk_badfd, "leak", "%s: %d descriptors are left", T[k].name, vk_open_count());
}
static RCPR_SYM(allocator_vtable) const oom_vt = { .hdr = { &fa_release }, .allocate_fn = &fa_allocate, .reclaim_fn = &oom_reclaim, .reallocate_fn = &fa_reallocate, .control_fn = &fa_control };
void mc_setup(void) { for (size_t i = 0; i < sizeof bigdata; ++i) bigdata[i] = (char)(i * 7 + i / 251); (void)NEEDS_LIS; }
int mc_scenarios(void) { return mc_mode ? N1 - N0 : N0; }
void mc_run(int sc) { run(mc_mode ? N0 + sc : sc); }
