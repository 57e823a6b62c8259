/*
 * A scheduler with many of everything: codes, addresses and counts beyond the limits of small numbers.
 * mode 0: many mailboxes and messages.  mode 1: many conditionals and waiters.  mode 2: many disciplines and callbacks.
 * mode 3: many fibers.  mode 4: stacks of many sizes.  bound: operations that are chosen; bound2: how many of the sizes are used (0: all).
 */
#include "common.h"
#include <limits.h>
#include <sys/mman.h>
#include <rcpr/condition.h>
#include <rcpr/fiber.h>
#include <rcpr/fiber/disciplines/management.h>
#include <rcpr/message.h>
#include <rcpr/uuid.h>
RCPR_IMPORT_fiber; RCPR_IMPORT_uuid; RCPR_IMPORT_message; RCPR_IMPORT_condition;
extern const rcpr_uuid FIBER_SCHEDULER_INTERNAL_DISCIPLINE;
const char* mc_name = "fmany";
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#endif
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
enum { MAPS = 340, FMAX = 300, IMAX = 700 };
#define STACK ((size_t)64 * 1024)
static struct { void* p; bool used; } maps[MAPS]; static int mapped;
/* the mappings that are made in mode 4. */
static struct { char* p; size_t n; } own[4]; static bool sizing;
void* __wrap_mmap(void* p, size_t n, int prot, int fl, int fd, off_t o)
{
    if (fd != -1 || p || (n > 1024 * 1024 && !sizing) || (fl & MAP_SHARED)) return __real_mmap(p, n, prot, fl, fd, o);
    for (int i = 0; i < MAPS && n == STACK && !sizing; ++i)
    {
        if (maps[i].used) continue;
        if (!maps[i].p) { maps[i].p = __real_mmap(p, n, prot, fl, fd, o); if (maps[i].p == MAP_FAILED) abort(); }
        ASAN_UNPOISON_MEMORY_REGION(maps[i].p, n); memset((char*)maps[i].p + n - 1024, 0, 1024); maps[i].used = true; ++mapped; return maps[i].p;
    }
    void* r = __real_mmap(p, n, prot, fl, fd, o);
    if (sizing && r != MAP_FAILED) for (int i = 0; i < 4; ++i) if (!own[i].p) { own[i].p = r; own[i].n = n; ++mapped; ASAN_UNPOISON_MEMORY_REGION(r, n); break; }
    return r;
}
int __wrap_munmap(void* p, size_t n)
{
    for (int i = 0; i < MAPS; ++i) if (maps[i].p == p)
    { if (!maps[i].used || n != STACK) mc_fail("unmap", "a stack was unmapped twice, or in part"); maps[i].used = false; --mapped; return 0; }
    for (int i = 0; i < 4 && sizing; ++i) if (own[i].p == p && p)
    { if (own[i].n != n) mc_fail("unmap", "%zu of %zu bytes of a stack were unmapped", n, own[i].n); own[i].p = NULL; --mapped; break; }
    return __real_munmap(p, n);
}

static fiber_scheduler* sched; static allocator* al; static fiber_scheduler_discipline *msgdisc, *condisc, *hdisc;
static const rcpr_uuid HID = { .data = { 1, 2, 3 } };
static void must(bool ok, const char* what) { if (!ok) mc_fail("setup", "%s failed", what); }
static void world(void)
{
    al = fa_init(); mc_mem_begin(); for (int i = 0; i < MAPS; ++i) maps[i].used = false; mapped = 0;
    must(fiber_scheduler_create_with_disciplines(&sched, al) == STATUS_SUCCESS, "create");
}
static void over(void)
{
    MC_CHECK(resource_release(fiber_scheduler_resource_handle(sched)) == STATUS_SUCCESS, "release", "releasing the scheduler failed");
    MC_CHECK(mc_mem_live() == 0 && mapped == 0, "leak", "%ld blocks and %d stacks leaked", mc_mem_live(), mapped); mc_step();
}
static int size(const int* t, int n, const char* what) { int k = mc_bound2 && mc_bound2 < n ? mc_bound2 : n; return t[mc_choose(k, what)]; }

/* ---- payloads ---- */
typedef struct pay { resource hdr; int released; } pay;
static pay pays[2 * IMAX]; static int npay;
static status pay_release(resource* r) { pay* p = (pay*)r; if (p < pays || p >= pays + npay) mc_fail("release-garbage", "something else was released"); if (p->released++) mc_fail("double-release", "a payload was released twice"); return STATUS_SUCCESS; }
RCPR_VTABLE resource_vtable pay_vtable = { &pay_release };

/* ---- mailboxes ---- */
static void send(mailbox_address a, int id)
{
    message* m = NULL; resource_init(&pays[id].hdr, &pay_vtable); pays[id].released = 0; if (id >= npay) npay = id + 1;
    must(message_create(&m, al, (mailbox_address)(id * 3), &pays[id].hdr) == STATUS_SUCCESS, "message_create");
    MC_CHECK(message_send(a, m, msgdisc) == STATUS_SUCCESS, "send", "a message could not be sent to an open mailbox");
}
static void receive(mailbox_address a, int id)
{
    message* m = NULL; MC_CHECK(message_receive(a, &m, msgdisc) == STATUS_SUCCESS && m, "receive", "a message that was sent could not be received");
    MC_CHECK(message_payload(m, false) == &pays[id].hdr && message_return_address(m) == (mailbox_address)(id * 3), "order", "another message than the one that was sent first was received");
    MC_CHECK(resource_release(message_resource_handle(m)) == STATUS_SUCCESS && pays[id].released == 1, "receive", "release");
}
static mailbox_address box[IMAX]; static bool open_[IMAX];
static bool closes(int pattern, int i, int n)
{
    switch (pattern) { case 0: return false; case 1: return i % 7 != 3; case 2: return i < n / 2; case 3: return i >= n / 2; case 4: return i & 1; default: return true; }
}
static void mailboxes(int pattern)
{
    static const int N[] = { 1, 2, 5, 17, 257, 300, 64, 128 }, MORE[] = { 0, 1, 20 }, Q[] = { 1, 2, 17, 257 };
    world(); must(message_discipline_get_or_create(&msgdisc, al, sched) == STATUS_SUCCESS, "message discipline"); npay = 0;
    int n = size(N, 8, "mailboxes"), more = MORE[mc_choose(3, "mailboxes created after others were closed")]; bool down = mc_choose(2, "the last one is sent to first");
    mc_trace("%d mailboxes, pattern %d, %d more", n, pattern, more); mc_nontrivial();
    for (int i = 0; i < n + more; ++i)
    {
        if (i == n) for (int j = 0; j < n; ++j) if (closes(pattern, j, n)) { MC_CHECK(mailbox_close(box[j], msgdisc) == STATUS_SUCCESS, "close", "closing a mailbox failed"); open_[j] = false; }
        MC_CHECK(mailbox_create(&box[i], msgdisc) == STATUS_SUCCESS, "create", "mailbox %d could not be created", i); open_[i] = true;
        for (int j = 0; j < i; ++j) MC_CHECK(!open_[j] || box[j] != box[i], "address", "two open mailboxes have one address");
    }
    n += more;
    for (int k = 0; k < 2; ++k) for (int x = 0; x < n; ++x) { int i = down ? n - 1 - x : x; if (open_[i]) send(box[i], i * 2 + k); }
    for (int k = 0; k < 2; ++k) for (int x = 0; x < n; ++x) { int i = down ? x : n - 1 - x; if (open_[i] && (i % 5 || !k)) receive(box[i], i * 2 + k); }
    /* many messages for one mailbox. */
    int i0 = n - 1, q = Q[mc_choose(4, "messages for one mailbox")];
    if (open_[i0])
    {
        if (i0 % 5 == 0) receive(box[i0], i0 * 2 + 1);
        for (int i = 0; i < q; ++i) { send(box[i0], i * 2 < IMAX ? IMAX + i : IMAX + i); if (i % 3 == 2) receive(box[i0], IMAX + i / 3); }
        for (int i = q / 3; i < q - q / 4; ++i) receive(box[i0], IMAX + i);
        /* the rest is still there when the mailbox is closed. */
        int left = q - q / 4 < q / 3 ? q / 3 : q - q / 4; MC_CHECK(mailbox_close(box[i0], msgdisc) == STATUS_SUCCESS, "close", "close"); open_[i0] = false;
        for (int i = left; i < q; ++i) MC_CHECK(pays[IMAX + i].released == 1, "close", "a message in a closed mailbox was not released");
    }
    for (int i = 0; i < n; ++i) if (!open_[i] && !(more && closes(pattern, i, n - more) && false))
    {
        bool reused = false; for (int j = 0; j < n; ++j) if (open_[j] && box[j] == box[i]) reused = true;
        message* m = NULL; if (!reused) MC_CHECK(mailbox_close(box[i], msgdisc) != STATUS_SUCCESS && message_receive(box[i], &m, msgdisc) != STATUS_SUCCESS && !m, "closed", "a closed mailbox still exists");
    }
    over();
    for (int i = 0; i < npay; ++i) if (pays[i].hdr.vtable) MC_CHECK(pays[i].released == 1, "lost", "a message was released %d times", pays[i].released);
    memset(pays, 0, sizeof pays);
}

/* ---- fibers that keep a log ---- */
static fiber* fib[FMAX]; static int nfib, fctx[FMAX], log_[FMAX * 12], nlog; static void* fpar[FMAX];
static conditional cv[IMAX]; static int waits[FMAX]; static status wres[FMAX];
static status f_wait(void* c) { int me = (int)((int*)c - fctx); wres[me] = conditional_wait(cv[waits[me]], condisc); log_[nlog++] = me; return STATUS_SUCCESS; }
static void add(int i, status (*fn)(void*))
{
    fctx[i] = i; must(fiber_create(&fib[i], al, sched, STACK, &fctx[i], fn) == STATUS_SUCCESS, "fiber_create");
    MC_CHECK(fiber_scheduler_add(sched, fib[i]) == STATUS_SUCCESS, "add", "fiber %d could not be added", i);
}
static void conditionals(int what)
{
    static const int N[] = { 1, 2, 20, 257, 300 }, W[] = { 1, 2, 3, 4, 5, 9, 17, 33 };
    world(); must(condition_discipline_get_or_create(&condisc, al, sched) == STATUS_SUCCESS, "condition discipline"); nlog = 0;
    int n = size(N, 5, "conditionals"), gone = mc_choose(2, "others were closed before") ? n / 2 : 0, w = W[mc_choose(8, "waiters")], spread = mc_choose(3, "where they wait");
    mc_trace("%d conditionals, %d of them closed, %d waiters (%d)", n, gone, w, spread); (void)what;
    for (int i = 0; i < n; ++i) { MC_CHECK(conditional_create(&cv[i], condisc) == STATUS_SUCCESS, "create", "conditional %d", i); for (int j = 0; j < i; ++j) MC_CHECK(cv[j] != cv[i], "address", "two conditionals have one handle"); }
    for (int i = 0; i < gone; ++i) MC_CHECK(conditional_close(cv[i], condisc) == STATUS_SUCCESS, "close", "close");
    int last = n - 1, other = n > 1 && n - 2 >= gone ? n - 2 : last;
    for (int i = 0; i < w; ++i) { waits[i] = spread == 0 ? last : spread == 1 ? (i & 1 ? last : other) : gone + (i * 7) % (n - gone); add(i, &f_wait); }
    must(fiber_scheduler_run(sched) == STATUS_SUCCESS || true, "run");
    MC_CHECK(nlog == 0, "order", "a fiber went on when nothing was notified");
    bool in[FMAX]; int want[FMAX], nw = 0; for (int i = 0; i < w; ++i) in[i] = true; bool alive[2] = { true, true };
    for (int k = 0; k < mc_bound; ++k)
    {
        int op = mc_choose(7, "operation"); if (op == 6) break; int which = op & 1; int c = which ? last : other; if (which == 0 && other == last) { mc_discard(); return; }
        status s = op < 2 ? conditional_notify_one(cv[c], condisc) : op < 4 ? conditional_notify_all(cv[c], condisc) : conditional_close(cv[c], condisc);
        mc_trace("%s %d: %x", op < 2 ? "notify one" : op < 4 ? "notify all" : "close", c, (unsigned)s);
        MC_CHECK((s == STATUS_SUCCESS) == alive[which], "status", "status %x", (unsigned)s);
        for (int i = 0; i < w && alive[which]; ++i) if (in[i] && waits[i] == c) { in[i] = false; want[nw++] = op < 4 ? i : i + 1000; if (op < 2) break; }
        if (op >= 4) alive[which] = false;
        if (k & 1) for (int r = 0; r < 3; ++r) (void)!fiber_scheduler_run(sched);
    }
    for (int r = 0; r < 3; ++r) (void)!fiber_scheduler_run(sched);
    MC_CHECK(nlog == nw, "order", "%d fibers went on, expected %d", nlog, nw); if (nw > 1) mc_nontrivial();
    for (int i = 0; i < nw; ++i) MC_CHECK(log_[i] == want[i] % 1000 && (wres[log_[i]] == STATUS_SUCCESS) == (want[i] < 1000), "order", "waiter %d went on with status %x as number %d, expected waiter %d", log_[i], (unsigned)wres[log_[i]], i, want[i] % 1000);
    over();
}

/* ---- disciplines ---- */
enum { DM = 40 };
static fiber_scheduler_discipline* disc[DM]; static int dn[DM], dctx[DM], cd, ce, calls, top; static fiber* self; static char cpar;
static const int* codes_seen; static int code_of[DM * 301];
static status cb(int k, void* ctx, fiber* y, int ev, void* p)
{
    ++calls;
    if (ctx != &dctx[cd] || y != self || p != &cpar || k != ce % 3) mc_fail("handler", "a yield to callback %d of discipline %d reached another callback, or with another context, fiber or parameter", ce, cd);
    if (ev <= 0) mc_fail("handler", "a callback was given the code %d", ev);
    code_of[cd * 301 + (ce < 301 ? ce : 300)] = ev; if (ev > top) top = ev;
    return (status)0x80FF0000 + k;
}
static status cb0(void* c, fiber* y, int ev, void* p) { return cb(0, c, y, ev, p); }
static status cb1(void* c, fiber* y, int ev, void* p) { return cb(1, c, y, ev, p); }
static status cb2(void* c, fiber* y, int ev, void* p) { return cb(2, c, y, ev, p); }
static void yield_to(int d, int e)
{
    const rcpr_uuid* id = NULL; int ev = -1; void* p = NULL; cd = d; ce = e; calls = 0;
    status s = fiber_discipline_yield(disc[d], e, &cpar, &id, &ev, &p);
    bool valid = e >= 0 && e < dn[d];
    MC_CHECK(calls == valid && s == (valid ? (status)0x80FF0000 + e % 3 : ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT), "handler", "a yield to callback %d of discipline %d, which has %d: %d calls, status %x", e, d, dn[d], calls, (unsigned)s); mc_step();
}
static void disciplines(int at)
{
    static const int ND[] = { 1, 2, 3, 40, 10, 17 }, NC[] = { 1, 3, 0, 300, 257, 40 }; static fiber_scheduler_discipline_callback_fn vec[70000];
    (void)codes_seen; if (!vec[0]) for (int i = 0; i < 70000; ++i) vec[i] = i % 3 == 0 ? cb0 : i % 3 == 1 ? cb1 : cb2;
    world(); must(disciplined_fiber_scheduler_main_fiber_get(&self, sched) == STATUS_SUCCESS, "main"); top = 0; memset(code_of, 0, sizeof code_of);
    int n = size(ND, 6, "disciplines"), kind = mc_choose(8, "callbacks of each"), order = mc_choose(3, "order"), others = mc_choose(3, "other disciplines are there");
    mc_trace("%d disciplines, kind %d, order %d, identifiers differ in byte %d", n, kind, order, at); mc_nontrivial();
    if (others) { must(message_discipline_get_or_create(&msgdisc, al, sched) == STATUS_SUCCESS, "message"); if (others == 2) must(condition_discipline_get_or_create(&condisc, al, sched) == STATUS_SUCCESS, "condition"); }
    rcpr_uuid id[DM + 1];
    for (int i = 0; i <= n; ++i) { memset(&id[i], 0x80, sizeof id[i]); id[i].data[at] = (uint8_t)(i * 37 + 5); }
    for (int x = 0; x < n; ++x)
    {
        int i = order == 0 ? x : order == 1 ? n - 1 - x : (x & 1 ? n - 1 - x / 2 : x / 2);
        dn[i] = kind < 6 ? NC[kind] : kind == 6 ? NC[i % 6] : (x == 0 ? 70000 : NC[i % 3]);
        must(fiber_scheduler_discipline_create(&disc[i], &id[i], al, &dctx[i], (size_t)dn[i], vec) == STATUS_SUCCESS, "discipline_create");
        fiber_scheduler_discipline* f = NULL; MC_CHECK(fiber_scheduler_discipline_find(&f, sched, &id[i]) == ERROR_FIBER_SCHEDULER_DISCIPLINE_NOT_FOUND, "find", "a discipline that was not added was found");
        MC_CHECK(fiber_scheduler_discipline_add(sched, disc[i]) == STATUS_SUCCESS, "add", "discipline %d could not be added", i);
        yield_to(i, 0); yield_to(i, dn[i] - 1);
    }
    for (int i = 0; i < n; ++i)
    {
        fiber_scheduler_discipline* f = NULL; MC_CHECK(fiber_scheduler_discipline_find(&f, sched, &id[i]) == STATUS_SUCCESS && f == disc[i] && fiber_scheduler_discipline_context_get(f) == &dctx[i], "find", "discipline %d was not found", i);
        fiber_scheduler* s2 = NULL; MC_CHECK(fiber_discipline_scheduler_get(&s2, f) == STATUS_SUCCESS && s2 == sched, "find", "the scheduler of a discipline is wrong");
        MC_CHECK(fiber_scheduler_discipline_add(sched, disc[i]) != STATUS_SUCCESS, "duplicate", "a discipline was added twice");
        for (int e = 0; e < dn[i]; e += e > 2 && e < dn[i] - 3 ? (dn[i] > 1000 ? 977 : 1) : 1) yield_to(i, e);
        yield_to(i, dn[i]); yield_to(i, dn[i] + 1); yield_to(i, -1); yield_to(i, INT_MAX); yield_to(i, INT_MIN); yield_to(i, dn[i] + 256); yield_to(i, dn[i] + 65536);
    }
    for (int i = 0; i < n; ++i) for (int e = 0; e < dn[i] && e < 300; ++e) for (int j = i; j < n && j < i + 3; ++j) for (int g = 0; g < dn[j] && g < 300; g += 7)
        MC_CHECK((i == j && e == g) || !code_of[i * 301 + e] || code_of[i * 301 + e] != code_of[j * 301 + g], "handler", "two callbacks share a code");
    fiber_scheduler_discipline* f = NULL;
    MC_CHECK(fiber_scheduler_discipline_find(&f, sched, &id[n]) == ERROR_FIBER_SCHEDULER_DISCIPLINE_NOT_FOUND, "find", "a discipline that was not added was found");
    MC_CHECK(fiber_scheduler_discipline_find(&f, sched, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE) == STATUS_SUCCESS && f, "find", "the management discipline was not found");
    for (int i = 0; i < n; ++i) MC_CHECK(disc[i] != f, "find", "another discipline was found");
    /* one more with the identifier of another one, and one of this scheduler's for another scheduler. */
    fiber_scheduler_discipline* d2 = NULL; must(fiber_scheduler_discipline_create(&d2, &id[n / 2], al, &dctx[0], 1, vec) == STATUS_SUCCESS, "discipline_create");
    MC_CHECK(fiber_scheduler_discipline_add(sched, d2) == ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID && resource_release(fiber_scheduler_discipline_resource_handle(d2)) == STATUS_SUCCESS, "duplicate", "two disciplines with one id");
    fiber_scheduler* other = NULL; must(fiber_scheduler_create_with_disciplines(&other, al) == STATUS_SUCCESS, "create");
    for (int i = 0; i < n; ++i) MC_CHECK(fiber_scheduler_discipline_add(other, disc[i]) == ERROR_FIBER_SCHEDULER_DISCIPLINE_ALREADY_OWNED, "owned", "a discipline was added to two schedulers");
    MC_CHECK(resource_release(fiber_scheduler_resource_handle(other)) == STATUS_SUCCESS, "release", "release");
    if (others) { mailbox_address a = 0; npay = 0; MC_CHECK(mailbox_create(&a, msgdisc) == STATUS_SUCCESS, "works", "mailbox_create"); send(a, 0); receive(a, 0); MC_CHECK(mailbox_close(a, msgdisc) == STATUS_SUCCESS, "works", "mailbox_close"); memset(pays, 0, sizeof pays[0]); }
    if (others == 2) { conditional c = 0; MC_CHECK(conditional_create(&c, condisc) == STATUS_SUCCESS && conditional_notify_all(c, condisc) == STATUS_SUCCESS && conditional_close(c, condisc) == STATUS_SUCCESS, "works", "conditional"); }
    over();
}

/* ---- fibers ---- */
static int rounds[FMAX], got[FMAX], end_early; static bool quiesced[FMAX];
static status h_block(void* c, fiber* y, int ev, void* p)
{
    (void)c; (void)ev; (void)y; int* t = p; if (!t) return STATUS_SUCCESS;
    return disciplined_fiber_scheduler_add_fiber_to_run_queue(sched, y, &HID, 7, NULL);
}
static status f_rounds(void* c)
{
    int me = (int)((int*)c - fctx); const rcpr_uuid* id; int ev; void* p;
    for (int r = 0; r < rounds[me]; ++r)
    {
        log_[nlog++] = me; ++got[me];
        status s = fiber_scheduler_yield(sched, FIBER_SCHEDULER_YIELD_EVENT_RUN, NULL, &id, &ev, &p); if (s != STATUS_SUCCESS) return s;
    }
    log_[nlog++] = me;
    if (me % 3 == 0) return STATUS_SUCCESS;
    status s = fiber_discipline_yield(hdisc, 0, NULL, &id, &ev, &p); log_[nlog++] = me; if (s != STATUS_SUCCESS) return s;
    quiesced[me] = !memcmp(id, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, sizeof *id) && ev == (end_early ? FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST : FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST);
    return (status)0x80FF0001;
}
static void fibers(int far)
{
    static const int N[] = { 1, 2, 3, 5, 8, 17, 33, 65, 130, 257 }; static char* region;
    world(); nlog = 0; memset(got, 0, sizeof got); memset(quiesced, 0, sizeof quiesced);
    static fiber_scheduler_discipline_callback_fn hv[1] = { h_block };
    must(fiber_scheduler_discipline_create(&hdisc, &HID, al, NULL, 1, hv) == STATUS_SUCCESS && fiber_scheduler_discipline_add(sched, hdisc) == STATUS_SUCCESS, "discipline");
    int n = size(N, 10, "fibers"), kind = mc_choose(4, "how long each runs"); end_early = mc_choose(2, "request");
    mc_trace("%d fibers, %d", n, kind); mc_nontrivial();
    for (int i = 0; i < n; ++i)
    {
        rounds[i] = kind == 0 ? 2 : kind == 1 ? i % 3 : kind == 2 ? (n - i) % 4 : 0;
        /* some of them at addresses that agree in their low 32 bits, rising or falling. */
        if (far && i < 20)
        {
            if (!region) { for (int k = 0; k < 20; ++k) if (__real_mmap((void*)(0x310000000000ull + ((unsigned long long)k << 32)), 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) abort(); region = (char*)0x310000000000ull; }
            mc_mem_arena(region + ((unsigned long long)(far == 1 ? i : 19 - i) << 32), 8192);
        }
        fctx[i] = i; must(fiber_create(&fib[i], al, sched, STACK, &fctx[i], &f_rounds) == STATUS_SUCCESS, "fiber_create"); mc_mem_arena(NULL, 0);
    }
    /* everybody is added before anybody runs: the sender goes first. */
    for (int i = 0; i < n; ++i) MC_CHECK(fiber_scheduler_add(sched, fib[i]) == STATUS_SUCCESS, "add", "fiber %d could not be added", i);
    MC_CHECK(nlog == 0, "order", "a fiber ran before it was its turn");
    int want[FMAX * 12], nw = 0; bool left[FMAX]; int r = 0; memset(left, 1, sizeof left);
    for (r = 0; r < 6; ++r)
    {
        for (int i = 0; i < n; ++i) if (left[i]) { want[nw++] = i; if (rounds[i] == r) left[i] = false; }
        (void)!fiber_scheduler_run(sched);
        MC_CHECK(nlog == nw && !memcmp(log_, want, sizeof(int) * (size_t)nw), "order", "the fibers did not take turns in the order in which they were added (round %d)", r);
    }
    for (int i = 0; i < n; ++i) MC_CHECK(fiber_state_get(fib[i]) == (i % 3 ? FIBER_STATE_RUNNING : FIBER_STATE_STOPPED), "state", "the state of fiber %d is wrong", i);
    status s = end_early ? disciplined_fiber_scheduler_send_terminate_request_to_all(sched) : disciplined_fiber_scheduler_send_quiesce_request_to_all(sched);
    MC_CHECK(s == STATUS_SUCCESS, "request", "status %x", (unsigned)s);
    for (int k = 0; k < 3; ++k) (void)!fiber_scheduler_run(sched);
    int seen[FMAX] = { 0 }; for (int i = nw; i < nlog; ++i) ++seen[log_[i]];
    for (int i = 0; i < n; ++i)
    {
        MC_CHECK(seen[i] == (i % 3 != 0), "request", "fiber %d went on %d times after a request to all", i, seen[i]);
        if (i % 3) MC_CHECK(quiesced[i], "request", "fiber %d was not given the request", i);
        MC_CHECK(fiber_state_get(fib[i]) == FIBER_STATE_STOPPED, "state", "fiber %d has not stopped", i);
    }
    int rem = mc_choose(4, "which are removed");
    for (int x = 0; x < n; ++x)
    {
        int i = rem == 1 ? x : n - 1 - x; if (rem == 0 || (rem == 3 && i % 2)) continue;
        MC_CHECK(disciplined_fiber_scheduler_remove_fiber(sched, fib[i]) == STATUS_SUCCESS, "remove", "fiber %d could not be removed", i);
        MC_CHECK(disciplined_fiber_scheduler_remove_fiber(sched, fib[i]) != STATUS_SUCCESS, "remove", "fiber %d was removed twice", i);
        MC_CHECK(resource_release(fiber_resource_handle(fib[i])) == STATUS_SUCCESS, "remove", "release");
    }
    over();
}
/* ---- mode 4: stacks of many sizes ---- */
static size_t asked[2];
static status f_fill(void* c)
{
    int me = (int)((int*)c - fctx); const rcpr_uuid* id; int ev; void* p;
    char* top = __builtin_frame_address(0); size_t n = asked[me];
    MC_CHECK(((uintptr_t)top & 15) == 0, "stack-aligned", "a fiber with a stack of %zu bytes was entered with a stack that is not aligned", n);
    int k = -1; for (int i = 0; i < 4; ++i) if (own[i].p && top >= own[i].p && top < own[i].p + own[i].n) k = i;
    MC_CHECK(k >= 0 && own[k].n >= n && top + 16 <= own[k].p + own[k].n, "stack-own", "a fiber runs outside of the stack that was made for it");
    MC_CHECK((size_t)(top - own[k].p) + 1024 >= n, "stack-size", "a fiber that asked for a stack of %zu bytes was given %zu", n, (size_t)(top - own[k].p));
    for (int r = 0; r < 3; ++r)
    {
        char v = (char)(16 * me + r + 1), *lo = top + 1024 - n; size_t len = (size_t)(top - 8192 - lo);
        memset(lo, v, len); log_[nlog++] = me;
        MC_CHECK(fiber_scheduler_yield(sched, FIBER_SCHEDULER_YIELD_EVENT_RUN, NULL, &id, &ev, &p) == STATUS_SUCCESS, "yield", "yield");
        for (size_t i = 0; i < len; ++i) if (lo[i] != v) mc_fail("stack-own", "byte %zu of %zu of a fiber's stack was changed while another fiber ran", i, n);
    }
    return STATUS_SUCCESS;
}
static void stacks(void)
{
    static const size_t Z[] = { 16384, 16385, 20000, 65528, 65536, 65537, 70007, 102400, 102408, 262143, 1048576, 1048577, 3 * 1048576 };
    static fiber* f[2];
    memset(own, 0, sizeof own); sizing = false; world(); sizing = true; nlog = 0;
    asked[0] = Z[size((const int[]){ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12 }, 13, "size")]; asked[1] = Z[size((const int[]){ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12 }, 13, "size")];
    mc_trace("stacks of %zu and %zu bytes", asked[0], asked[1]); mc_nontrivial();
    for (int i = 0; i < 2; ++i) { fctx[i] = i; must(fiber_create(&f[i], al, sched, asked[i], &fctx[i], &f_fill) == STATUS_SUCCESS, "fiber_create"); MC_CHECK(fiber_scheduler_add(sched, f[i]) == STATUS_SUCCESS, "add", "add"); }
    for (int r = 0; r < 5; ++r) (void)!fiber_scheduler_run(sched);
    MC_CHECK(nlog == 6, "order", "the fibers ran %d rounds, not six", nlog);
    over(); sizing = false;
}
void mc_setup(void) {}
int mc_scenarios(void) { return mc_mode == 0 ? 6 : mc_mode == 1 ? 1 : mc_mode == 2 ? 4 : mc_mode == 3 ? 3 : 1; }
void mc_run(int scenario)
{
    static const int at[4] = { 0, 15, 7, 8 };
    switch (mc_mode) { case 0: mailboxes(scenario); break; case 1: conditionals(scenario); break; case 2: disciplines(at[scenario]); break; case 3: fibers(scenario); break; default: stacks(); }
}
