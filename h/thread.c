/*
 * Threads, mutexes and condition variables on virtual threads: every schedule with up to mc_bound2 preemptions.
 * mode 0: mutual exclusion; 1: waiting and signalling; 2: the life of threads, with failures;
 * 3: threads that share nothing (every pair of workloads); 4: a bounded buffer, with spurious wake-ups.
 * Modes 10 and up: as above, with switches at every memory access of the code under test too.
 * mc_bound: operations per thread (0, 1, 4), threads (2).
 */
#include "common.h"
#include "vt.h"
#include <rcpr/thread.h>
#include <rcpr/list.h>
#include <rcpr/slist.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/string.h>
#include <rcpr/uuid.h>
#include <rcpr/bigint.h>
#include <rcpr/psock.h>
#include <rcpr/fiber.h>
#include <rcpr/message.h>
#include <rcpr/condition.h>
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/socket_utilities.h>
#include <rcpr/fiber/disciplines/management.h>
#include <sys/socket.h>
#include <unistd.h>
#include <fcntl.h>
RCPR_IMPORT_thread; RCPR_IMPORT_list; RCPR_IMPORT_slist; RCPR_IMPORT_queue; RCPR_IMPORT_rbtree; RCPR_IMPORT_compare; RCPR_IMPORT_uuid; RCPR_IMPORT_bigint;
RCPR_IMPORT_psock; RCPR_IMPORT_socket_utilities; RCPR_IMPORT_fiber; RCPR_IMPORT_message; RCPR_IMPORT_condition; RCPR_IMPORT_auto_reset_trigger; RCPR_IMPORT_string_as(rcpr);
const char* mc_name = "thread";
#define OK(x) MC_CHECK((x) == STATUS_SUCCESS, "status", "line %d: %s failed", __LINE__, #x)
static int mode; static bool mem;
enum { MAXP = 6 };
void mc_setup(void) { for (int i = 0; i < VT_FAULTS; ++i) vt_fault[i] = -1; mode = mc_mode % 10; mem = mc_mode >= 10; }

/* ---- mode 0 and 1: programs ---- */
static int prog[VT_MAX][MAXP], np[VT_MAX], nthr; static thread_mutex* mu[2]; static thread_cond* cv[2]; static int holder[2], sections; static long shared[2];
static int waiting[2], credits[2]; static bool poisoned;
static void enter(int m)
{
    MC_CHECK(holder[m] < 0, "exclusion", "thread %d entered a section of mutex %d that thread %d is in", vt_self(), m, holder[m]);
    holder[m] = vt_self(); mc_trace("  thread %d has mutex %d", vt_self(), m);
}
static void leave(int m)
{
    MC_CHECK(holder[m] == vt_self(), "exclusion", "thread %d was joined in its section of mutex %d", vt_self(), m); holder[m] = -1; mc_trace("  thread %d leaves mutex %d", vt_self(), m);
}
static thread_mutex_lock* acquire(int m)
{
    thread_mutex_lock* l = (thread_mutex_lock*)&poisoned; status s = thread_mutex_lock_acquire(&l, mu[m]);
    if (s != STATUS_SUCCESS) { MC_CHECK(s == ERROR_THREAD_MUTEX_LOCK && l == NULL, "lock-fails", "a failed acquire gave status %x and %p", (unsigned)s, (void*)l); return NULL; }
    MC_CHECK(l && l != (thread_mutex_lock*)&poisoned, "lock-out", "an acquired lock was not returned"); enter(m); mc_step(); return l;
}
static bool release(int m, thread_mutex_lock* l)
{
    leave(m); status s = resource_release(thread_mutex_lock_resource_handle(l)); mc_step();
    if (s != STATUS_SUCCESS) { MC_CHECK(s == ERROR_THREAD_MUTEX_UNLOCK && vt_calls[VT_MUTEX_UNLOCK] > 0, "unlock", "releasing a lock gave %x", (unsigned)s); return false; }
    return true;
}
static void bump(int m) { long v; vt_read(&shared[m], sizeof v); v = shared[m]; vt_point("in the section"); vt_write(&shared[m], sizeof v); shared[m] = v + 1; ++sections; }
static void th0(void* p)
{
    int* pr = p; int n = np[(int)(pr - &prog[0][0]) / MAXP];
    for (int i = 0; i < n; ++i)
    {
        int o = pr[i]; thread_mutex_lock *a, *b;
        if (o < 2) { if (!(a = acquire(o))) { continue; } bump(o); if (!release(o, a)) return; }
        else { if (!(a = acquire(0))) continue; bump(0); if ((b = acquire(1))) { bump(1); if (o == 2) { if (!release(1, b)) return; if (!release(0, a)) return; } else { if (!release(0, a)) return; if (!release(1, b)) return; } } else if (!release(0, a)) return; }
    }
}
static void th1(void* p)
{
    int me = (int)(((int*)p - &prog[0][0]) / MAXP);
    for (int i = 0; i < np[me]; ++i)
    {
        int o = prog[me][i], c = o & 1; thread_mutex_lock* l = acquire(0); if (!l) return; thread_mutex_lock* l0 = l;
        switch (o >> 1)
        {
            case 0:
                ++waiting[c]; leave(0);
                status s = thread_cond_wait(&l, cv[c]);
                if (s != STATUS_SUCCESS) { MC_CHECK(s == ERROR_THREAD_COND_WAIT && l == l0, "wait-fails", "a failed wait gave %x", (unsigned)s); --waiting[c]; enter(0); break; }
                enter(0); mc_nontrivial();
                MC_CHECK(credits[c] > 0, "woken", "thread %d stopped waiting for condition %d, which was not signalled to it", me, c);
                --credits[c]; --waiting[c]; MC_CHECK(l, "wait-lock", "wait lost the lock"); bump(0); break;
            case 1: { status t = thread_cond_signal_one(l, cv[c]); if (t == STATUS_SUCCESS && credits[c] < waiting[c]) ++credits[c]; if (t == STATUS_SUCCESS) mc_trace("  thread %d signals %d", me, c); break; }
            case 2: { status t = thread_cond_signal_all(l, cv[c]); if (t == STATUS_SUCCESS) { credits[c] = waiting[c]; mc_trace("  thread %d signals %d to all", me, c); } break; }
        }
        mc_step(); if (!release(0, l)) return;
    }
}
static uint64_t progs_hash(void) { uint64_t h = 11; for (int t = 0; t < nthr; ++t) for (int i = 0; i < np[t]; ++i) h = mc_hash(h, (uint64_t)(prog[t][i] + 1)); return h; }
static allocator* A;
static void mk(void)
{
    A = fa_init(); for (int i = 0; i < 2; ++i) { OK(thread_mutex_create(&mu[i], A)); OK(thread_cond_create(&cv[i], A)); holder[i] = -1; shared[i] = 0; waiting[i] = credits[i] = 0; }
    sections = 0;
}
static void main0(void* p)
{
    (void)p; mk(); int id[VT_MAX];
    for (int t = 1; t < nthr; ++t) id[t] = vt_spawn(mode == 0 ? th0 : th1, prog[t]);
    (mode == 0 ? th0 : th1)(prog[0]);
    if (mode == 0)
    {
        for (int t = 1; t < nthr; ++t) vt_join(id[t]);
        if (poisoned) return;
        for (int i = 0; i < 2; ++i) { OK(resource_release(thread_mutex_resource_handle(mu[i]))); OK(resource_release(thread_cond_resource_handle(cv[i]))); }
    }
}

/* ---- mode 2 ---- */
typedef struct job { int id; status code; bool nested, locks; int ran, ended; thread* th; } job;
static job jobs[VT_MAX]; static int njobs; static bool refuse;
static bool do_refuse(void) { if (!refuse || vt_self() != 0) return false; refuse = false; return true; } static const size_t SIZES[] = { 16384, 5 << 20 };
static status job_fn(void* c)
{
    job* j = c; MC_CHECK(j >= jobs && j < jobs + njobs && !j->ran, "run-twice", "the thread function was run again, or with a wrong context"); ++j->ran; mc_step();
    vt_point("in the thread");
    if (j->nested)
    {
        job* k = &jobs[njobs++]; memset(k, 0, sizeof *k); k->id = 100 + j->id; k->code = 0x77; thread* th = NULL;
        OK(thread_create(&th, A, SIZES[1], k, &job_fn));
        status s = resource_release(thread_resource_handle(th)); MC_CHECK(k->ended && s == 0x77, "join", "the release of a nested thread returned early, or gave %x", (unsigned)s);
    }
    if (j->locks) { thread_mutex_lock* l = acquire(0); bump(0); release(0, l); }
    vt_point("before the thread ends"); j->ended = 1; return j->code;
}
static void main2(void* p)
{
    (void)p; mk(); long base = mc_mem_live(); int n = mc_bound; njobs = 0; vt_fault_in = 0; fa_refuse = &do_refuse; refuse = false; bool some = false;
    static const status CODES[3][2] = { { (status)0x12345678, -1 }, { STATUS_SUCCESS, (status)0x80000001 }, { 0x500, ERROR_GENERAL_OUT_OF_MEMORY } };
    for (int i = 0; i < n; ++i)
    {
        job* j = &jobs[njobs++]; memset(j, 0, sizeof *j); j->id = i; j->code = CODES[i % 3][mc_choose(2, "exit code")]; int k = mc_choose(i == 0 ? 3 : 2, "what it does"); j->nested = k == 2; j->locks = k == 1;
        size_t sz = SIZES[mc_choose(mem ? 1 : 2, "stack size")]; int f = some ? 0 : mc_choose(5, "what fails"); j->th = (thread*)&poisoned;
        for (int q = 0; q < VT_FAULTS; ++q) vt_fault[q] = -1;
        long before = mc_mem_live(); int nt0 = vt_threads();
        if (f == 1) vt_fault[VT_ATTR_INIT] = 0; else if (f == 2) vt_fault[VT_CREATE] = 0; else if (f == 3) refuse = true; else if (f == 4) { sz = 100; }
        if (f) some = true;
        status s = thread_create(&j->th, A, sz, j, &job_fn); if (refuse || (f == 1 && vt_fault[VT_ATTR_INIT] >= 0)) f = 0; refuse = false;
        for (int q = 0; q < VT_FAULTS; ++q) vt_fault[q] = -1;
        if (f)
        {
            mc_nontrivial();
            MC_CHECK(s != STATUS_SUCCESS && (f == 3 ? s == ERROR_GENERAL_OUT_OF_MEMORY : 1), "create-status", "thread_create gave %x although failure %d happened", (unsigned)s, f);
            MC_CHECK(j->th == NULL, "create-out", "a failed thread_create did not set its output to NULL (failure %d)", f);
            MC_CHECK(!j->ran && (i || vt_threads() == nt0), "create-ran", "a failed thread_create started a thread");
            MC_CHECK(i || mc_mem_live() == before, "create-leak", "a failed thread_create leaks %ld blocks", mc_mem_live() - before);
            j->ran = j->ended = 1; j->th = NULL; break;
        }
        MC_CHECK(s == STATUS_SUCCESS && j->th && j->th != (thread*)&poisoned, "create", "thread_create failed with %x", (unsigned)s);
        MC_CHECK(vt_stack_size >= sz, "stack-size", "a thread has a stack of %zu bytes, not %zu", vt_stack_size, sz); mc_step();
    }
    int order = mc_choose(2, "order of the releases"); int m = njobs;
    for (int q = 0; q < m; ++q)
    {
        job* j = &jobs[order ? m - 1 - q : q]; if (!j->th || j->id >= 100) continue;
        status s = resource_release(thread_resource_handle(j->th)); mc_step();
        MC_CHECK(j->ended, "join", "the release of thread %d returned while it was still running", j->id);
        MC_CHECK(s == j->code, "exit-code", "the release of thread %d gave %x, its function returned %x", j->id, (unsigned)s, (unsigned)j->code);
    }
    for (int q = 0; q < njobs; ++q) MC_CHECK(jobs[q].ran == 1 && jobs[q].ended, "run-once", "a thread function was run %d times", jobs[q].ran);
    MC_CHECK(mc_mem_live() == base, "leak", "%ld blocks are left after all threads were released", mc_mem_live() - base);
    MC_CHECK(vt_attrs == 0, "leak-attr", "%ld thread attribute objects are left", vt_attrs);
    for (int t = 1; t < vt_threads(); ++t) MC_CHECK(vt_joined(t), "leak-thread", "thread %d was never joined", t);
    /* the other objects; what fails here too. */
    int f = some ? 0 : mc_choose(9, "what fails at the end"); thread_mutex* m2 = (thread_mutex*)&poisoned; thread_cond* c2 = (thread_cond*)&poisoned; long b = mc_mem_live(), vm = vt_mutexes, vc = vt_conds; status s;
    if (f == 1 || f == 2) { if (f == 1) vt_fault[VT_MUTEX_INIT] = 0; else refuse = true; s = thread_mutex_create(&m2, A); MC_CHECK((f == 2 ? s == ERROR_GENERAL_OUT_OF_MEMORY : s == ERROR_THREAD_MUTEX_INIT) && !m2 && mc_mem_live() == b && vt_mutexes == vm, "mutex-create", "a failed thread_mutex_create gave %x, %p, %ld blocks left", (unsigned)s, (void*)m2, mc_mem_live() - b); mc_nontrivial(); }
    if (f == 3 || f == 4) { if (f == 3) vt_fault[VT_COND_INIT] = 0; else refuse = true; s = thread_cond_create(&c2, A); MC_CHECK((f == 4 ? s == ERROR_GENERAL_OUT_OF_MEMORY : s == ERROR_THREAD_COND_INIT) && !c2 && mc_mem_live() == b && vt_conds == vc, "cond-create", "a failed thread_cond_create gave %x, %p, %ld blocks left", (unsigned)s, (void*)c2, mc_mem_live() - b); mc_nontrivial(); }
    for (int i = 0; i < 2; ++i)
    {
        if (f == 5 && i == 0) vt_fault[VT_MUTEX_DESTROY] = 0;
        if (f == 6 && i == 0) vt_fault[VT_COND_DESTROY] = 0;
        if (f == 7 && i == 0) fa_inst.reclaim_fail_at = fa_inst.reclaims = 0;
        s = resource_release(thread_mutex_resource_handle(mu[i]));
        MC_CHECK(i || f != 5 ? i || f != 7 ? s == STATUS_SUCCESS : s == FA_RECLAIM_STATUS : s == ERROR_THREAD_MUTEX_DESTROY, "mutex-release", "releasing a mutex gave %x", (unsigned)s);
        if (f == 8 && i == 0) fa_inst.reclaim_fail_at = fa_inst.reclaims = 0; else if (f == 7) fa_inst.reclaim_fail_at = -1;
        s = resource_release(thread_cond_resource_handle(cv[i]));
        MC_CHECK(i || f != 6 ? i || f != 8 ? s == STATUS_SUCCESS : s == FA_RECLAIM_STATUS : s == ERROR_THREAD_COND_DESTROY, "cond-release", "releasing a condition variable gave %x", (unsigned)s);
        fa_inst.reclaim_fail_at = -1;
    }
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks are left", mc_mem_live());
    MC_CHECK(vt_mutexes == (f == 5) && vt_conds == (f == 6), "leak-sync", "%ld mutexes and %ld condition variables are left", vt_mutexes, vt_conds);
    if (f >= 5) mc_nontrivial();
}

/* ---- mode 3: workloads that share nothing ---- */
enum { NWORK = 21 };
typedef struct item { resource hdr; int key; } item;
static status item_release(resource* r) { (void)r; return STATUS_SUCCESS; }
RCPR_VTABLE resource_vtable item_vt = { &item_release };
static rcpr_comparison_result icmp(void* c, const void* l, const void* r) { (void)c; int a = *(const int*)l, b = *(const int*)r; return a < b ? RCPR_COMPARE_LT : a > b ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
static const void* ikey(void* c, const resource* r) { (void)c; return &((const item*)r)->key; }
typedef struct wl { int kind, seed; uint64_t out; allocator* a; item it[6]; thread_mutex* m; fiber_scheduler* s; mailbox_address box; fiber_scheduler_discipline* d; int got; conditional cv; fiber* f; psock* ps; } wl;
static wl WL[2];
#define OUT(v) (w->out = mc_hash(w->out, (uint64_t)(v)))
static void trig(void* c) { ++*(int*)c; }
static status fib_rx(void* c) { wl* w = c; for (int i = 0; i < 2; ++i) { message* m = NULL; OK(message_receive(w->box, &m, w->d)); w->got = w->got * 3 + ((item*)message_payload(m, false))->key; OK(resource_release(message_resource_handle(m))); } return STATUS_SUCCESS; }
static status fib_tx(void* c) { wl* w = c; for (int i = 0; i < 2; ++i) { message* m = NULL; OK(message_create(&m, w->a, 0, &w->it[i].hdr)); OK(message_send(w->box, m, w->d)); } return STATUS_SUCCESS; }
static status fib_wait(void* c) { wl* w = c; for (int i = 0; i < 3; ++i) w->got = w->got * 3 + (conditional_wait(w->cv, w->d) == STATUS_SUCCESS ? 1 : 2); return STATUS_SUCCESS; }
static status fib_note(void* c) { wl* w = c; OK(conditional_notify_one(w->cv, w->d)); OK(conditional_notify_all(w->cv, w->d)); w->got = w->got * 3; return STATUS_SUCCESS; }
static status on_event(void* c, fiber* f, const rcpr_uuid* id, int ev, void* par, const rcpr_uuid* x, int xe) { (void)f; (void)id; (void)par; (void)x; (void)xe; wl* w = c; w->got = w->got * 7 + ev; return STATUS_SUCCESS; }
static const rcpr_uuid WD = { { 0xA0, 1 } };
static status d_cb(void* c, fiber* f, int ev, void* par) { wl* w = c; w->got = w->got * 5 + ev % 16; return disciplined_fiber_scheduler_add_fiber_to_run_queue(w->s, f, &WD, ev % 16, par); }
static status fib_disc(void* c)
{
    wl* w = c; const rcpr_uuid* id; int ev = 0; void* q = NULL; fiber_scheduler_discipline* d; OK(fiber_scheduler_discipline_find(&d, w->s, &WD)); if (d != w->d || fiber_scheduler_discipline_context_get(d) != w) w->got = -1;
    for (int i = 0; i < 2; ++i) { OK(fiber_discipline_yield(d, i, w, &id, &ev, &q)); w->got = w->got * 3 + ev + (q == w); } return STATUS_SUCCESS;
}
static status fib_man(void* c) { wl* w = c; const rcpr_uuid* id; int ev = 0; void* q = NULL; OK(disciplined_fiber_scheduler_receive_management_event(w->s, &id, &ev, &q)); w->got = w->got * 3 + ev; return STATUS_SUCCESS; }
static status w_read(psock* s, void* ctx, void* data, size_t* n, bool block) { (void)s; (void)block; wl* w = ctx; memset(data, 'a' + w->seed, *n); ++w->got; return STATUS_SUCCESS; }
static status w_write(psock* s, void* ctx, const void* data, size_t* n, bool block) { (void)s; (void)block; wl* w = ctx; w->got = w->got * 3 + *(const unsigned char*)data; (void)n; return STATUS_SUCCESS; }
RCPR_VTABLE psock_vtable w_vt = { .read_fn = &w_read, .write_fn = &w_write };
static status w_thread(void* c) { wl* w = c; w->got += 7; return STATUS_SUCCESS; }
static const char w_fill[2][2000] = { "a", "b" };
static void work(void* p)
{
    wl* w = p; w->out = 7; w->got = 0; OK(malloc_allocator_create(&w->a)); allocator* a = w->a;
    for (int i = 0; i < 6; ++i) { resource_init(&w->it[i].hdr, &item_vt); w->it[i].key = (i * 5 + w->seed) % 7; }
    switch (w->kind)
    {
        case 0: { list* l; OK(list_create(&l, a)); for (int i = 0; i < 3; ++i) OK(i & 1 ? list_insert_head(l, &w->it[i].hdr) : list_append_tail(l, &w->it[i].hdr)); list_node* n; OK(list_head(&n, l)); while (n) { resource* r; OK(list_node_child(&r, n)); OUT(((item*)r)->key); if (list_node_next(&n, n) != STATUS_SUCCESS) break; } OK(resource_release(list_resource_handle(l))); break; }
        case 1: { slist* l; OK(slist_create(&l, a)); for (int i = 0; i < 3; ++i) OK(i & 1 ? slist_insert_head(l, &w->it[i].hdr) : slist_append_tail(l, &w->it[i].hdr)); resource* r; while (slist_count(l)) { OK(slist_pop(l, &r)); OUT(((item*)r)->key); } OK(resource_release(slist_resource_handle(l))); break; }
        case 2: { queue* l; OK(queue_create(&l, a)); for (int i = 0; i < 3; ++i) OK(queue_append(l, &w->it[i].hdr)); resource* r; while (queue_count(l)) { OK(queue_pop(l, &r)); OUT(((item*)r)->key); } OK(resource_release(queue_resource_handle(l))); break; }
        case 3: { rbtree* t; OK(rbtree_create(&t, a, &icmp, &ikey, NULL)); for (int i = 0; i < 5; ++i) OK(rbtree_insert(t, &w->it[i].hdr)); resource* r; for (int i = 0; i < 5; i += 2) { OK(rbtree_delete(&r, t, &w->it[i].key)); OUT(((item*)r)->key); } OUT(rbtree_count(t)); OK(resource_release(rbtree_resource_handle(t))); break; }
        case 4: { char b[16]; strcpy(b, w->seed ? "  a bc " : " xy  z "); char* q = b; rcpr_left_trim(q); rcpr_right_trim(q); OUT(mc_hash_bytes(1, q, strlen(q))); char* d; OK(rcpr_strdup(&d, a, b)); OUT(strlen(d)); char* cc; OK(rcpr_strcatv(&cc, a, b, d, "-", NULL)); OUT(mc_hash_bytes(1, cc, strlen(cc))); OK(allocator_reclaim(a, d)); OK(allocator_reclaim(a, cc)); break; }
        case 5: { rcpr_uuid u; OK(rcpr_uuid_parse_string(&u, w->seed ? "00112233-4455-6677-8899-aabbccddeeff" : "ffeeddcc-bbaa-9988-7766-554433221100")); OUT(mc_hash_bytes(1, &u, sizeof u)); break; }
        case 6: { bigint *i, *j; OK(bigint_create_zero(&i, a, 100 + w->seed)); OK(bigint_clone(&j, a, i)); OK(resource_release(bigint_resource_handle(i))); OK(resource_release(bigint_resource_handle(j))); break; }
        case 7: { psock* s; OK(psock_create_from_buffer(&s, a, NULL, 0)); OK(psock_write_boxed_int32(s, 77 + w->seed)); OK(psock_write_boxed_string(s, w->seed ? "one" : "other")); void* b; size_t n; OK(psock_from_buffer_get_output_buffer(s, a, &b, &n)); OUT(mc_hash_bytes(1, b, n)); OK(resource_release(psock_resource_handle(s)));
            OK(psock_create_from_buffer(&s, a, b, n)); int32_t v; OK(psock_read_boxed_int32(s, &v)); OUT(v); char* t; size_t tn; OK(psock_read_boxed_string(s, a, &t, &tn)); OUT(mc_hash_bytes(1, t, tn)); OK(allocator_reclaim(a, t)); OK(allocator_reclaim(a, b)); OK(resource_release(psock_resource_handle(s))); break; }
        case 8: { psock* s; psock_br* b; OK(psock_create_from_buffer(&s, a, w->seed ? "ab\ncd\n" : "x\nyzzy\n", w->seed ? 6 : 7)); OK(psock_br_create_from_psock(&b, a, s)); for (int i = 0; i < 2; ++i) { char t[16]; size_t n = sizeof t; OK(psock_br_read_line(t, &n, b)); OUT(n); OUT(mc_hash_bytes(1, t, n)); } OK(resource_release(psock_br_resource_handle(b))); OK(resource_release(psock_resource_handle(s))); break; }
        case 9: { auto_reset_trigger* t; int c = 0; OK(auto_reset_trigger_create(&t, a)); OK(auto_reset_trigger_register(t, &trig, &c)); auto_reset_trigger_signal(t); auto_reset_trigger_step(t); OUT(c); OK(resource_release(auto_reset_trigger_resource_handle(t))); break; }
        case 10: { OK(fiber_scheduler_create_with_disciplines(&w->s, a)); OK(message_discipline_get_or_create(&w->d, a, w->s)); OK(mailbox_create(&w->box, w->d)); fiber *f, *g; OK(fiber_create(&f, a, w->s, 65536, w, &fib_rx)); OK(fiber_create(&g, a, w->s, 65536, w, &fib_tx)); OK(fiber_scheduler_add(w->s, f)); OK(fiber_scheduler_add(w->s, g)); OK(fiber_scheduler_run(w->s)); OUT(w->got); OK(mailbox_close(w->box, w->d)); OK(resource_release(fiber_scheduler_resource_handle(w->s))); break; }
        case 11: { thread* th; OK(thread_create(&th, a, 65536, w, &w_thread)); OK(resource_release(thread_resource_handle(th))); OUT(w->got); thread_mutex* m; OK(thread_mutex_create(&m, a)); thread_mutex_lock* l; OK(thread_mutex_lock_acquire(&l, m)); thread_cond* c; OK(thread_cond_create(&c, a)); OK(thread_cond_signal_all(l, c)); OK(resource_release(thread_mutex_lock_resource_handle(l))); OK(resource_release(thread_mutex_resource_handle(m))); OK(resource_release(thread_cond_resource_handle(c))); break; }
        case 12: { static char pool[2][512]; allocator* b; OK(bump_allocator_create(&b, pool[w->seed & 1], 512)); for (int i = 1; i < 5; ++i) { void* q; OK(allocator_allocate(b, &q, (size_t)(i * 9))); OUT((char*)q - pool[w->seed & 1]); memset(q, i, (size_t)(i * 9)); } OK(resource_release(allocator_resource_handle(b))); break; }
        case 13: { psock* s; OK(psock_create_from_buffer(&s, a, NULL, 0)); OK(psock_write_raw_int64(s, 5 + w->seed)); OK(psock_write_boxed_bool(s, true)); OK(psock_write_boxed_data(s, w, 16)); for (int i = 0; i < 3; ++i) OK(psock_write_raw_data(s, w_fill[w->seed & 1], sizeof w_fill[0])); void* b; size_t n; OK(psock_from_buffer_get_output_buffer(s, a, &b, &n)); OUT(n); OK(allocator_reclaim(a, b)); OK(resource_release(psock_resource_handle(s))); break; }
        case 14: { OK(fiber_scheduler_create_with_disciplines(&w->s, a)); OK(condition_discipline_get_or_create(&w->d, a, w->s)); OK(conditional_create(&w->cv, w->d)); fiber *f, *g; OK(fiber_create(&f, a, w->s, 65536, w, &fib_wait)); OK(fiber_create(&g, a, w->s, 65536, w, &fib_note)); OK(fiber_scheduler_add(w->s, f)); OK(fiber_scheduler_add(w->s, g)); OK(fiber_scheduler_run(w->s)); OUT(w->got); OK(conditional_notify_one(w->cv, w->d)); OK(fiber_scheduler_run(w->s)); OUT(w->got); OK(conditional_close(w->cv, w->d)); OUT(w->got); OK(resource_release(fiber_scheduler_resource_handle(w->s))); break; }
        case 15: { static fiber_scheduler_discipline_callback_fn cbs[2][2] = { { d_cb, d_cb }, { d_cb, d_cb } }; OK(fiber_scheduler_create_with_disciplines(&w->s, a)); OK(fiber_scheduler_discipline_create(&w->d, &WD, a, w, 2, cbs[w->seed & 1])); OK(fiber_scheduler_discipline_add(w->s, w->d)); fiber *f, *g, *m; OK(fiber_create(&f, a, w->s, 65536, w, &fib_disc)); OK(fiber_create(&g, a, w->s, 65536, w, &fib_man)); OK(fiber_unexpected_event_callback_add(g, &on_event, w));
            OK(fiber_scheduler_add(w->s, f)); OK(fiber_scheduler_add(w->s, g)); OK(fiber_scheduler_run(w->s)); OUT(w->got); OK(disciplined_fiber_scheduler_main_fiber_get(&m, w->s)); OUT(fiber_state_get(g)); OK(fiber_unexpected_event(g, &WD, 3, w, &WD, 4)); OUT(w->got);
            fiber* h[3]; for (int i = 0; i < 3; ++i) { OK(fiber_create(&h[i], a, w->s, 65536, w, &fib_man)); OK(fiber_scheduler_add(w->s, h[i])); } OUT(fiber_scheduler_run(w->s)); OK(disciplined_fiber_scheduler_send_terminate_request_to_fiber(w->s, h[0])); OUT(fiber_scheduler_run(w->s)); OUT(w->got); OK(disciplined_fiber_scheduler_send_quiesce_request_to_fiber(w->s, h[1])); OUT(fiber_scheduler_run(w->s)); OUT(w->got);
            OUT(w->seed ? disciplined_fiber_scheduler_send_terminate_request_to_all(w->s) : disciplined_fiber_scheduler_send_quiesce_request_to_all(w->s)); OUT(fiber_scheduler_run(w->s)); OUT(w->got); OUT(w->seed ? disciplined_fiber_scheduler_send_quiesce_request_to_all(w->s) : disciplined_fiber_scheduler_send_terminate_request_to_all(w->s)); OK(resource_release(fiber_scheduler_resource_handle(w->s))); break; }
        case 16: { int d[2], e[2]; OK(socketpair(AF_UNIX, SOCK_STREAM, 0, d)); OK(socketpair(AF_UNIX, SOCK_DGRAM, 0, e)); psock *s, *t, *u, *v; OK(psock_create_from_descriptor(&s, a, d[0])); OK(psock_create_from_descriptor(&t, a, d[1])); OK(psock_write_boxed_int16(s, (int16_t)(3 + w->seed))); int16_t x; OK(psock_read_boxed_int16(t, &x)); OUT(x); OK(psock_create_from_descriptor(&u, a, e[0])); OK(psock_create_from_descriptor(&v, a, e[1]));
            int pp[2], g = -1; OK(pipe(pp)); OK(psock_write_raw_descriptor(u, pp[0])); OK(psock_read_raw_descriptor(v, &g)); OUT(g >= 0); close(g); close(pp[0]); close(pp[1]); int on = 1; OK(psock_setsockopt(s, SOL_SOCKET, SO_KEEPALIVE, &on, sizeof on)); OUT(psock_socket_type(s)); char q[4]; size_t n = 4; OK(socket_utility_set_nonblock(d[1])); OUT(psock_read_raw(t, q, &n));
            OK(resource_release(psock_resource_handle(s))); OK(resource_release(psock_resource_handle(t))); OK(resource_release(psock_resource_handle(u))); OK(resource_release(psock_resource_handle(v))); break; }
        case 17: { char b[24]; strcpy(b, w->seed ? " ab  c" : "xyz  q  "); rcpr_string_iterator it; const char *x, *y; status r = rcpr_words(&x, &it, b); while (r == STATUS_SUCCESS) { OUT(mc_hash_bytes(1, x, strlen(x))); r = rcpr_words(&x, &it, NULL); } strcpy(b, w->seed ? "k:v" : "key:w"); OK(rcpr_split(&x, &y, b, ':')); OUT(mc_hash_bytes(1, y, strlen(y))); strcpy(b, w->seed ? "1,2" : "3,4,5"); 
            OUT(rcpr_starts_with(b, "1")); OUT(rcpr_ends_with(b, '5')); rcpr_chomp(b); OUT(strlen(b)); strcpy(b, "  z "); rcpr_trim(b); OUT(strlen(b)); OUT(rcpr_is_whitespace(b[0])); OUT(socket_utility_hton64(w->seed + 77)); OUT(socket_utility_ntoh32(w->seed + 7)); OUT(socket_utility_hton16((int16_t)(w->seed + 7))); char* z; rcpr_uuid u; memset(&u, w->seed, sizeof u); OK(rcpr_uuid_to_string(&z, a, &u)); OUT(mc_hash_bytes(1, z, 36)); OK(allocator_reclaim(a, z)); break; }
        case 18: { psock* s; int k = w->seed; OK(psock_create_from_buffer(&s, a, NULL, 0));
#define TW(t, c) OK(psock_write_boxed_##t(s, (c)(k + 5))); OK(psock_write_raw_##t(s, (c)(k + 9)));
#define TR(t, c) { c v_; OK(psock_read_boxed_##t(s, &v_)); OUT(v_); OK(psock_read_raw_##t(s, &v_)); OUT(v_); }
            TW(int64, int64_t) TW(uint64, uint64_t) TW(int32, int32_t) TW(uint32, uint32_t) TW(int16, int16_t) TW(uint16, uint16_t) TW(int8, int8_t) TW(uint8, uint8_t) TW(bool, bool) void* b; size_t n; OK(psock_from_buffer_get_output_buffer(s, a, &b, &n)); OK(resource_release(psock_resource_handle(s))); OK(psock_create_from_buffer(&s, a, b, n));
            TR(int64, int64_t) TR(uint64, uint64_t) TR(int32, int32_t) TR(uint32, uint32_t) TR(int16, int16_t) TR(uint16, uint16_t) TR(int8, int8_t) TR(uint8, uint8_t) TR(bool, bool) OK(allocator_reclaim(a, b)); OK(resource_release(psock_resource_handle(s)));
            OK(psock_create_from_user_methods(&s, a, w, &w_vt)); void* q; OK(psock_read_raw_data(s, a, &q, 3)); OUT(((char*)q)[1]); OK(allocator_reclaim(a, q)); OK(psock_write_raw_uint8(s, (uint8_t)k)); OUT(w->got); OK(resource_release(psock_resource_handle(s))); break; }
        case 19: { list *l, *k; slist *e, *g; rbtree *t, *u; resource* r; list_node* n; slist_node* o; OK(list_create(&l, a)); OK(list_create(&k, a)); OK(slist_create(&e, a)); OK(slist_create(&g, a)); OK(rbtree_create(&t, a, &icmp, &ikey, NULL)); OK(rbtree_create(&u, a, &icmp, &ikey, NULL)); OK(list_append_tail(l, &w->it[0].hdr)); OK(list_head(&n, l)); OK(list_append(n, &w->it[1].hdr)); OK(list_insert(n, &w->it[2].hdr)); list_swap(l, k); OK(list_tail(&n, k)); OK(list_node_prev(&n, n)); OK(list_node_child(&r, n)); OUT(((item*)r)->key); OK(list_pop(k, &r)); OUT(((item*)r)->key); OK(list_clear(k));
            OK(slist_append_tail(e, &w->it[0].hdr)); OK(slist_head(&o, e)); OK(slist_append(o, &w->it[1].hdr)); OK(slist_node_next_pop(o, &r)); OUT(((item*)r)->key); slist_swap(e, g); OUT(slist_count(g)); OK(slist_clear(g)); for (int i = 0; i < 3; ++i) OK(rbtree_insert(t, &w->it[i].hdr)); rbtree_swap(t, u); OK(rbtree_find(&r, u, &w->it[1].key)); OUT(((item*)r)->key); rbtree_node* x = rbtree_minimum_node(u, rbtree_root_node(u)); x = rbtree_successor_node(u, x); OUT(((item*)rbtree_node_value(u, x))->key); x = rbtree_predecessor_node(u, rbtree_maximum_node(u, rbtree_root_node(u))); OK(rbtree_delete_node(&r, u, x)); OK(rbtree_clear(u));
            OK(resource_release(list_resource_handle(l))); OK(resource_release(list_resource_handle(k))); OK(resource_release(slist_resource_handle(e))); OK(resource_release(slist_resource_handle(g))); OK(resource_release(rbtree_resource_handle(t))); OK(resource_release(rbtree_resource_handle(u))); break; }
        case 20: { int d[2]; OK(socketpair(AF_UNIX, SOCK_STREAM, 0, d)); psock *s, *t, *x, *y; fiber* m; OK(fiber_scheduler_create_with_disciplines(&w->s, a)); OK(disciplined_fiber_scheduler_main_fiber_get(&m, w->s)); OK(psock_create_from_descriptor(&s, a, d[0])); OK(psock_create_from_descriptor(&t, a, d[1])); OK(psock_create_wrap_async(&x, a, m, s)); OK(psock_create_wrap_async(&y, a, m, t)); OK(psock_write_raw_int32(x, 40 + w->seed)); OK(psock_read_block(y)); int32_t v; OK(psock_read_raw_int32(y, &v)); OUT(v);
            OK(resource_release(psock_resource_handle(x))); OK(resource_release(psock_resource_handle(y))); OK(resource_release(fiber_scheduler_resource_handle(w->s))); break; }
    }
    OK(resource_release(allocator_resource_handle(a)));
}
static uint64_t alone[NWORK][2];
static void main3(void* p)
{
    int s = *(int*)p; WL[0].kind = s % NWORK; WL[1].kind = s / NWORK; WL[0].seed = 0; WL[1].seed = 1;
    int t = vt_spawn(work, &WL[1]); work(&WL[0]); vt_join(t); mc_nontrivial();
}

/* ---- mode 4: a bounded buffer ---- */
static int buf[2], nbuf, made, taken, want; 
static void producer(void* p)
{
    (void)p;
    for (int i = 0; i < mc_bound; ++i)
    {
        thread_mutex_lock* l = acquire(0);
        while (nbuf == 1) { leave(0); OK(thread_cond_wait(&l, cv[0])); enter(0); mc_nontrivial(); }
        vt_write(&nbuf, sizeof nbuf); buf[nbuf++] = ++made; OK(thread_cond_signal_one(l, cv[1])); release(0, l);
    }
}
static void consumer(void* p)
{
    int n = *(int*)p;
    for (int i = 0; i < n; ++i)
    {
        thread_mutex_lock* l = acquire(0);
        while (nbuf == 0) { leave(0); OK(thread_cond_wait(&l, cv[1])); enter(0); mc_nontrivial(); }
        vt_write(&nbuf, sizeof nbuf); int v = buf[0]; buf[0] = buf[1]; --nbuf; MC_CHECK(v == ++taken, "order", "item %d was taken, %d was next", v, taken); OK(thread_cond_signal_one(l, cv[0])); release(0, l); mc_step();
    }
}
static int shares[2];
static void main4(void* p)
{
    (void)p; mk(); nbuf = made = taken = 0; shares[0] = (mc_bound + 1) / 2; shares[1] = mc_bound / 2; int id[3];
    id[0] = vt_spawn(consumer, &shares[0]); id[1] = vt_spawn(consumer, &shares[1]); producer(NULL); vt_join(id[0]); vt_join(id[1]);
    MC_CHECK(taken == mc_bound, "count", "%d items were taken of %d", taken, mc_bound);
}

int mc_scenarios(void) { return mode == 3 ? NWORK * NWORK : mode == 0 ? 2 * 4 : mode == 1 ? 2 * 6 : 1; }
void mc_run(int scenario)
{
    tr_reset(); mc_mem_begin(); poisoned = false; for (int i = 0; i < VT_FAULTS; ++i) vt_fault[i] = -1;
    if (mode == 0 || mode == 1)
    {
        nthr = 2 + scenario % 2; int ops = mode == 0 ? 4 : 6; int len = nthr == 3 ? (mc_bound + 1) / 2 : mc_bound;
        for (int t = 0; t < nthr; ++t) { np[t] = len; for (int i = 0; i < len; ++i) prog[t][i] = t == 0 && i == 0 ? scenario / 2 : mc_choose(ops, "operation"); }
        int f = mc_choose(mode == 0 ? 2 : 4, "what fails"); if (f) { vt_fault[mode == 0 || f == 3 ? VT_MUTEX_LOCK : f == 1 ? VT_COND_WAIT : VT_SIGNAL] = mc_choose(3, "which time"); poisoned = false; }
        vt_run(main0, NULL, mc_bound2, 0, mem);
        mc_state(progs_hash());
        if (mode == 0)
        {
            MC_CHECK(vt_unfinished() == 0, "stuck", "%d threads are stuck, though no mutex is held for ever", vt_unfinished());
            MC_CHECK(shared[0] + shared[1] == sections, "update-lost", "an update of the protected data was lost"); if (vt_switches > nthr) mc_nontrivial();
        }
        else
        {
            int w = waiting[0] + waiting[1];
            MC_CHECK(credits[0] == 0 && credits[1] == 0, "lost-wakeup", "%d threads were signalled and never woke up", credits[0] + credits[1]);
            MC_CHECK(vt_unfinished() == w && vt_waiting() == w, "stuck", "%d threads are left, %d of them should wait", vt_unfinished(), w);
            MC_CHECK(holder[0] < 0, "held", "the mutex is held in the end");
        }
        return;
    }
    if (mode == 2) { vt_run(main2, NULL, mc_bound2, 0, mem); MC_CHECK(vt_unfinished() == 0, "stuck", "%d threads are stuck", vt_unfinished()); uint64_t h = (uint64_t)vt_switches; for (int i = 0; i < njobs; ++i) h = mc_hash(h, (uint64_t)(jobs[i].id * 8 + jobs[i].nested * 2 + jobs[i].locks) + (uint64_t)jobs[i].code * 64); mc_state(h); return; }
    if (mode == 3)
    {
        int k[2] = { scenario % NWORK, scenario / NWORK };
        for (int i = 0; i < 2; ++i) if (!alone[k[i]][i]) { memset(&WL[i], 0, sizeof WL[i]); WL[i].kind = k[i]; WL[i].seed = i; vt_run(work, &WL[i], 0, 0, false); MC_CHECK(vt_unfinished() == 0, "alone", "workload %d does not end", k[i]); alone[k[i]][i] = WL[i].out; }
        mc_mem_begin(); memset(WL, 0, sizeof WL);
        vt_run(main3, &scenario, mc_bound2, 0, mem);
        MC_CHECK(vt_unfinished() == 0, "stuck", "%d threads are stuck", vt_unfinished());
        for (int i = 0; i < 2; ++i) MC_CHECK(WL[i].out == alone[k[i]][i], "interference", "workload %d gives another result while workload %d runs in another thread", k[i], k[1 - i]);
        MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks are left", mc_mem_live()); mc_step(); mc_state(mc_hash((uint64_t)scenario, (uint64_t)vt_switches));
        return;
    }
    vt_run(main4, NULL, mc_bound2, 1, mem);
    MC_CHECK(vt_unfinished() == 0, "stuck", "%d threads are stuck", vt_unfinished()); mc_state((uint64_t)vt_switches * 64 + (uint64_t)want);
}
