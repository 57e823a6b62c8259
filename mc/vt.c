/* Virtual threads.  See vt.h. */
#define _GNU_SOURCE
#include "vt.h"
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <stdint.h>
#include <ucontext.h>
#include <time.h>
#include <unistd.h>

enum { STACK = 256 * 1024, NM = 16, NC = 16, TR = 1 << 18 };
typedef enum { READY, ON_MUTEX, ON_COND, ON_JOIN, ENDED } vstate;
typedef struct vthread {
    ucontext_t uc; char* stack; vstate st; int on; void* (*fn)(void*); void (*hfn)(void*); void* arg; void* ret; bool detached, joined, start_wait;
    uint32_t clk[VT_MAX]; int relock; bool timed, timed_out;
} vthread;
static vthread T[VT_MAX]; static int nt, cur; static bool running; static ucontext_t back;
static int left, spurious; static bool memory;
typedef struct vmutex { const void* at; int owner, depth, type; bool live; uint32_t clk[VT_MAX]; } vmutex;
typedef struct vcond { const void* at; bool live; int q[VT_MAX], n; } vcond;
static vmutex M[NM]; static vcond C[NC];
typedef struct vatomic { const void* at; uint32_t clk[VT_MAX]; } vatomic;
static vatomic AT[64]; static int nat;
long vt_fault[VT_FAULTS], vt_calls[VT_FAULTS], vt_attrs, vt_mutexes, vt_conds, vt_switches; size_t vt_stack_size;
static struct { const void* at; size_t stack; bool det; } attr[16];
int vt_fault_in = -1;
static bool faulted(int k) { ++vt_calls[k]; if (vt_fault_in >= 0 && cur != vt_fault_in) return false; return vt_fault[k] >= 0 && vt_fault[k]-- == 0; }

/* ---- who accessed a byte last ---- */
typedef struct cell { uintptr_t a; uint32_t epoch; uint32_t wc; int8_t wt; uint32_t rc[VT_MAX]; } cell;
static cell* sh; static uint32_t epoch;
static cell* look(uintptr_t a)
{
    uint32_t i = (uint32_t)((a * 0x9E3779B97F4A7C15ULL) >> 40) & (TR - 1);
    for (int k = 0; k < 512; ++k, i = (i + 1) & (TR - 1))
    {
        if (sh[i].epoch != epoch) { memset(&sh[i], 0, sizeof(cell)); sh[i].epoch = epoch; sh[i].a = a; sh[i].wt = -1; return &sh[i]; }
        if (sh[i].a == a) return &sh[i];
    }
    return NULL;
}
static bool own_stack(const void* p)
{
    if (T[cur].stack && (const char*)p >= T[cur].stack && (const char*)p < T[cur].stack + STACK) return true;
    /* a fiber's stack: near the stack pointer. */
    const char* sp = __builtin_frame_address(0); return (const char*)p >= sp - 4096 && (const char*)p < sp + 32768;
}
static void touch(const void* p, size_t n, bool w)
{
    for (size_t i = 0; i < n; ++i)
    {
        cell* c = look((uintptr_t)p + i); if (!c) continue;
        if (c->wt >= 0 && c->wt != cur && c->wc > T[cur].clk[c->wt])
            mc_fail("race", "two threads access the same memory without synchronisation: thread %d after a write of thread %d", cur, c->wt);
        if (w)
        {
            for (int t = 0; t < nt; ++t) if (t != cur && c->rc[t] > T[cur].clk[t])
                mc_fail("race", "two threads access the same memory without synchronisation: a write of thread %d after a read of thread %d", cur, t);
            c->wt = (int8_t)cur; c->wc = T[cur].clk[cur]; memset(c->rc, 0, sizeof c->rc);
        }
        else c->rc[cur] = T[cur].clk[cur];
    }
}
static void forget(const void* p, size_t n) { for (size_t i = 0; i < n; ++i) { cell* c = look((uintptr_t)p + i); if (c) { c->wt = -1; memset(c->rc, 0, sizeof c->rc); } } }
void mc_mem_born(void* p, size_t n) { if (running) forget(p, n); }
void mc_mem_dies(void* p) { if (running) { size_t n = malloc_usable_size(p); if (n > 4096) n = 4096; touch(p, n, true); forget(p, n); } }
void vt_read(const void* p, size_t n) { if (running) touch(p, n, false); }
void vt_write(const void* p, size_t n) { if (running) touch(p, n, true); }
static void join_clk(uint32_t* d, const uint32_t* s) { for (int i = 0; i < VT_MAX; ++i) if (s[i] > d[i]) d[i] = s[i]; }

/* ---- the scheduler ---- */
static bool enabled(int t)
{
    vthread* v = &T[t];
    switch (v->st)
    {
        case READY: return true;
        case ON_MUTEX: return M[v->on].owner < 0;
        case ON_JOIN: return T[v->on].st == ENDED;
        default: return false;
    }
}
static void switch_to(int t)
{
    int me = cur; cur = t; ++vt_switches;
    if (t != me) { mc_trace("  -- thread %d", t); int e_ = errno; swapcontext(&T[me].uc, &T[t].uc); errno = e_; }
}
/* the running thread cannot go on: some other one. */
static void dispatch(void)
{
    int c[VT_MAX], n = 0;
    for (int t = 0; t < nt; ++t) if (enabled(t)) c[n++] = t;
    /* a wait may end without a signal. */
    int sp = 0; if (spurious > 0) for (int t = 0; t < nt; ++t) if (T[t].st == ON_COND) ++sp;
    if (n == 0) { setcontext(&back); abort(); }
    int k = n + sp > 1 ? mc_choose(n + sp, "next thread") : 0;
    if (k < n) { switch_to(c[k]); return; }
    k -= n; --spurious;
    for (int t = 0; t < nt; ++t) if (T[t].st == ON_COND && k-- == 0)
    {
        vcond* v = &C[T[t].on]; int j = 0; while (v->q[j] != t) ++j; for (; j + 1 < v->n; ++j) v->q[j] = v->q[j + 1]; --v->n;
        mc_trace("  thread %d wakes up by itself", t);
        T[t].st = ON_MUTEX; T[t].on = T[t].relock; dispatch(); return;
    }
}
static int points;
void vt_point(const char* what)
{
    if (!running || left <= 0) return;
    int c[VT_MAX], n = 1; c[0] = cur;
    for (int t = 0; t < nt; ++t) if (t != cur && enabled(t)) c[n++] = t;
    if (n == 1) return;
    ++points; int k = mc_choose(n, what); if (k == 0) return;
    --left; switch_to(c[k]);
}
static void wait_on(vstate s, int on) { T[cur].st = s; T[cur].on = on; dispatch(); }
static void entry(void)
{
    vthread* v = &T[cur];
    if (v->hfn) v->hfn(v->arg); else v->ret = v->fn(v->arg);
    v = &T[cur]; v->st = ENDED; mc_trace("  thread %d ends", cur); dispatch(); abort();
}
static int start(void* (*fn)(void*), void (*hfn)(void*), void* arg)
{
    if (nt >= VT_MAX) mc_fail("threads", "too many threads are created");
    vthread* v = &T[nt]; char* st = v->stack; memset(v, 0, sizeof *v); v->stack = st ? st : mc_xmalloc(STACK);
    v->fn = fn; v->hfn = hfn; v->arg = arg; v->st = READY;
    getcontext(&v->uc); v->uc.uc_stack.ss_sp = v->stack; v->uc.uc_stack.ss_size = STACK; v->uc.uc_link = NULL; makecontext(&v->uc, entry, 0);
    if (nt) { join_clk(v->clk, T[cur].clk); ++T[cur].clk[cur]; }
    v->clk[nt] = 1;
    return nt++;
}
void vt_run(void (*fn)(void*), void* arg, int preemptions, int spur, bool at_memory)
{
    if (!sh) { sh = mc_xmalloc(sizeof(cell) * TR); memset(sh, 0, sizeof(cell) * TR); }
    ++epoch; nt = 0; cur = 0; left = preemptions; points = 0; spurious = spur; memory = at_memory; nat = 0; vt_attrs = vt_mutexes = vt_conds = vt_switches = 0;
    memset(M, 0, sizeof M); memset(C, 0, sizeof C); memset(attr, 0, sizeof attr);
    for (int i = 0; i < VT_FAULTS; ++i) vt_calls[i] = 0;
    start(NULL, fn, arg);
    volatile int once = 0; getcontext(&back);
    if (!once) { once = 1; running = true; setcontext(&T[0].uc); }
    running = false;
}
int vt_self(void) { return cur; }
int vt_threads(void) { return nt; }
int vt_unfinished(void) { int n = 0; for (int t = 0; t < nt; ++t) n += T[t].st != ENDED; return n; }
int vt_waiting(void) { int n = 0; for (int t = 0; t < nt; ++t) n += T[t].st == ON_COND; return n; }
bool vt_ended(int t) { return t < nt && T[t].st == ENDED; }
bool vt_joined(int t) { return t < nt && T[t].joined; }
int vt_spawn(void (*fn)(void*), void* arg) { int t = start(NULL, fn, arg); vt_point("after spawning"); return t; }
static int do_join(int t) { if (t < 0 || t >= nt || T[t].joined || T[t].detached) mc_fail("join", "a thread is joined that cannot be"); wait_on(ON_JOIN, t); T[cur].st = READY; T[t].joined = true; join_clk(T[cur].clk, T[t].clk); return 0; }
void vt_join(int t) { do_join(t); }

/* ---- the pthread functions ---- */
int __real_pthread_attr_init(pthread_attr_t*); int __real_pthread_attr_destroy(pthread_attr_t*); int __real_pthread_attr_setstacksize(pthread_attr_t*, size_t);
int __wrap_pthread_attr_init(pthread_attr_t* a)
{
    if (faulted(VT_ATTR_INIT)) return ENOMEM;
    vt_write(a, sizeof *a);
    for (int i = 0; i < 16; ++i) if (!attr[i].at) { attr[i].at = a; attr[i].stack = 0; attr[i].det = false; ++vt_attrs; memset(a, 0x5A, sizeof *a); return 0; }
    return ENOMEM;
}
static int aidx(const void* a) { for (int i = 0; i < 16; ++i) if (a && attr[i].at == a) return i; mc_fail("attr", "thread attributes are used that are not initialised"); }
int __wrap_pthread_attr_destroy(pthread_attr_t* a) { vt_write(a, sizeof *a); int i = aidx(a); attr[i].at = NULL; --vt_attrs; return 0; }
int __wrap_pthread_attr_setstacksize(pthread_attr_t* a, size_t n) { vt_write(a, sizeof *a); int i = aidx(a); if (faulted(VT_ATTR_STACK) || n < 16384) return EINVAL; attr[i].stack = n; return 0; }
int __wrap_pthread_attr_setdetachstate(pthread_attr_t* a, int d) { vt_write(a, sizeof *a); attr[aidx(a)].det = d == PTHREAD_CREATE_DETACHED; return 0; }
int __wrap_pthread_create(pthread_t* th, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    int i = a ? aidx(a) : -1;
    if (a) vt_read(a, sizeof *a);
    vt_point("at pthread_create");
    if (faulted(VT_CREATE)) return EAGAIN;
    vt_stack_size = i < 0 ? 0 : attr[i].stack;
    int t = start(fn, NULL, arg); T[t].detached = i >= 0 && attr[i].det;
    *th = (pthread_t)(t + 1);
    vt_point("thread created");
    return 0;
}
int __wrap_pthread_join(pthread_t th, void** r)
{
    vt_point("at pthread_join");
    if (faulted(VT_JOIN)) return EDEADLK;
    int t = (int)th - 1; do_join(t); if (r) *r = T[t].ret; return 0;
}
int __wrap_pthread_detach(pthread_t th) { int t = (int)th - 1; if (t < 0 || t >= nt) return ESRCH; T[t].detached = true; return 0; }
pthread_t __wrap_pthread_self(void) { return (pthread_t)(cur + 1); }
int __wrap_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void __wrap_pthread_exit(void* r) { T[cur].ret = r; T[cur].st = ENDED; dispatch(); abort(); }
int __wrap_sched_yield(void) { vt_point("sched_yield"); return 0; }

static int midx(const void* m) { for (int i = 0; i < NM; ++i) if (M[i].live && M[i].at == m) return i; mc_fail("mutex", "a mutex is used that is not initialised"); }
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    if (faulted(VT_MUTEX_INIT)) return ENOMEM;
    int ty = PTHREAD_MUTEX_NORMAL; if (a) pthread_mutexattr_gettype(a, &ty);
    for (int i = 0; i < NM; ++i) if (M[i].live && M[i].at == (void*)m) mc_fail("mutex", "a mutex is initialised twice");
    for (int i = 0; i < NM; ++i) if (!M[i].live) { memset(&M[i], 0, sizeof M[i]); M[i].live = true; M[i].at = m; M[i].owner = -1; M[i].type = ty; ++vt_mutexes; return 0; }
    return ENOMEM;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { int i = midx(m); if (faulted(VT_MUTEX_DESTROY) || M[i].owner >= 0) return EBUSY; M[i].live = false; --vt_mutexes; return 0; }
static void take(int i) { M[i].owner = cur; M[i].depth = 1; T[cur].st = READY; join_clk(T[cur].clk, M[i].clk); }
static int lock(int i, bool try)
{
    if (M[i].owner == cur && M[i].type == PTHREAD_MUTEX_RECURSIVE) { ++M[i].depth; return 0; }
    if (M[i].owner == cur && M[i].type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    if (try) { if (M[i].owner >= 0) return EBUSY; take(i); return 0; }
    while (M[i].owner >= 0) { if (M[i].owner == cur) { T[cur].st = ON_MUTEX; T[cur].on = i; dispatch(); continue; } wait_on(ON_MUTEX, i); }
    take(i); return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { int i = midx(m); vt_point("at lock"); if (faulted(VT_MUTEX_LOCK)) return EINVAL; return lock(i, false); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { int i = midx(m); vt_point("at trylock"); return lock(i, true); }
/* time passes when it has to. */
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { (void)t; int i = midx(m); vt_point("at timedlock"); if (M[i].owner >= 0 && mc_choose(2, "time is up")) return ETIMEDOUT; return lock(i, false); }
static int unlock(int i, bool wait)
{
    if (M[i].owner != cur) { if (M[i].type == PTHREAD_MUTEX_ERRORCHECK || M[i].type == PTHREAD_MUTEX_RECURSIVE) return EPERM; mc_fail("unlock", "thread %d unlocks a mutex that it does not hold", cur); }
    if (M[i].type == PTHREAD_MUTEX_RECURSIVE && !wait && --M[i].depth) return 0;
    M[i].owner = -1; join_clk(M[i].clk, T[cur].clk); ++T[cur].clk[cur];
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int i = midx(m); vt_point("at unlock"); if (faulted(VT_MUTEX_UNLOCK)) return EINVAL; int r = unlock(i, false); vt_point("after unlock"); return r; }
static int cidx(const void* c) { for (int i = 0; i < NC; ++i) if (C[i].live && C[i].at == c) return i; mc_fail("cond", "a condition variable is used that is not initialised"); }
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
{
    (void)a; if (faulted(VT_COND_INIT)) return ENOMEM;
    for (int i = 0; i < NC; ++i) if (C[i].live && C[i].at == (void*)c) mc_fail("cond", "a condition variable is initialised twice");
    for (int i = 0; i < NC; ++i) if (!C[i].live) { memset(&C[i], 0, sizeof C[i]); C[i].live = true; C[i].at = c; ++vt_conds; return 0; }
    return ENOMEM;
}
int __wrap_pthread_cond_destroy(pthread_cond_t* c) { int i = cidx(c); if (faulted(VT_COND_DESTROY)) return EBUSY; if (C[i].n) mc_fail("cond", "a condition variable is destroyed while threads wait for it"); C[i].live = false; --vt_conds; return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    int i = cidx(c), j = midx(m); vt_point("at wait");
    if (faulted(VT_COND_WAIT)) return EINVAL;
    if (M[j].owner != cur) mc_fail("wait", "a thread waits without holding the mutex");
    unlock(j, true); C[i].q[C[i].n++] = cur; T[cur].relock = j; wait_on(ON_COND, i);
    take(j); return 0;
}
/* a timed wait ends by time-out only when nothing else can happen, or by choice. */
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    (void)t; if (mc_choose(2, "time is up")) { int j = midx(m); unlock(j, true); vt_point("timed out"); lock(j, false); return ETIMEDOUT; }
    return __wrap_pthread_cond_wait(c, m);
}
static void wake(int i, int k) { int t = C[i].q[k]; for (; k + 1 < C[i].n; ++k) C[i].q[k] = C[i].q[k + 1]; --C[i].n; T[t].st = ON_MUTEX; T[t].on = T[t].relock; mc_trace("  thread %d is woken", t); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { int i = cidx(c); vt_point("at signal"); if (faulted(VT_SIGNAL)) return EINVAL; if (C[i].n) wake(i, C[i].n > 1 ? mc_choose(C[i].n, "which waiting thread") : 0); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { int i = cidx(c); vt_point("at broadcast"); if (faulted(VT_BROADCAST)) return EINVAL; while (C[i].n) wake(i, 0); return 0; }

/* ---- the compiler's hooks ---- */
static inline void acc(const void* p, size_t n, bool w)
{
    if (!running || own_stack(p)) return;
    /* a switch is possible at the first 3500 such places of an execution: the clocks see a race after them in any order. */
    if (memory && points < 3500) vt_point(w ? "at a write" : "at a read");
    touch(p, n, w);
}
#define RW(n) void __tsan_read##n(void* p) { acc(p, n, false); } void __tsan_write##n(void* p) { acc(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { acc(p, n, false); } void __tsan_unaligned_write##n(void* p) { acc(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { acc(p, n, false); } void __tsan_volatile_write##n(void* p) { acc(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { acc(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { acc(p, n, true); } \
    void __tsan_read_write##n(void* p) { acc(p, n, false); acc(p, n, true); } void __tsan_unaligned_read_write##n(void* p) { acc(p, n, false); acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { acc(p, n, false); }
void __tsan_write_range(void* p, size_t n) { acc(p, n, true); }
void __tsan_func_entry(void* p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void** p, void* v) { (void)p; (void)v; }
static void sync_at(const void* p)
{
    if (!running) return;
    vt_point("at an atomic access");
    int i = 0; while (i < nat && AT[i].at != p) ++i;
    if (i == nat) { if (nat == 64) return; memset(&AT[i], 0, sizeof AT[i]); AT[i].at = p; ++nat; }
    join_clk(T[cur].clk, AT[i].clk); join_clk(AT[i].clk, T[cur].clk); ++T[cur].clk[cur];
}
#define ATOMIC(b, t) \
    t __tsan_atomic##b##_load(const volatile t* p, int mo) { (void)mo; sync_at((const void*)p); return *p; } \
    void __tsan_atomic##b##_store(volatile t* p, t v, int mo) { (void)mo; sync_at((const void*)p); *p = v; } \
    t __tsan_atomic##b##_exchange(volatile t* p, t v, int mo) { (void)mo; sync_at((const void*)p); t o = *p; *p = v; return o; } \
    t __tsan_atomic##b##_fetch_add(volatile t* p, t v, int mo) { (void)mo; sync_at((const void*)p); t o = *p; *p = (t)(o + v); return o; } \
    t __tsan_atomic##b##_fetch_sub(volatile t* p, t v, int mo) { (void)mo; sync_at((const void*)p); t o = *p; *p = (t)(o - v); return o; } \
    t __tsan_atomic##b##_fetch_or(volatile t* p, t v, int mo) { (void)mo; sync_at((const void*)p); t o = *p; *p = (t)(o | v); return o; } \
    t __tsan_atomic##b##_fetch_and(volatile t* p, t v, int mo) { (void)mo; sync_at((const void*)p); t o = *p; *p = (t)(o & v); return o; } \
    t __tsan_atomic##b##_fetch_xor(volatile t* p, t v, int mo) { (void)mo; sync_at((const void*)p); t o = *p; *p = (t)(o ^ v); return o; } \
    bool __tsan_atomic##b##_compare_exchange_strong(volatile t* p, t* e, t v, int mo, int mf) { (void)mo; (void)mf; sync_at((const void*)p); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
    bool __tsan_atomic##b##_compare_exchange_weak(volatile t* p, t* e, t v, int mo, int mf) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, mo, mf); }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
/* memory functions of the code under test, renamed when it is compiled. */
void* vt_memset(void* p, int c, size_t n) { acc(p, n, true); return memset(p, c, n); }
void* vt_memcpy(void* d, const void* s, size_t n) { acc(s, n, false); acc(d, n, true); return memcpy(d, s, n); }
void* vt_memmove(void* d, const void* s, size_t n) { acc(s, n, false); acc(d, n, true); return memmove(d, s, n); }
int vt_memcmp(const void* a, const void* b, size_t n) { acc(a, n, false); acc(b, n, false); return memcmp(a, b, n); }
