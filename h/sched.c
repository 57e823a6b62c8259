/*
 * Schedulers with a callback of the user's own, alone and nested: every program of up to mc_bound operations
 * over two schedulers, the second one created, driven and released from whatever fiber of the first one runs.
 * The callbacks choose who runs next, refuse, or answer the creation and the release in every way.
 * mode 0: programs.  mode 1: programs where an allocation of one creation fails.
 */
#include "common.h"
#include <sys/mman.h>
#include <rcpr/fiber.h>
#include <rcpr/uuid.h>
RCPR_IMPORT_fiber; RCPR_IMPORT_uuid;
const char* mc_name = "sched";
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#endif
void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
#define MAPS 10
static struct { char* p; size_t n; bool used; } maps[MAPS]; static int mapped;
void* __wrap_mmap(void* p, size_t n, int prot, int fl, int fd, off_t o)
{
    if (fd != -1 || p || n > 1024 * 1024 || (fl & MAP_SHARED)) return __real_mmap(p, n, prot, fl, fd, o);
    for (int i = 0; i < MAPS; ++i)
    {
        if (maps[i].used || (maps[i].p && maps[i].n != n)) continue;
        if (!maps[i].p) { maps[i].p = __real_mmap(p, n, prot, fl, fd, o); maps[i].n = n; }
        ASAN_UNPOISON_MEMORY_REGION(maps[i].p, n); memset(maps[i].p + n - 4096, 0x77, 4096); maps[i].used = true; ++mapped; return maps[i].p;
    }
    return __real_mmap(p, n, prot, fl, fd, o);
}
int __wrap_munmap(void* p, size_t n)
{
    for (int i = 0; i < MAPS; ++i) if (maps[i].p == p) { if (!maps[i].used || n != maps[i].n) mc_fail("unmap", "a stack was unmapped wrongly"); maps[i].used = false; --mapped; return 0; }
    return __real_munmap(p, n);
}

/* fiber 0 of a scheduler is the main one. */
enum { NS = 2, NF = 3, DEAD = 3 };
typedef struct sc
{
    fiber_scheduler* s; fiber* f[NF]; int st[NF] /* 0 none 1 added 2 running 3 stopped */, n, cur, next; bool there;
    int main_calls, release_calls, calls, main_answer, release_answer; fiber* main_seen;
    bool expect, refuse; int want_ev; void* want_par; long serial; const rcpr_uuid* id; int ev; void* par; status stopped;
} sc;
static sc S[NS]; static int ctxs[NS], fctx[NS * NF]; static allocator* al; static int steps; static bool done, esc;
static const rcpr_uuid IDS[4] = { { .data = { 1 } }, { .data = { 2 } }, { .data = { 3 } }, { .data = { 4 } } };
static fiber* stray; static int faults;
static int fault(void) { int k = mc_mode == 1 && !faults ? mc_choose(4, "allocation that fails") - 1 : -1; if (k >= 0) ++faults; return k; }
enum { ANSWERS = 6 };
static const char* const answers[ANSWERS] = { "the main fiber", "an error", "no fiber", "another event", "another fiber", "a run" };

static status cb(void* ctx, fiber* y, int ev, void* par, fiber** rf, const rcpr_uuid** rid, int* rev, void** rpar)
{
    int i = (int)((int*)ctx - ctxs); if (i < 0 || i >= NS) mc_fail("callback", "the callback was given a wrong context");
    sc* s = &S[i]; ++s->calls;
    if (ev == FIBER_SCHEDULER_YIELD_EVENT_MAIN)
    {
        if (s->main_calls++ || s->release_calls) mc_fail("callback", "the main fiber was announced twice, or late");
        if (!y || par || !mc_mem_is_live(y) || fiber_state_get(y) != FIBER_STATE_RUNNING) mc_fail("callback", "the main fiber that is announced is wrong");
        s->main_seen = y; *rf = y; *rid = &IDS[0]; *rev = FIBER_SCHEDULER_RESUME_EVENT_MAIN; *rpar = NULL;
        switch (s->main_answer) { case 1: return (status)0x80FF0BAD; case 2: *rf = NULL; break; case 3: *rev = FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER; break; case 4: *rf = stray; break; case 5: *rev = FIBER_SCHEDULER_RESUME_EVENT_RUN; *rf = stray; break; default: break; }
        return STATUS_SUCCESS;
    }
    if (ev == FIBER_SCHEDULER_YIELD_EVENT_RESOURCE_RELEASE)
    {
        if (s->release_calls++) mc_fail("callback", "the release was announced twice");
        if (y != s->main_seen || par || !mc_mem_is_live(y)) mc_fail("callback", "the release was announced with a wrong fiber");
        for (int f = 1; f < s->n; ++f) if (s->f[f] && resource_release(fiber_resource_handle(s->f[f])) != STATUS_SUCCESS) mc_fail("release", "releasing a fiber failed");
        *rf = NULL; return s->release_answer ? (status)0x80FF0BAE : STATUS_SUCCESS;
    }
    if (!s->there) mc_fail("callback", "event %x for a scheduler that is not there", ev);
    if (esc) { *rf = s->f[0]; *rid = &IDS[0]; *rev = 1; *rpar = NULL; s->cur = 0; return STATUS_SUCCESS; }
    if (!s->expect) mc_fail("callback", "the callback ran when nothing asked for it, or twice");
    s->expect = false;
    if (y != s->f[s->cur]) mc_fail("callback", "the yielding fiber is not the one that runs");
    if (ev != s->want_ev) mc_fail("callback", "event %x instead of %x", ev, s->want_ev);
    if (ev == FIBER_SCHEDULER_YIELD_EVENT_STOP)
    {
        if (!par || *(status*)par != s->stopped) mc_fail("stop-status", "the status of a fiber that stopped was lost");
        s->st[s->cur] = 3; if (fiber_state_get(y) != FIBER_STATE_STOPPED) mc_fail("state", "a fiber that returned is not stopped");
    }
    else if (par != s->want_par) mc_fail("callback", "the yield parameter was changed");
    if (s->refuse) return (status)0x80FF0BAD;
    int live[NF], n = 0; for (int f = 0; f < s->n; ++f) if (s->st[f] == 1 || s->st[f] == 2) live[n++] = f;
    s->next = live[mc_choose(n, "who runs next")]; ++s->serial;
    *rf = s->f[s->next]; *rid = s->id = &IDS[s->serial % 4]; *rev = s->ev = (int)(s->serial * 7919 - 5); *rpar = s->par = (void*)(uintptr_t)(0xABCD000000000000ULL + (uint64_t)s->serial);
    return STATUS_SUCCESS;
}
static void resumed(int i, int me)
{
    sc* s = &S[i]; if (esc) return;
    if (s->next != me) mc_fail("switch", "fiber %d of scheduler %d goes on instead of %d", me, i, s->next);
    s->cur = me; s->next = -1; mc_step();
}
static bool create(int i, int answer, int k)
{
    sc* s = &S[i]; int serial = (int)s->serial; memset(s, 0, sizeof *s); s->serial = serial; s->main_answer = answer; s->release_answer = 0; s->next = -1;
    long l0 = mc_mem_live(), f0 = mc_mem_failures(); s->s = (fiber_scheduler*)&l0; mc_mem_fail_at(k);
    status r = fiber_scheduler_create(&s->s, al, &ctxs[i], &cb); mc_mem_fail_at(-1); bool hit = mc_mem_failures() > f0; mc_step();
    if (!hit && !answer)
    {
        MC_CHECK(r == STATUS_SUCCESS && s->s && s->main_calls == 1 && s->calls == 1, "create", "creating a scheduler: status %x", (unsigned)r);
        s->there = true; s->f[0] = s->main_seen; s->st[0] = 2; s->n = 1; MC_CHECK(fiber_scheduler_from_fiber_get(s->f[0]) == s->s && s->f[0] != stray, "of-fiber", "the scheduler of the main fiber");
        return true;
    }
    mc_nontrivial();
    MC_CHECK(r != STATUS_SUCCESS && s->s == NULL, "create-refused", "status %x, pointer %p", (unsigned)r, (void*)s->s);
    if (hit) MC_CHECK(r == ERROR_GENERAL_OUT_OF_MEMORY && !s->main_calls, "create-oom", "status %x, %d announcements", (unsigned)r, s->main_calls);
    else MC_CHECK(r == (answer == 1 ? (status)0x80FF0BAD : ERROR_FIBER_SCHEDULER_CALLBACK_STATE) && s->main_calls == 1, "create-refused", "status %x", (unsigned)r);
    MC_CHECK(mc_mem_live() == l0, "create-leak", "a scheduler that was not created leaks %ld blocks", mc_mem_live() - l0);
    return false;
}
static void release(int i, int answer)
{
    sc* s = &S[i]; s->release_answer = answer; int m = mapped, owned = 0; for (int f = 1; f < s->n; ++f) if (s->f[f]) ++owned;
    fiber* mn = s->main_seen; status r = resource_release(fiber_scheduler_resource_handle(s->s)); s->there = false; mc_step();
    MC_CHECK(r == (answer ? (status)0x80FF0BAE : STATUS_SUCCESS), "release-status", "the release answers %x", (unsigned)r);
    MC_CHECK(s->release_calls == 1 && s->main_calls == 1, "callback", "the release was announced %d times", s->release_calls);
    MC_CHECK(!mc_mem_is_live(mn) && mapped == m - owned, "release-leak", "the main fiber or a stack leaked");
}
static void escape(int i, int me)
{
    done = true; if (i == 1) { if (!esc) { esc = true; } if (me) { const rcpr_uuid* id; int ev; void* p; status r = fiber_scheduler_yield(S[1].s, 0x7000, NULL, &id, &ev, &p); mc_fail("escape", "the main fiber could not be resumed (%x)", (unsigned)r); } }
    esc = true;
}
static status entry(void* ctx);
/* a fiber of scheduler i runs (me is 0 for its main fiber).  In scheduler 1, main may be any fiber of scheduler 0. */
static void frame(int i, int me, bool* stop)
{
    volatile uint64_t canary[8]; uint64_t seed = mc_hash((uint64_t)(i * 16 + me), (uint64_t)S[i].serial); for (int k = 0; k < 8; ++k) canary[k] = mc_hash(seed, (uint64_t)k);
    if (me) { bool in = false; for (int m = 0; m < MAPS; ++m) if (maps[m].used && (char*)canary >= maps[m].p && (char*)canary < maps[m].p + maps[m].n) in = true; MC_CHECK(in, "stack", "a fiber runs outside of its stack"); }
    while (!done)
    {
        if (steps >= mc_bound) { done = esc = true; break; }
        ++steps; mc_state(mc_hash(mc_hash(mc_hash_bytes(0, S[0].st, sizeof S[0].st), mc_hash_bytes(1, S[1].st, sizeof S[1].st)), (uint64_t)(i * 64 + me * 16 + steps) * 2 + S[1].there));
        /* operations: scheduler * 16 + what. */
        int ops[32], n = 0;
        for (int t = i; t < NS; ++t)
        {
            if (!S[t].there) { if (t == 1) for (int a = 0; a < ANSWERS; ++a) ops[n++] = 16 * t + 8 + a; continue; }
            if (t == 1 && i == 0 && S[1].cur != 0) continue;
            ops[n++] = 16 * t; ops[n++] = 16 * t + 1; ops[n++] = 16 * t + 2; if (S[t].n < NF) ops[n++] = 16 * t + 3;
            if (t == 1 && i == 0) { ops[n++] = 16 * t + 5; ops[n++] = 16 * t + 6; }
        }
        if (me) ops[n++] = 4;
        int op = ops[mc_choose(n, "operation")], t = op / 16, what = op % 16; sc* s = &S[t]; int as = t == i ? me : 0;
        if (op == 4) { mc_trace("scheduler %d fiber %d: stop", i, me); S[i].stopped = (status)(0x40 + me + steps * 16); S[i].want_ev = FIBER_SCHEDULER_YIELD_EVENT_STOP; S[i].expect = true; S[i].refuse = false; *stop = true; return; }
        if (what >= 8)
        {
            int k = fault();
            mc_trace("scheduler %d fiber %d: create scheduler %d, whose callback answers with %s%s", i, me, t, answers[what - 8], k >= 0 ? ", without memory" : ""); create(t, what - 8, k); mc_nontrivial(); continue;
        }
        if (what >= 5) { mc_trace("scheduler %d fiber %d: release scheduler %d", i, me, t); release(t, what - 5); mc_nontrivial(); continue; }
        const rcpr_uuid* id = NULL; int ev = -77; void* par = &ev; status r; s->refuse = what == 2; s->want_ev = what == 1 ? FIBER_SCHEDULER_YIELD_EVENT_RUN : what == 3 ? FIBER_SCHEDULER_YIELD_EVENT_ADD_FIBER : 0x1234 + steps; s->want_par = what == 1 ? NULL : (void*)(uintptr_t)(0xFACE0000u + (unsigned)steps); s->expect = true;
        mc_trace("scheduler %d fiber %d: %s scheduler %d", i, me, what == 0 ? "yield to" : what == 1 ? "run" : what == 2 ? "yield, refused, to" : "add a fiber to", t);
        if (t != i) mc_nontrivial();
        if (what == 3)
        {
            int f = s->n; int k = fault(); bool refuse = mc_choose(2, "the addition is refused"); long f0 = mc_mem_failures(), l0 = mc_mem_live(); int m0 = mapped;
            s->f[f] = (fiber*)&f0; fctx[t * NF + f] = t * NF + f; mc_mem_fail_at(k); r = fiber_create(&s->f[f], al, s->s, 32768 + (size_t)(t * NF + f) * 4096, &fctx[t * NF + f], &entry); mc_mem_fail_at(-1);
            if (mc_mem_failures() > f0) { MC_CHECK(r == ERROR_GENERAL_OUT_OF_MEMORY && s->f[f] == NULL && mc_mem_live() == l0 && mapped == m0, "fiber-oom", "fiber_create without memory: status %x", (unsigned)r); s->f[f] = NULL; s->expect = false; mc_nontrivial(); continue; }
            MC_CHECK(r == STATUS_SUCCESS && s->f[f] && fiber_state_get(s->f[f]) == FIBER_STATE_CREATED && fiber_scheduler_from_fiber_get(s->f[f]) == s->s, "fiber", "fiber_create: status %x", (unsigned)r);
            s->want_par = s->f[f]; s->refuse = refuse; if (!refuse) { ++s->n; s->st[f] = 1; }
            r = fiber_scheduler_add(s->s, s->f[f]);
            if (esc) { if (refuse) mc_fail("switch", "a refused call switched"); break; }
            if (refuse) { MC_CHECK(r == (status)0x80FF0BAD && !s->expect && s->cur == as, "refused", "a refused addition returned %x", (unsigned)r); MC_CHECK(mc_mem_is_live(s->f[f]) && fiber_state_get(s->f[f]) == FIBER_STATE_CREATED && resource_release(fiber_resource_handle(s->f[f])) == STATUS_SUCCESS, "add-owner", "a fiber whose addition was refused was released or started"); s->f[f] = NULL; s->refuse = false; mc_nontrivial(); continue; }
        }
        else if (what == 1) r = fiber_scheduler_run(s->s);
        else r = fiber_scheduler_yield(s->s, s->want_ev, s->want_par, &id, &ev, &par);
        if (esc) break;
        if (what == 2) { MC_CHECK(r == (status)0x80FF0BAD && !s->expect && s->cur == as, "refused", "a refused yield returned %x", (unsigned)r); s->refuse = false; mc_step(); }
        else
        {
            MC_CHECK(!s->expect, "callback", "the callback did not run"); resumed(t, as); MC_CHECK(r == STATUS_SUCCESS, "yield", "status %x", (unsigned)r);
            if (what == 0) MC_CHECK(id == s->id && ev == s->ev && par == s->par, "resume-values", "fiber %d of scheduler %d was resumed with event %d instead of %d", as, t, ev, s->ev);
        }
        for (int k = 0; k < 8; ++k) MC_CHECK(canary[k] == mc_hash(seed, (uint64_t)k), "stack-content", "a stack frame was changed");
        for (int q = 0; q < NS; ++q) if (S[q].there) for (int f = 1; f < S[q].n; ++f) MC_CHECK(fiber_state_get(S[q].f[f]) == (S[q].st[f] == 1 ? FIBER_STATE_CREATED : S[q].st[f] == 2 ? FIBER_STATE_RUNNING : FIBER_STATE_STOPPED), "state", "fiber %d of scheduler %d is in state %d", f, q, (int)fiber_state_get(S[q].f[f]));
    }
    if (me) { escape(i, me); const rcpr_uuid* id; int ev; void* p; status r = fiber_scheduler_yield(S[i].s, 0x7000, NULL, &id, &ev, &p); mc_fail("escape", "the main fiber could not be resumed (%x)", (unsigned)r); }
}
static status entry(void* ctx)
{
    int n = (int)((int*)ctx - fctx); if (n < 0 || n >= NS * NF || fctx[n] != n) mc_fail("context", "a fiber was started with a wrong context");
    int i = n / NF, me = n % NF; if (S[i].st[me] != 1) mc_fail("started-twice", "a fiber was started twice");
    if (esc) mc_fail("escape", "a fiber was started instead of the main one"); resumed(i, me); S[i].st[me] = 2; bool stop = false;
    MC_CHECK(fiber_state_get(S[i].f[me]) == FIBER_STATE_RUNNING, "state", "a started fiber is not running");
    frame(i, me, &stop); if (!stop) mc_fail("escape", "a fiber could not leave"); status r = S[i].stopped; S[i].expect = true; return r;
}
void mc_setup(void) {}
int mc_scenarios(void) { return 1; }
void mc_run(int scenario)
{
    (void)scenario; mc_mem_begin(); al = fa_init(); for (int i = 0; i < MAPS; ++i) maps[i].used = false;
    mapped = 0; memset(S, 0, sizeof S); steps = faults = 0; done = esc = false; stray = NULL;
    MC_CHECK(fiber_create_for_thread(&stray, NULL, al) == STATUS_SUCCESS && stray && fiber_state_get(stray) == FIBER_STATE_RUNNING, "for-thread", "fiber_create_for_thread");
    int a = mc_choose(ANSWERS, "answer of the first callback"), k = fault();
    mc_trace("create scheduler 0, whose callback answers with %s", answers[a]);
    if (create(0, a, k))
    {
        fiber_scheduler_discipline* d = NULL; MC_CHECK(fiber_scheduler_discipline_find(&d, S[0].s, &IDS[0]) == ERROR_FIBER_SCHEDULER_NOT_DISCIPLINED, "not-disciplined", "discipline_find on an undisciplined scheduler");
        bool stop = false; frame(0, 0, &stop); done = esc = true;
        if (S[1].there) { release(1, 0); }
        release(0, mc_choose(2, "the release fails"));
    }
    MC_CHECK(resource_release(fiber_resource_handle(stray)) == STATUS_SUCCESS, "release", "releasing a fiber for a thread");
    MC_CHECK(mc_mem_live() == 0 && mapped == 0, "leak", "%ld blocks and %d stacks leaked", mc_mem_live(), mapped); mc_step();
}
