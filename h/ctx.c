/*
 * Switching between fibers under a user-defined scheduler: every program of a few fibers up to mc_bound
 * operations, and for every switch every fiber that the scheduler could resume.  Registers that a call must
 * preserve, the floating point modes, the contents of the stack frames and the values that travel with
 * the switch are compared.
 */
#include "common.h"
#include <sys/mman.h>
#include <rcpr/fiber.h>
#include <rcpr/uuid.h>
RCPR_IMPORT_fiber; RCPR_IMPORT_uuid;
const char* mc_name = "ctx";
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#endif
void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
#define MAPS 8
static struct { char* p; size_t n; bool used; } maps[MAPS]; static int mapped;
void* __wrap_mmap(void* p, size_t n, int prot, int fl, int fd, off_t o)
{
    if (fd != -1 || p || n > 1024 * 1024 || (fl & MAP_SHARED)) return __real_mmap(p, n, prot, fl, fd, o);
    for (int i = 0; i < MAPS; ++i)
    {
        if (maps[i].used || (maps[i].p && maps[i].n != n)) continue;
        if (!maps[i].p) { maps[i].p = __real_mmap(p, n, prot, fl, fd, o); maps[i].n = n; }
        ASAN_UNPOISON_MEMORY_REGION(maps[i].p, n); memset(maps[i].p + n - 4096, 0x77, 4096); maps[i].used = true; ++mapped; return maps[i].p;
    }
    return __real_mmap(p, n, prot, fl, fd, o);
}
int __wrap_munmap(void* p, size_t n)
{
    for (int i = 0; i < MAPS; ++i) if (maps[i].p == p) { if (!maps[i].used || n != maps[i].n) mc_fail("unmap", "a stack was unmapped wrongly"); maps[i].used = false; --mapped; return 0; }
    return __real_munmap(p, n);
}

/* call ctx_yield_c with chosen values in every register that a call preserves; note them afterwards. */
typedef struct regs { uint64_t r[6]; uint32_t mxcsr; uint16_t cw; uint16_t pad; } regs;
void ctx_call(const regs* in, regs* out, void* arg, void (*fn)(void*));
__asm__(
    ".text\n.p2align 4\n.globl ctx_call\n.type ctx_call,@function\nctx_call:\n"
    "  push %rbx\n  push %rbp\n  push %r12\n  push %r13\n  push %r14\n  push %r15\n"
    "  sub $24, %rsp\n  stmxcsr (%rsp)\n  fnstcw 4(%rsp)\n  mov %rsi, 8(%rsp)\n"
    "  mov %rdx, %rax\n"
    "  mov 0(%rdi), %rbx\n  mov 8(%rdi), %rbp\n  mov 16(%rdi), %r12\n  mov 24(%rdi), %r13\n  mov 32(%rdi), %r14\n  mov 40(%rdi), %r15\n"
    "  ldmxcsr 48(%rdi)\n  fldcw 52(%rdi)\n"
    "  mov %rax, %rdi\n  call *%rcx\n"
    "  mov 8(%rsp), %rsi\n"
    "  mov %rbx, 0(%rsi)\n  mov %rbp, 8(%rsi)\n  mov %r12, 16(%rsi)\n  mov %r13, 24(%rsi)\n  mov %r14, 32(%rsi)\n  mov %r15, 40(%rsi)\n"
    "  stmxcsr 48(%rsi)\n  fnstcw 52(%rsi)\n"
    "  ldmxcsr (%rsp)\n  fldcw 4(%rsp)\n"
    "  add $24, %rsp\n  pop %r15\n  pop %r14\n  pop %r13\n  pop %r12\n  pop %rbp\n  pop %rbx\n  ret\n"
    ".size ctx_call,.-ctx_call\n");
/* the entry point of every fiber: note the stack pointer. */
uint64_t ctx_entry_sp; uint32_t ctx_entry_mxcsr; uint16_t ctx_entry_cw; uint64_t ctx_entry_flags;
status ctx_entry(void*); status ctx_fiber(void*);
__asm__(
    ".text\n.p2align 4\n.globl ctx_entry\n.type ctx_entry,@function\nctx_entry:\n"
    "  mov %rsp, ctx_entry_sp(%rip)\n  stmxcsr ctx_entry_mxcsr(%rip)\n  fnstcw ctx_entry_cw(%rip)\n  pushfq\n  popq ctx_entry_flags(%rip)\n  jmp ctx_fiber\n.size ctx_entry,.-ctx_entry\n");

enum { NF = 4 };
static fiber_scheduler* sched; static fiber* fib[NF]; static int st[NF] /* 0 none 1 added 2 running 3 stopped */; static int fctx[NF]; static int nfib, cur, steps, next_is; static bool done, esc;
static status stop_status[NF]; static uint32_t made_mxcsr[NF]; static uint16_t made_cw[NF];
static allocator* al; static int sctx; static long serial;
static const rcpr_uuid IDS[NF] = { { .data = { 1 } }, { .data = { 2 } }, { .data = { 3 } }, { .data = { 4 } } };
static int want_event; static void* want_param; static bool expect_call; static int cb_error;
static const rcpr_uuid* t_id; static int t_ev; static void* t_par;

static status sched_cb(void* ctx, fiber* y, int ev, void* par, fiber** rf, const rcpr_uuid** rid, int* rev, void** rpar)
{
    if (ctx != &sctx) mc_fail("callback", "the scheduler's callback was given a wrong context");
    if (ev == FIBER_SCHEDULER_YIELD_EVENT_MAIN) { fib[0] = y; *rf = y; *rev = FIBER_SCHEDULER_RESUME_EVENT_MAIN; *rpar = NULL; return STATUS_SUCCESS; }
    if (ev == FIBER_SCHEDULER_YIELD_EVENT_RESOURCE_RELEASE)
    {
        if (y != fib[0]) mc_fail("callback", "release");
        for (int i = 1; i < nfib; ++i) if (fib[i] && st[i]) { if (resource_release(fiber_resource_handle(fib[i])) != STATUS_SUCCESS) mc_fail("release", "releasing a fiber failed"); fib[i] = NULL; }
        *rf = NULL; return STATUS_SUCCESS;
    }
    if (esc) { *rf = fib[0]; *rid = &IDS[0]; *rev = 1; *rpar = NULL; return STATUS_SUCCESS; }
    if (!expect_call) mc_fail("callback", "the callback was called twice for one event");
    expect_call = false;
    if (y != fib[cur]) mc_fail("callback", "the yielding fiber is not the one that runs");
    if (ev != want_event) mc_fail("callback", "event %x instead of %x", ev, want_event);
    if (ev == FIBER_SCHEDULER_YIELD_EVENT_STOP) { if (!par || *(status*)par != stop_status[cur]) mc_fail("stop-status", "the status of a fiber that stopped was lost"); st[cur] = 3; if (fiber_state_get(y) != FIBER_STATE_STOPPED) mc_fail("state", "a fiber that returned is not stopped"); }
    else if (par != want_param) mc_fail("callback", "the yield parameter was changed");
    if (cb_error) return (status)0x80FF0BAD;
    int live[NF], n = 0; for (int i = 0; i < nfib; ++i) if (st[i] == 1 || st[i] == 2) live[n++] = i;
    next_is = live[mc_choose(n, "who runs next")]; ++serial;
    *rf = fib[next_is]; *rid = t_id = &IDS[serial % NF]; *rev = t_ev = (int)(serial * 7919 - 5); *rpar = t_par = (void*)(uintptr_t)(0xABCD000000000000ULL + (uint64_t)serial);
    return STATUS_SUCCESS;
}
typedef struct yield_arg { int op, f; status s; const rcpr_uuid* id; int ev; void* par; } yield_arg;
static void yield_c(void* p)
{
    yield_arg* y = p;
    if (y->op == 0) y->s = fiber_scheduler_yield(sched, want_event, want_param, &y->id, &y->ev, &y->par);
    else if (y->op == 1) y->s = fiber_scheduler_run(sched);
    else y->s = fiber_scheduler_add(sched, fib[y->f]);
}
static void resumed(int me, bool entry)
{
    if (esc) { if (me) mc_fail("escape", "a fiber other than the main one was resumed"); return; }
    if (me != next_is) mc_fail("switch", "fiber %d runs instead of %d", me, next_is);
    cur = me; mc_step(); (void)entry; next_is = -1;
}
static void escape(int me)
{
    done = true; if (!me) return;
    esc = true; yield_arg y = { .op = 0 }; want_event = 0x7000; yield_c(&y);
    mc_fail("escape", "the main fiber could not be resumed");
}
/* one frame of a fiber; frames nest. */
static __attribute__((noinline)) void frame(int me, int depth, bool* stop)
{
    volatile uint64_t canary[24]; uint64_t seed = mc_hash((uint64_t)me * 131 + (uint64_t)depth, (uint64_t)serial);
    for (int i = 0; i < 24; ++i) canary[i] = mc_hash(seed, (uint64_t)i);
    if (me) { bool in = false; for (int i = 0; i < MAPS; ++i) if (maps[i].used && (char*)canary >= maps[i].p && (char*)canary < maps[i].p + maps[i].n) in = true; MC_CHECK(in, "stack", "a fiber runs outside of its stack"); }
    while (!done && !*stop)
    {
        if (steps >= mc_bound) { escape(me); return; }
        ++steps; mc_state(mc_hash(mc_hash(mc_hash_bytes(0, st, sizeof st), (uint64_t)(me * 16 + depth)), (uint64_t)steps));
        int ops[8], n = 0; ops[n++] = 0; ops[n++] = 1; ops[n++] = 5; if (nfib < NF - (mc_bound2 ? mc_bound2 : 0)) ops[n++] = 2; if (me) ops[n++] = 3; if (depth < 2) ops[n++] = 4; if (depth > 0) ops[n++] = 6;
        int op = ops[mc_choose(n, "operation")];
        if (op == 4) { mc_trace("fiber %d: deeper", me); frame(me, depth + 1, stop); }
        else if (op == 6) { mc_trace("fiber %d: return", me); for (int i = 0; i < 24; ++i) MC_CHECK(canary[i] == mc_hash(seed, (uint64_t)i), "stack-content", "a stack frame of fiber %d was changed", me); return; }
        else if (op == 3) { mc_trace("fiber %d: stop", me); stop_status[me] = (status)(0x40u + (uint32_t)me + (uint32_t)steps * 0x90230010u); want_event = FIBER_SCHEDULER_YIELD_EVENT_STOP; expect_call = true; cb_error = 0; *stop = true; return; }
        else
        {
            yield_arg y = { .op = op == 5 ? 0 : op, .id = NULL, .ev = -77, .par = &y }; int f = -1;
            want_event = op == 1 ? FIBER_SCHEDULER_YIELD_EVENT_RUN : op == 2 ? FIBER_SCHEDULER_YIELD_EVENT_ADD_FIBER : 0x1234 + steps; want_param = op == 1 ? NULL : (void*)(uintptr_t)(0xFACE0000u + (unsigned)steps); cb_error = op == 5;
            regs in, out; memset(&out, 0, sizeof out); memset(&in, 0, sizeof in); for (int i = 0; i < 6; ++i) in.r[i] = mc_hash((uint64_t)(me * 64 + steps), (uint64_t)i + 1);
            in.mxcsr = 0x1F80u | (uint32_t)((me + steps) & 3) << 13 | (uint32_t)(me & 1) << 15 | (uint32_t)(steps & 1) << 6; in.cw = (uint16_t)(0x007F | ((me + steps + 1) & 3) << 10 | ((me * 2 + steps) % 3 == 0 ? 0 : (me + steps) % 2 ? 2 : 3) << 8);
            if (op == 2)
            {
                f = nfib; fib[f] = NULL; fctx[f] = f;
                __asm__ volatile("stmxcsr %0\n fnstcw %1" : "=m"(made_mxcsr[f]), "=m"(made_cw[f]));
                MC_CHECK(fiber_create(&fib[f], al, sched, 32768 + (size_t)f * 4096, &fctx[f], &ctx_entry) == STATUS_SUCCESS && fib[f], "create", "fiber_create");
                MC_CHECK(fiber_state_get(fib[f]) == FIBER_STATE_CREATED, "state", "a new fiber is not in the created state"); ++nfib; st[f] = 1; want_param = fib[f]; y.f = f;
            }
            mc_trace("fiber %d: %s", me, op == 0 ? "yield" : op == 1 ? "run" : op == 2 ? "add a fiber" : "yield, refused"); expect_call = true;
            ctx_call(&in, &out, &y, &yield_c);
            if (esc) { resumed(me, false); return; }
            MC_CHECK(!memcmp(in.r, out.r, sizeof in.r), "registers", "a register was not preserved for fiber %d: %s", me, in.r[0] != out.r[0] ? "rbx" : in.r[1] != out.r[1] ? "rbp" : in.r[2] != out.r[2] ? "r12" : in.r[3] != out.r[3] ? "r13" : in.r[4] != out.r[4] ? "r14" : "r15");
            MC_CHECK((in.mxcsr & ~0x3Fu) == (out.mxcsr & ~0x3Fu) && in.cw == out.cw, "fp-modes", "the floating point modes of fiber %d were not preserved", me);
            if (op == 5) { MC_CHECK(y.s == (status)0x80FF0BAD && cur == me, "refused", "a refused yield returned %x", (unsigned)y.s); cb_error = 0; mc_step(); }
            else
            {
                resumed(me, false);
                MC_CHECK(y.s == STATUS_SUCCESS, "yield", "status %x", (unsigned)y.s);
                if (op == 0) MC_CHECK(y.id == t_id && y.ev == t_ev && y.par == t_par, "resume-values", "fiber %d was resumed with event %d instead of %d", me, y.ev, t_ev);
            }
            for (int i = 1; i < nfib; ++i) MC_CHECK(fiber_state_get(fib[i]) == (st[i] == 1 ? FIBER_STATE_CREATED : st[i] == 2 ? FIBER_STATE_RUNNING : FIBER_STATE_STOPPED), "state", "fiber %d is in state %d", i, (int)fiber_state_get(fib[i]));
        }
        for (int i = 0; i < 24; ++i) MC_CHECK(canary[i] == mc_hash(seed, (uint64_t)i), "stack-content", "a stack frame of fiber %d was changed", me);
    }
}
status ctx_fiber(void* ctx)
{
    int me = (int)((int*)ctx - fctx);
    if (me < 1 || me >= nfib || fctx[me] != me) mc_fail("context", "a fiber was started with a wrong context");
    if (ctx_entry_sp % 16 != 8) mc_fail("alignment", "a fiber was started with a misaligned stack");
    if (ctx_entry_mxcsr != made_mxcsr[me] || ctx_entry_cw != made_cw[me]) mc_fail("fp-modes", "a fiber was started with unusual floating point modes");
    if (ctx_entry_flags & 0x400) mc_fail("direction", "a fiber was started with the direction flag set");
    if (st[me] != 1) mc_fail("started-twice", "a fiber was started twice");
    resumed(me, true); st[me] = 2; bool stop = false;
    MC_CHECK(fiber_state_get(fib[me]) == FIBER_STATE_RUNNING, "state", "a started fiber is not running");
    frame(me, 0, &stop);
    if (!stop) mc_fail("escape", "a fiber could not leave");
    return stop_status[me];
}
void mc_setup(void) {}
int mc_scenarios(void) { return 1; }
void mc_run(int scenario)
{
    (void)scenario; mc_mem_begin(); al = fa_init(); for (int i = 0; i < MAPS; ++i) maps[i].used = false; mapped = 0;
    memset(fib, 0, sizeof fib); memset(st, 0, sizeof st); nfib = 1; cur = steps = 0; done = esc = false; serial = 0; st[0] = 2; sched = NULL;
    MC_CHECK(fiber_scheduler_create(&sched, al, &sctx, &sched_cb) == STATUS_SUCCESS && sched && fib[0], "create", "fiber_scheduler_create");
    fiber_scheduler_discipline* d = NULL; MC_CHECK(fiber_scheduler_discipline_find(&d, sched, &IDS[0]) == ERROR_FIBER_SCHEDULER_NOT_DISCIPLINED, "not-disciplined", "discipline_find on an undisciplined scheduler");
    bool stop = false; frame(0, 0, &stop); mc_nontrivial();
    MC_CHECK(resource_release(fiber_scheduler_resource_handle(sched)) == STATUS_SUCCESS, "release", "release");
    MC_CHECK(mc_mem_live() == 0 && mapped == 0, "leak", "%ld blocks and %d stacks leaked", mc_mem_live(), mapped); mc_step();
}
