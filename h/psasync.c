/*
 * Asynchronous sockets: fibers that use them, on the virtual kernel, with an environment that may act
 * whenever the process waits (bound2 = 1: also at every system call).
 *
 * mode 0: one user per side of a socket.          mode 1: users that are interrupted, or share a side.
 * mode 2: mode 0 with failing calls and memory.   mode 3: mode 1 with failing calls and memory.
 * mode 4: accepted connections that come and go.
 * mc_bound: what the environment does, at most; mc_bound2: 10 * operations of each fiber + where the environment acts.
 */
#define _GNU_SOURCE
#include "common.h"
#include "vk.h"
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <rcpr/fiber.h>
#include <rcpr/psock.h>
#include <rcpr/uuid.h>
#include <sys/mman.h>
RCPR_IMPORT_psock; RCPR_IMPORT_fiber; RCPR_IMPORT_uuid;
const char* mc_name = "psasync";
int __wrap_fcntl(int, int, ...);
#define OK(x) do { status s_ = (x); MC_CHECK(s_ == STATUS_SUCCESS, "setup", "%s failed: %x", #x, (unsigned)s_); } while (0)

/* ---- stacks: used again, with room below, as the virtual kernel runs on them too. ---- */
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#endif
void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
#define MAPS 16
#define ROOM ((size_t)256 * 1024)
static struct { char* p; size_t n; bool used; } maps[MAPS]; static int mapped; static bool mmap_fail;
void* __wrap_mmap(void* p, size_t n, int prot, int fl, int fd, off_t o)
{
    if (fd != -1 || p || n > 1024 * 1024 || (fl & MAP_SHARED)) return __real_mmap(p, n, prot, fl, fd, o);
    if (mmap_fail) { mmap_fail = false; return MAP_FAILED; }
    for (int i = 0; i < MAPS; ++i)
    {
        if (maps[i].used || (maps[i].p && maps[i].n != n)) continue;
        if (!maps[i].p) { maps[i].p = (char*)__real_mmap(NULL, n + ROOM, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + ROOM; maps[i].n = n; }
        ASAN_UNPOISON_MEMORY_REGION(maps[i].p - ROOM, n + ROOM); maps[i].used = true; ++mapped; return maps[i].p;
    }
    return __real_mmap(p, n, prot, fl, fd, o);
}
int __wrap_munmap(void* p, size_t n)
{
    for (int i = 0; i < MAPS; ++i) if (maps[i].p == p) { MC_CHECK(maps[i].used && n == maps[i].n, "unmap", "a stack was unmapped twice or with another size"); maps[i].used = false; --mapped; return 0; }
    return __real_munmap(p, n);
}

/* ---- scenarios ---- */
enum { RD1, RD3, RAW, WR1, WR6, RB, WB, BRL, BRD, ACC, SD, RX, RDX, WRX, NOPS };   /* RDX, WRX: 1 byte of the second socket. */
static const char* const ON[] = { "read 1 byte", "read 3 bytes", "read what is there", "write 1 byte", "write 6 bytes", "wait to read", "wait to write", "read a line", "read 2 bytes, buffered", "accept", "send a descriptor", "receive a descriptor", "read 1 byte of the other socket", "write 1 byte to the other socket" };
#define M(x) (1u << (x))
enum { NF = 3, NK = 12, CTL = NF };
typedef struct { int nk, kind[2], nf; struct { int k; unsigned ops; } f[NF]; bool ctl; const char* name; } scen;
#define ST SOCK_STREAM
#define DG SOCK_DGRAM
#define PR 100   /* the end of a pipe that reads, */
#define PW 101   /* that writes. */
#define D1 102   /* datagrams, one at a time. */
static const scen S0[] = {
    { 1, { ST }, 1, { { 0, M(RD1) | M(RD3) | M(RAW) | M(WR1) | M(WR6) | M(RB) | M(WB) } }, false, "one fiber" },
    { 1, { ST }, 2, { { 0, M(RD1) | M(RD3) | M(RB) }, { 0, M(WR1) | M(WR6) | M(WB) } }, false, "a reader and a writer of one socket" },
    { 2, { ST, ST }, 2, { { 0, M(RD1) | M(RD3) }, { 1, M(RD1) | M(RD3) } }, false, "readers of two sockets" },
    { 2, { ST, ST }, 2, { { 0, M(RD1) | M(WR6) }, { 1, M(WR6) | M(RB) } }, false, "users of two sockets" },
    { 1, { ST }, 1, { { 0, M(BRL) | M(BRD) } }, false, "a buffered reader" },
    { 1, { DG }, 2, { { 0, M(RX) | M(RD1) }, { 0, M(SD) | M(WR1) } }, false, "a receiver and a sender of messages" },
    { 1, { D1 }, 1, { { 0, M(SD) | M(WR1) } }, false, "a sender of messages, one at a time" },
    { 1, { PR }, 1, { { 0, M(RD1) | M(RD3) | M(RAW) | M(RB) } }, false, "a reader of a pipe" },
    { 1, { PW }, 1, { { 0, M(WR1) | M(WR6) | M(WB) } }, false, "a writer of a pipe" },
};
static const scen S1[] = {
    { 1, { ST }, 1, { { 0, M(RD1) | M(RD3) | M(RB) | M(WR6) | M(WB) } }, true, "one fiber, interrupted" },
    { 1, { ST }, 2, { { 0, M(RD1) | M(RB) }, { 0, M(RD1) | M(RB) } }, false, "two readers of one socket" },
    { 1, { ST }, 2, { { 0, M(WR6) | M(WB) }, { 0, M(WR6) | M(WB) } }, false, "two writers of one socket" },
    { 1, { ST }, 2, { { 0, M(RD1) }, { 0, M(WR6) } }, true, "a reader and a writer of one socket, interrupted" },
    { 1, { ST }, 2, { { 0, M(RD1) }, { 0, M(RD1) } }, true, "two readers of one socket, interrupted" },
    { 1, { ST }, 3, { { 0, M(RD1) }, { 0, M(RD1) }, { 0, M(RD1) } }, false, "three readers of one socket" },
    { 1, { ST }, 1, { { 0, M(BRL) | M(BRD) } }, true, "a buffered reader, interrupted" },
    { 1, { DG }, 2, { { 0, M(RX) }, { 0, M(SD) } }, true, "a receiver and a sender of messages, interrupted" },
    { 1, { D1 }, 1, { { 0, M(SD) | M(WR1) } }, true, "a sender of messages, one at a time, interrupted" },
    { 1, { ST }, 3, { { 0, M(WR6) }, { 0, M(RD1) }, { 0, M(RD1) | M(RB) } }, false, "two readers and a writer of one socket" },
    { 1, { ST }, 3, { { 0, M(RD1) }, { 0, M(WR6) | M(WB) }, { 0, M(WR6) } }, false, "two writers and a reader of one socket" },
    { 2, { PR, PW }, 2, { { 0, M(RD1) }, { 1, M(WR6) } }, true, "a reader and a writer of pipes, interrupted" },
    { 2, { ST, ST }, 2, { { 0, M(RD1) }, { 0, M(RD1) | M(RDX) } }, false, "two readers of one socket, and of another" },
    { 2, { ST, ST }, 2, { { 0, M(WR6) }, { 0, M(WB) | M(RDX) } }, false, "two writers of one socket, and a reader of another" },
};
static const scen S4[] = {
    { 1, { 0 }, 1, { { 0, M(ACC) } }, false, "one fiber accepts" },
    { 1, { 0 }, 2, { { 0, M(ACC) }, { 0, M(ACC) } }, false, "two fibers accept" },
    { 1, { 0 }, 1, { { 0, M(ACC) } }, true, "one fiber accepts, interrupted" },
};
static const scen* S; static int mode, nscen;

typedef struct { int fd, env, kind; psock* p; psock_br* br; psock* brp; uint8_t in[64], exp[64]; int nin, nexp, nout, brpos; bool dropped; struct { int n, id, first; } q[16]; int nq; int sent[16], nsent; } sk;
static sk K[NK]; static int nk, clients[8], nclients, naccepted;
static allocator* al; static fiber_scheduler* sched; static fiber *fib[NF + 1]; static int hctx[NF + 1], fctx[NF]; static psock* ctl; static int ctlenv, ctlfd;
static bool inop[NF + 1], side[NF + 1], conc[NF + 1], snap[NF + 1], hasnd[NF + 1]; static sk* on[NF + 1]; static int irqs[NF + 1]; static status irqst[NF + 1]; static bool irqpend[NF + 1]; static int irqev;
static int budget, ended, serial, nops; static bool envcalls, final, faulty, quiet; static uint64_t hist; static int objs[2]; static long waits;
static bool faulted[NF + 1]; static int faultop[NF + 1];
static const char* const FN[] = { "A", "B", "C", "main" };
static void bytes(uint8_t* b, int n, int first) { for (int i = 0; i < n; ++i) b[i] = (uint8_t)(first + i); }

/* ---- the environment ---- */
static int pulled(sk* s, int n)
{
    uint8_t b[64]; int k = vk_pull(s->env, b, n); if (k <= 0) return k;
    MC_CHECK(s->nout + k <= s->nexp, "too-much", "more bytes reached the peer than were written");
    for (int i = 0; i < k; ++i) MC_CHECK(b[i] == s->exp[s->nout + i], "written-data", "byte %d at the peer is %d, it should be %d", s->nout + i, b[i], s->exp[s->nout + i]);
    s->nout += k; return k;
}
static void pull_msg(sk* s)
{
    uint8_t b[4]; int d[2], k = 0; int n = vk_pull_fds(s->env, b, 4, d, 2, &k); if (n < 0) return;
    MC_CHECK(s->nout < s->nsent, "too-much", "more messages reached the peer than were sent"); int e = s->sent[s->nout++];
    if (e < 0) MC_CHECK(k == 0 && n == 1 && b[0] == (uint8_t)-e, "message", "another message reached the peer");
    else { MC_CHECK(k == 1 && vk_file_id(d[0]) == e, "message", "another descriptor reached the peer"); }
    for (int i = 0; i < k; ++i) vk_drop(d[i]);
}
static void look(void) { for (int f = 0; f <= NF; ++f) snap[f] = inop[f] && (on[f] ? vk_ready(on[f]->fd, side[f]) : vk_ready(ctlfd, false)); }
enum { E_PUSH1, E_PUSH3, E_LINE, E_PULL1, E_PULL, E_DROP, E_DIAL, E_MSG, E_MSGFD, E_POKE, E_CPUSH, E_CDROP };
static bool act(bool must)
{
    struct { uint8_t a, k; } L[40]; int n = 0;
    #define CAN(a_, k_) L[n].a = (a_), L[n].k = (uint8_t)(k_), ++n
    for (int k = 0; k < nk; ++k)
    {
        sk* s = &K[k]; if (s->fd < 0) continue;
        unsigned ops = 0; for (int f = 0; f < S->nf; ++f) { if (k >= S->nk || S->f[f].k == k) ops |= S->f[f].ops & ~(M(RDX) | M(WRX)); if (k == 1 && (S->f[f].ops & M(RDX))) ops |= M(RD1); if (k == 1 && (S->f[f].ops & M(WRX))) ops |= M(WR1); }
        bool rd = (ops & (M(RD1) | M(RD3) | M(RAW) | M(RB) | M(ACC))) != 0, wr = (ops & (M(WR1) | M(WR6) | M(WB) | M(ACC))) != 0, br = (ops & (M(BRL) | M(BRD))) != 0;
        if (s->kind == ST && !s->dropped)
        {
            if ((rd || br) && vk_buffered(s->fd) < vk_cap) { CAN(E_PUSH1, k); if (rd && k < S->nk && (ops & (M(RD3) | M(RAW)))) CAN(E_PUSH3, k); if (br) CAN(E_LINE, k); }
            if (wr && k < S->nk && vk_buffered(s->env)) { CAN(E_PULL1, k); if (vk_buffered(s->env) > 1) CAN(E_PULL, k); }
            CAN(E_DROP, k);
        }
        else if (s->kind == DG) { if (vk_buffered(s->fd) < vk_qlen) { CAN(E_MSG, k); CAN(E_MSGFD, k); } if (vk_buffered(s->env)) CAN(E_PULL1, k); }
        else if (s->kind == 0 && nclients < 3) CAN(E_DIAL, k);
    }
    if (S->ctl && vk_buffered(ctlfd) == 0) for (int f = 0; f < S->nf; ++f) if (inop[f]) CAN(E_POKE, f);
    if (!n) return false;
    int c = mc_choose(n + !must, "environment"); if (c == n) return false;
    --budget; int a = L[c].a, k = L[c].k; sk* s = &K[k]; uint8_t b[4]; int was; hist = mc_hash(hist, (uint64_t)(100 + a * 16 + k));
    switch (a)
    {
        case E_PUSH1: case E_PUSH3: was = vk_cap - vk_buffered(s->fd); was = a == E_PUSH1 || was < 3 ? 1 : 3; bytes(b, was, 1 + s->nin); if (s->br) b[0] = 'x'; memcpy(s->in + s->nin, b, (size_t)was); s->nin += was; vk_push(s->env, b, was); mc_trace("%d bytes come to socket %d", was, k); break;
        case E_LINE: b[0] = '\n'; s->in[s->nin++] = '\n'; vk_push(s->env, b, 1); mc_trace("a newline comes to socket %d", k); break;
        case E_PULL1: if (s->kind == DG) pull_msg(s); else pulled(s, 1); mc_trace("the peer of socket %d reads", k); break;
        case E_PULL: pulled(s, 64); mc_trace("the peer of socket %d reads all", k); break;
        case E_DROP: s->dropped = true; vk_drop(s->env); mc_trace("the peer of socket %d closes", k); break;
        case E_DIAL: clients[nclients++] = vk_dial(s->fd); mc_trace("a connection comes"); break;
        case E_MSG: case E_MSGFD: b[0] = (uint8_t)serial++; was = a == E_MSGFD; vk_push_fds(s->env, b, 1, objs, was); s->q[s->nq].n = was; s->q[s->nq].id = vk_file_id(objs[0]); s->q[s->nq++].first = b[0]; mc_trace("a message with %d descriptors comes to socket %d", was, k); break;
        case E_POKE: b[0] = (uint8_t)(16 + k); vk_push(ctlenv, b, 1); mc_trace("the main fiber is told to interrupt %s", FN[k]); break;
    }
    return true;
}
static bool any_ready(void) { look(); for (int f = 0; f <= NF; ++f) if (snap[f]) return true; return false; }
static void before_wait(void)
{
    MC_CHECK(++waits < 400, "spinning", "the process waits again and again, and nobody goes on");
    int users = 0; for (int f = 0; f <= NF; ++f) users += inop[f];
    MC_CHECK(vk_polled <= users, "stale-wait", "%d descriptors are polled for %d fibers that wait: one of them belongs to a wait that was interrupted", vk_polled, users);
    mc_mem_fail_at(-1); while (budget > 0 && act(!any_ready())) ;
    look();
}
static void before_call(int op) { if (quiet || op == VK_EPOLL_WAIT || op == VK_POLL || op == VK_CLOSE || op == VK_EPOLL_CREATE || op == VK_GETSOCKOPT || op == VK_GETFL || op == VK_SETFL) return; while (budget > 0 && act(false)) ; }
static bool starving(int fd, bool wr)
{
    (void)wr; MC_CHECK(fd < 0, "blocking", "a fiber's system call blocks the whole process"); look();
    for (int f = 0; f <= NF; ++f) MC_CHECK(!snap[f], "forgotten", "%s waits to %s a socket that is ready, and is not resumed", FN[f], side[f] ? "write to" : "read from");
    if (budget > 0 && act(true)) { look(); return true; }
    final = true;
    for (int f = 0; f < NF; ++f) if (inop[f])
    {
        sk* s = on[f]; mc_trace("the environment completes what %s waits for", FN[f]);
        if (s->kind == ST) { MC_CHECK(!s->dropped, "forgotten", "%s waits for a socket whose peer is gone", FN[f]); s->dropped = true; vk_drop(s->env); }
        else if (s->kind == DG) { if (side[f]) while (vk_buffered(s->env)) pull_msg(s); else { uint8_t b[4] = { (uint8_t)serial++ }; vk_push_fds(s->env, b, 1, objs, 1); s->q[s->nq].n = 1; s->q[s->nq].id = vk_file_id(objs[0]); s->q[s->nq++].first = b[0]; } }
        else clients[nclients++] = vk_dial(s->fd);
        look(); return true;
    }
    mc_fail("stuck", "every fiber ended, and the main fiber was not resumed"); return false;
}

/* ---- interruptions ---- */
static status unexpected(void* ctx, fiber* f, const rcpr_uuid* rid, int rev, void* rpar, const rcpr_uuid* eid, int eev)
{
    (void)rpar; int me = (int)((int*)ctx - hctx); MC_CHECK(f == fib[me], "handler-fiber", "the handler of %s was called for another fiber", FN[me]);
    MC_CHECK(irqpend[me], "handler", "the handler of %s was called, and nobody interrupted it", FN[me]); irqpend[me] = false; ++irqs[me];
    MC_CHECK(!memcmp(rid, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, sizeof *rid) && rev == irqev, "handler-event", "the handler was told of another event");
    MC_CHECK(!memcmp(eid, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE, sizeof *eid) && eev == (side[me] ? FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE : FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_READ), "handler-expected", "the handler was told of another expected event");
    int k = mc_choose(2, "the handler asks for another try"); irqst[me] = k ? STATUS_SUCCESS : (status)(0x80FF0000 + me); mc_trace("the handler of %s gives %x", FN[me], (unsigned)irqst[me]); return irqst[me];
}

/* ---- fibers ---- */
static void do_op(int f, int op, sk* s);
static void check_status(int f, sk* s, status r, const char* what, bool fault, bool may_end, bool nofd)
{
    if (irqpend[f]) { MC_CHECK(!hasnd[f] && r == ERROR_FIBER_NO_UNEXPECTED_HANDLER, "unhandled", "%s was interrupted without a handler, and \"%s\" gives %x", FN[f], what, (unsigned)r); irqpend[f] = false; return; }
    if (irqst[f]) { MC_CHECK(r == irqst[f], "interrupted", "%s was interrupted with %x, and \"%s\" gives %x", FN[f], (unsigned)irqst[f], what, (unsigned)r); return; }
    if (!r || fault) return;
    MC_CHECK(r != ERROR_PSOCK_READ_WOULD_BLOCK && r != ERROR_PSOCK_WRITE_WOULD_BLOCK && r != ERROR_PSOCK_ACCEPT_WOULD_BLOCK, "would-block", "\"%s\" of an asynchronous socket would block", what);
    if (conc[f] && r == ERROR_PSOCK_DOUBLE_BLOCK_UNSUPPORTED) return;
    if (on[f]->kind == DG && r == ERROR_PSOCK_READ_GENERAL && nofd) return;
    MC_CHECK(may_end && s->dropped, "failed", "\"%s\" gives %x without a reason", what, (unsigned)r);
}
static void do_op(int f, int op, sk* s)
{
    bool shared = false; for (int i = 0; i < S->nf; ++i) for (int j = 0; j < i; ++j) shared |= S->f[i].k == S->f[j].k && (S->f[i].ops & S->f[j].ops & M(WR6)); bool wr = op == WR1 || op == WR6 || op == WB || op == SD; faulted[f] = false; long mf0 = mc_mem_failures(); long live = mc_mem_live();
    conc[f] = false; for (int g = 0; g < NF; ++g) if (g != f && inop[g] && on[g] == s && side[g] == wr) conc[f] = conc[g] = true;
    int at = s->nin - vk_buffered(s->fd); bool was_dropped = s->dropped; on[f] = s; side[f] = wr; irqs[f] = 0; irqst[f] = STATUS_SUCCESS; irqpend[f] = false;
    quiet = false; mc_trace("%s: %s", FN[f], ON[op]); status r = 0; uint8_t* p = NULL; uint8_t b[16]; size_t n = 0; int d = -7, mark = s->nexp, msgs = s->nq - vk_buffered(s->fd);
    if (faulty && vk_faults && mc_mem_failures() == 0) { int k = mc_choose(3, "which allocation fails"); mc_mem_fail_at(k < 2 ? k : -1); }
    inop[f] = true;
    switch (op)
    {
        case RD1: case RD3: n = op == RD1 ? 1 : 3; r = psock_read_raw_data(s->p, al, (void**)&p, n); break;
        case RAW: n = 3; r = psock_read_raw(s->p, b, &n); break;
        case WR1: case WR6:
            n = op == WR1 ? 1 : 6;
            if (s->kind == DG) { b[0] = (uint8_t)(1 + s->nsent); s->sent[s->nsent++] = -(int)b[0]; } else { if (shared) memset(b, 0x77, 8); else bytes(b, (int)n, 1 + s->nexp); memcpy(s->exp + s->nexp, b, n); s->nexp += (int)n; }
            r = psock_write_raw_data(s->p, b, n); break;
        case RB: r = psock_read_block(s->p); break;
        case WB: r = psock_write_block(s->p); break;
        case BRL: n = 8; r = psock_br_read_line(b, &n, s->br); break;
        case BRD: n = 2; r = psock_read_raw_data(s->brp, al, (void**)&p, n); break;
        case SD: s->sent[s->nsent++] = vk_file_id(objs[1]); r = psock_write_raw_descriptor(s->p, objs[1]); break;
        case RX: r = psock_read_raw_descriptor(s->p, &d); break;
        case ACC: { struct sockaddr_in a; socklen_t an = sizeof a; memset(&a, 0x77, sizeof a); r = psock_accept(s->p, &d, (struct sockaddr*)&a, &an); if (!r) MC_CHECK(an == sizeof a && a.sin_family == AF_INET && ntohs(a.sin_port) >= 4000 && ntohs(a.sin_port) < 4000 + nclients, "peer-address", "the address is not the peer's"); break; }
    }
    inop[f] = false; mc_mem_fail_at(-1); bool fault = faulted[f] || mc_mem_failures() > mf0; mc_step(); waits = 0; if (irqs[f] || snap[f]) mc_nontrivial();
    mc_trace("%s: %s gives %x", FN[f], ON[op], (unsigned)r); fiber* cur = NULL; OK(disciplined_fiber_scheduler_current_fiber_get(&cur, sched)); MC_CHECK(cur == fib[f], "current", "%s is resumed while another fiber is current", FN[f]);
    if (faulted[f] && !irqst[f] && op != BRL && op != BRD && !(op == RAW && n) && r == STATUS_SUCCESS) MC_CHECK(false, "fault-ignored", "%s failed, and \"%s\" succeeded", vk_op_name[faultop[f]], ON[op]);
    if (op != RAW) check_status(f, s, r, ON[op], fault, op != ACC && s->kind == ST, op == RX && msgs < s->nq && !s->q[msgs].n);
    int now = s->nin - vk_buffered(s->fd);
    switch (op)
    {
        case RD1: case RD3:
            if (s->kind == DG)
            {
                if (r) { MC_CHECK(mc_mem_live() <= live || conc[f] || S->nf > 1, "leak", "%ld blocks are left", mc_mem_live() - live); break; }
                MC_CHECK(msgs < s->nq && p[0] == (uint8_t)s->q[msgs].first, "data", "another message was read"); OK(allocator_reclaim(al, p)); break;
            }
            if (!r)
            {
                MC_CHECK(now <= s->nin && now - at >= (int)n, "data", "more was read than came");
                if (!conc[f]) { MC_CHECK(now - at == (int)n, "lost", "%d bytes were taken from the socket for a read of %zu", now - at, n); MC_CHECK(!memcmp(p, s->in + at, n), "data", "the bytes read differ from those sent"); }
                OK(allocator_reclaim(al, p));
            }
            else if (!conc[f] && !fault && !irqst[f] && s->dropped && hasnd[f] | !S->ctl) MC_CHECK(s->nin - at < (int)n, "early-end", "a read of %zu bytes failed with %d bytes there", n, s->nin - at);
            break;
        case RAW:
            if (fault) break;
            if (r == STATUS_SUCCESS && n) { MC_CHECK(n <= 3 && now - at == (int)n && !memcmp(b, s->in + at, n), "raw-data", "%zu bytes were read, %d were taken", n, now - at); }
            else { MC_CHECK(now == at, "raw-lost", "%d bytes were lost", now - at); if (envcalls && s->nin > at) break; MC_CHECK(s->nin == at, "raw", "nothing was read, and %d bytes are there", s->nin - at); if (!s->dropped) MC_CHECK(r == ERROR_PSOCK_READ_WOULD_BLOCK && n == 0, "raw", "nothing is there, and a read gives %x and %zu bytes", (unsigned)r, n); else if (!envcalls) MC_CHECK(r != ERROR_PSOCK_READ_WOULD_BLOCK, "raw", "the peer is gone, and a read would block"); }
            break;
        case WR1: case WR6:
        {
            if (s->kind == DG) { int total = s->nout + vk_buffered(s->env); if (r) { if (total < s->nsent && S->f[f].k >= 0) { --s->nsent; MC_CHECK(total == s->nsent, "failed-write", "a failed write has sent something"); } else MC_CHECK(total < s->nsent, "failed-write", "a failed write has sent something"); } else MC_CHECK(total == s->nsent, "written", "a message is missing"); break; }
            if (!r) MC_CHECK(!was_dropped, "write-to-nobody", "a write to a closed socket succeeded");
            if (s->dropped || shared) break;
            int total = s->nout + vk_buffered(s->env);
            if (!r) MC_CHECK(total == mark + (int)n, "written", "a write of %zu bytes gave %d bytes", n, total - mark);
            else { MC_CHECK(total >= mark && total <= mark + (int)n, "written", "a failed write of %zu bytes gave %d bytes", n, total - mark); s->nexp = total; }
            break;
        }
        case RB: case WB: if (!r && !conc[f]) MC_CHECK(snap[f] || vk_ready(s->fd, wr), "not-ready", "a wait to %s ended, and the socket is not ready", wr ? "write" : "read"); break;
        case BRL: case BRD:
        {
            int left = s->nin - s->brpos, len = 0; while (len < left && s->in[s->brpos + len] != '\n') ++len;
            bool nl = len < left;
            if (op == BRD) { if (!r) { MC_CHECK(left >= 2 && !memcmp(p, s->in + s->brpos, 2), "data", "the bytes read differ from those sent"); s->brpos += 2; OK(allocator_reclaim(al, p)); } else { MC_CHECK(fault || irqst[f] || !hasnd[f] || left < 2, "early-end", "a read of 2 bytes failed with %d there", left); s->brpos = -1000; } }
            else if (!r) { MC_CHECK(nl || s->dropped || fault, "line", "a line was read before its end came"); if (!nl && !s->dropped) { s->brpos += (int)n - 1; break; } MC_CHECK(len <= 7 && n == (size_t)len + 1 && !memcmp(b, s->in + s->brpos, (size_t)len) && b[len] == 0, "line", "the line read differs: size %zu", n); s->brpos += len + nl; }
            else if (r == ERROR_PSOCK_BR_READ_LINE_TRUNCATED) { MC_CHECK(len >= 7 && !memcmp(b, s->in + s->brpos, 7), "line", "the line read differs"); s->brpos += 7; }
            else MC_CHECK(fault || irqst[f] || !hasnd[f] || (left == 0 && s->dropped), "early-end", "a line could not be read: %x", (unsigned)r);
            break;
        }
        case SD: { int total = s->nout + vk_buffered(s->env); if (r) { --s->nsent; MC_CHECK(total == s->nsent, "failed-send", "a failed send has sent something"); } else MC_CHECK(total == s->nsent, "sent", "a message is missing"); break; }
        case RX:
            if (!r) { MC_CHECK(msgs < s->nq && s->q[msgs].n == 1 && vk_is_open(d) && vk_file_id(d) == s->q[msgs].id, "descriptor", "another descriptor was received"); vk_drop(d); }
            else MC_CHECK(d == -1 || d == -7, "descriptor", "a descriptor was given on failure");
            break;
        case ACC:
            if (!r)
            {
                MC_CHECK(naccepted < nclients && vk_is_open(d), "accepted", "a connection was accepted that nobody made"); sk* c = &K[nk]; int num = naccepted++; if (nk == NK) abort();
                ++nk; memset(c, 0, sizeof *c); c->kind = ST; c->fd = d; c->env = clients[num]; clients[num] = -1; quiet = true;
                OK(psock_create_from_descriptor(&c->p, al, d)); status w = psock_create_wrap_async(&c->p, al, fib[f], c->p); MC_CHECK(w == STATUS_SUCCESS || mode >= 2, "wrap", "an accepted connection could not be wrapped: %x", (unsigned)w);
                mc_nontrivial(); do_op(f, RD1, c); do_op(f, WR1, c); if (!c->dropped) { MC_CHECK(vk_buffered(c->env) == c->nexp - c->nout, "order", "what is written does not reach the peer"); vk_drop(c->env); } quiet = true; OK(resource_release(psock_resource_handle(c->p))); c->fd = -1; c->p = NULL;
            }
            break;
    }
    if (fault && (op == BRL || op == BRD)) s->brpos = -1000;
    quiet = true;
}
static void on_fault(int op) { fiber* c = NULL; if (disciplined_fiber_scheduler_current_fiber_get(&c, sched)) return; for (int f = 0; f <= NF; ++f) if (fib[f] == c && c) { faulted[f] = true; faultop[f] = op; } }
static status fiber_main(void* ctx)
{
    int me = (int)((int*)ctx - fctx); sk* s = &K[S->f[me].k];
    for (int i = 0; i < nops; ++i)
    {
        int can[NOPS + 1], n = 0; for (int o = 0; o < NOPS; ++o) if (S->f[me].ops & M(o)) can[n++] = o;
        int c = mc_choose(n + (i > 0), "operation"); hist = mc_hash(hist, (uint64_t)(c * 4 + me)); if (c == n) break;
        if (s->brpos < 0) break;
        if (can[c] == RDX || can[c] == WRX) do_op(me, can[c] == RDX ? RD1 : WR1, &K[1]); else do_op(me, can[c], s);
        if (mode == 4 && final) break;
    }
    uint8_t b = (uint8_t)me; mc_trace("%s ends", FN[me]); vk_push(ctlenv, &b, 1); return STATUS_SUCCESS;
}
static void interrupt(int f)
{
    if (!inop[f] || snap[f]) { mc_trace("%s does not wait any more", FN[f]); return; }
    mc_mem_fail_at(-1); bool term = mc_choose(2, "termination request"); irqev = term ? FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST : FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST; irqpend[f] = true; mc_trace("%s is interrupted", FN[f]);
    OK(term ? disciplined_fiber_scheduler_send_terminate_request_to_fiber(sched, fib[f]) : disciplined_fiber_scheduler_send_quiesce_request_to_fiber(sched, fib[f]));
    MC_CHECK(!irqpend[f] || !hasnd[f] || inop[f], "handler", "%s was interrupted, and its handler was not called", FN[f]);
}
void mc_setup(void) { mode = mc_mode; int m = mode & 1; if (mode == 4) { S = S4; nscen = sizeof S4 / sizeof *S4; } else if (m) { S = S1; nscen = sizeof S1 / sizeof *S1; } else { S = S0; nscen = sizeof S0 / sizeof *S0; } }
int mc_scenarios(void) { return nscen; }
void mc_run(int sc)
{
    tr_reset(); mc_mem_begin(); vk_reset(); al = fa_init(); hist = (uint64_t)sc; for (int i = 0; i < MAPS; ++i) maps[i].used = false; mapped = 0; mmap_fail = false; quiet = true;
    S = (mode == 4 ? S4 : mode & 1 ? S1 : S0) + sc; memset(K, 0, sizeof K); nk = S->nk; nclients = naccepted = ended = 0; serial = 1; final = false; waits = 0; memset(inop, 0, sizeof inop); memset(on, 0, sizeof on); memset(irqpend, 0, sizeof irqpend); memset(hasnd, 1, sizeof hasnd); memset(snap, 0, sizeof snap); memset(side, 0, sizeof side);
    budget = mc_bound; nops = mc_bound2 / 10 ? mc_bound2 / 10 : 2; envcalls = mc_bound2 % 10 == 1; vk_reorder = S->nf > 1; faulty = mode == 2 || mode == 3;
    OK(fiber_scheduler_create_with_disciplines(&sched, al)); OK(disciplined_fiber_scheduler_main_fiber_get(&fib[CTL], sched));
    vk_pair(ST, objs); int o2[2]; vk_pair(ST, o2); int c[2]; vk_pair(ST, c); ctlfd = c[0]; ctlenv = c[1]; OK(psock_create_from_descriptor(&ctl, al, ctlfd)); bool tried = false, retried = false;
    if (faulty && mc_choose(2, "the first wrapping fails"))
    {
        int k = mc_choose(14, "which of its needs fails"); psock* was = ctl; if (k < 12) mc_mem_fail_at(k); else if (k == 12) mmap_fail = true; else { vk_faults = 1; vk_fault_mask = 1u << VK_EPOLL_CREATE | 1u << VK_GETFL | 1u << VK_SETFL; }
        status r = psock_create_wrap_async(&ctl, al, fib[CTL], ctl); mc_trace("the first wrapping gives %x", (unsigned)r); mc_mem_fail_at(-1); mmap_fail = false; vk_faults = 0; retried = true;
        tried = r == STATUS_SUCCESS; if (!tried) { MC_CHECK(ctl == was && vk_is_open(ctlfd), "wrap", "a failed wrapping changed the socket"); mc_nontrivial(); }
    }
    if (!tried) { status r = psock_create_wrap_async(&ctl, al, fib[CTL], ctl); MC_CHECK(r == STATUS_SUCCESS, "wrap", "wrapping failed the second time: %x", (unsigned)r); }
    for (int f = 0; f < S->nf; ++f) OK(fiber_create(&fib[f], al, sched, 65536, &fctx[f], &fiber_main));
    bool mine = S->ctl && mc_choose(2, "who made the socket"); if (S->ctl) hasnd[0] = !mc_choose(2, "no handler");
    for (int f = 0; f < S->nf; ++f) if (hasnd[f]) OK(fiber_unexpected_event_callback_add(fib[f], &unexpected, &hctx[f]));
    OK(fiber_unexpected_event_callback_add(fib[CTL], &unexpected, &hctx[CTL]));
    for (int k = 0; k < nk; ++k)
    {
        sk* s = &K[k]; s->kind = S->kind[k]; int fd[2]; if (s->kind == PR) vk_pipe(fd), s->kind = ST; else if (s->kind == PW) { vk_pipe(fd); int t = fd[0]; fd[0] = fd[1]; fd[1] = t; s->kind = ST; } else if (s->kind == D1) vk_pair(DG, fd), vk_qlen = 1, s->kind = DG; else if (s->kind) vk_pair(s->kind, fd); else { fd[0] = vk_listener(); fd[1] = -1; }
        s->fd = fd[0]; s->env = fd[1]; OK(psock_create_from_descriptor(&s->p, al, s->fd)); OK(psock_create_wrap_async(&s->p, al, mine ? fib[0] : fib[CTL], s->p));
        if (S->f[0].ops & (M(BRL) | M(BRD))) { OK(psock_br_create_from_psock(&s->br, al, s->p)); s->brp = psock_br_psock_adapter(s->br); }
    }
    vk_starve = starving; vk_on_fault = on_fault; vk_before_wait = before_wait; if (envcalls) vk_before_call = before_call;
    vk_faults = faulty && !vk_nfailed && !mc_mem_failures() && !retried ? 1 : 0; vk_fault_mask = 1u << VK_READ | 1u << VK_WRITE | 1u << VK_SENDMSG | 1u << VK_RECVMSG | 1u << VK_ACCEPT | 1u << VK_EPOLL_CTL | 1u << VK_EPOLL_WAIT | 1u << VK_POLL;
    for (int f = 0; f < S->nf; ++f) OK(fiber_scheduler_add(sched, fib[f]));
    while (ended < S->nf)
    {
        uint8_t v = 0; inop[CTL] = true; on[CTL] = NULL; side[CTL] = false; faulted[CTL] = false; long mf0 = mc_mem_failures(); status r = psock_read_raw_uint8(ctl, &v); inop[CTL] = false;
        if (r && (faulted[CTL] || mc_mem_failures() > mf0)) continue;
        MC_CHECK(r == STATUS_SUCCESS, "main", "the main fiber could not read: %x", (unsigned)r);
        if (v < NF) ++ended; else interrupt(v - 16);
    }
    vk_faults = 0; vk_starve = NULL; vk_before_wait = NULL; vk_before_call = NULL;
    for (int k = 0; k < nk; ++k) { sk* s = &K[k]; if (s->kind == ST && !s->dropped && s->fd >= 0) { while (pulled(s, 64) > 0) ; MC_CHECK(s->nout == s->nexp || S->nf > 1, "written", "%d bytes of %d reached the peer", s->nout, s->nexp); } else if (s->kind == DG) { while (vk_buffered(s->env)) pull_msg(s); MC_CHECK(s->nout == s->nsent, "messages", "%d messages of %d reached the peer", s->nout, s->nsent); } }
    for (int k = 0; k < S->nk; ++k) { sk* s = &K[k]; if (s->br) OK(resource_release(psock_br_resource_handle(s->br))); OK(resource_release(psock_resource_handle(s->p))); if (s->env >= 0 && !s->dropped) vk_drop(s->env); }
    for (int i = 0; i < nclients; ++i) if (clients[i] >= 0) vk_drop(clients[i]);
    OK(resource_release(psock_resource_handle(ctl))); vk_drop(ctlenv); OK(resource_release(fiber_scheduler_resource_handle(sched)));
    for (int i = 0; i < 2; ++i) { vk_drop(objs[i]); vk_drop(o2[i]); }
    MC_CHECK(vk_open_count() == 0 && vk_files() == 0, "descriptor-leak", "%d descriptors are left open", vk_open_count()); MC_CHECK(!vk_badclose && !vk_badfd, "bad-descriptor", "a descriptor that is not open was used or closed");
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks are left", mc_mem_live()); MC_CHECK(mapped == 0, "stack-leak", "%d stacks are left", mapped); mc_state(hist);
}
