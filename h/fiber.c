/*
 * The disciplined fiber scheduler, its management discipline, messages and conditionals: every program
 * that a few fibers can run, up to a total number of operations (mc_bound), against a reference model.
 *
 * After each operation the model is a set of candidate states: an operation that runs out of memory may
 * have been refused altogether or have been carried out in part, and requests to all fibers may be
 * delivered in any order.  What the fibers observe narrows the set; when it is empty, that is a violation.
 *
 * mode 0: run order, adding, stopping, blocking and waking, idle.  mode 1: management events and requests.
 * mode 2: disciplines.  mode 3: messages.  mode 4: conditionals.  mode 5: messages and conditionals, interrupted.
 * mode 8: everything.  mode 9: waits that are interrupted: one mailbox or one conditional, and wake-ups by another discipline.
 * mode 10 + n: mode n, where one operation runs out of memory.  mode 20 + n, 30 + n: likewise, an execution ends when the
 * state of the model and the last three operations are those of an earlier one.  mode 6: requests to a fiber that is ready to run.
 * mode 40: as mode 1, and any fiber becomes the idle fiber.  mode 41: as mode 0, likewise.
 * mode 7: creation of everything, where memory runs out.
 */
#include "common.h"
#include <limits.h>
#include <sys/mman.h>
#include <rcpr/condition.h>
#include <rcpr/fiber.h>
#include <rcpr/fiber/disciplines/management.h>
#include <rcpr/message.h>
#include <rcpr/uuid.h>
RCPR_IMPORT_fiber; RCPR_IMPORT_uuid; RCPR_IMPORT_message; RCPR_IMPORT_condition;
extern const rcpr_uuid FIBER_SCHEDULER_INTERNAL_DISCIPLINE;
const char* mc_name = "fiber";

/* ---- stacks ---- */
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#endif
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
#define MAPS 16
static struct { void* p; size_t n; bool used; } maps[MAPS];
static int mapped; static bool mmap_fail;
void* __wrap_mmap(void* p, size_t n, int prot, int fl, int fd, off_t o)
{
    if (fd != -1 || p || n > 1024 * 1024 || (fl & MAP_SHARED)) return __real_mmap(p, n, prot, fl, fd, o);
    if (mmap_fail) { mmap_fail = false; return MAP_FAILED; }
    for (int i = 0; i < MAPS; ++i)
    {
        if (maps[i].used || (maps[i].p && maps[i].n != n)) continue;
        if (!maps[i].p) { maps[i].p = __real_mmap(p, n, prot, fl, fd, o); maps[i].n = n; if (maps[i].p == MAP_FAILED) { maps[i].p = NULL; return MAP_FAILED; } }
        ASAN_UNPOISON_MEMORY_REGION(maps[i].p, n); memset((char*)maps[i].p + n - 1024, 0, 1024);
        maps[i].used = true; ++mapped; return maps[i].p;
    }
    return __real_mmap(p, n, prot, fl, fd, o);
}
int __wrap_munmap(void* p, size_t n)
{
    for (int i = 0; i < MAPS; ++i) if (maps[i].p == p)
    {
        if (!maps[i].used) mc_fail("double-unmap", "a stack was unmapped twice");
        if (n != maps[i].n) mc_fail("unmap-size", "a stack of %zu bytes was unmapped as %zu bytes", maps[i].n, n);
        maps[i].used = false; --mapped; return 0;
    }
    return __real_munmap(p, n);
}
static void maps_reset(void) { for (int i = 0; i < MAPS; ++i) maps[i].used = false; mapped = 0; mmap_fail = false; }
#define STACK ((size_t)96 * 1024)
static const size_t stack_size[5] = { STACK, STACK, 100 * 1024, 84 * 1024, 132 * 1024 };

/* the fibers lie far from each other, and their addresses agree in the low 32 bits. */
#define SLOT ((size_t)8192)
static void* slot_of(int i)
{
    static const int order[5] = { 3, 1, 0, 4, 2 }; static void* at[5];
    if (!at[i]) { at[i] = __real_mmap((void*)(0x300000000000ull + ((unsigned long long)order[i] << 32)), SLOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (at[i] == MAP_FAILED) abort(); }
    return at[i];
}

/* ---- the model ---- */
enum { NF = 5, IDLE = 4, NM = 12, NB = 2, ND = 3 };
enum st { S_NONE, S_CREATED, S_RUNNING, S_STOPPED, S_GONE };
enum kind { K_RUN = 1, K_ADD, K_IDLE, K_CUSTOM, K_MGADD, K_MGSTOP, K_QUIESCE, K_TERM, K_RESULT, K_RECV, K_RECVFAIL, K_RES, K_WAITOK, K_WAITFAIL };
enum op { O_NONE, O_ENTRY, O_RUN, O_ADD, O_STOP, O_BLOCK, O_WAKEEND, O_WAKENEXT, O_WAKEDIRECT, O_MGRECV, O_Q1, O_T1, O_QALL, O_TALL, O_REAP,
          O_DADD, O_DYIELD, O_DFIND, O_RAW, O_MBCREATE, O_MBCLOSE, O_SEND, O_RECV, O_CCREATE, O_CCLOSE, O_CWAIT, O_NOT1, O_NOTALL, O_SETH, O_UNEXP, O_SETIDLE };
static const char* const op_name[] = { "?", "start", "run", "add", "stop", "block", "wake", "wake first", "queue", "receive event", "quiesce", "terminate", "quiesce all", "terminate all", "reap",
    "add discipline", "yield to discipline", "find discipline", "raw yield", "create mailbox", "close mailbox", "send", "receive", "create conditional", "close conditional", "wait", "notify one", "notify all", "set handler", "unexpected event", "set the idle fiber" };
/* statuses in the model. */
enum { R_OK, R_OOM, R_EXHAUSTED, R_STATE, R_ERR, R_BLOCKED, R_BADEV, R_DUP, R_OWNED, R_CB, R_NOH, R_H0, R_H1 };
typedef struct ent { signed char f; unsigned char kind; short v; } ent;
typedef struct model
{
    ent q[24]; int qn;
    signed char cur, mgmt, pend; unsigned char imm;
    unsigned char st[NF], in[NF]; signed char arg[NF]; bool tree[NF];
    signed char idle; /* 0: none. */ unsigned char nadd;
    struct { bool open; signed char blocked; unsigned char qn; signed char q[NM]; } mb[NB]; unsigned char nmb;
    struct { bool open; unsigned char wn; signed char w[NF]; } cv[NB]; unsigned char ncv;
    bool disc[ND]; signed char hnd[NF]; bool flt;
} model;
#define NC 160
static model C[NC]; static int nC;

/* ---- the real thing ---- */
static fiber_scheduler* sched; static fiber* fib[NF]; static bool owned[NF];
static fiber_scheduler_discipline *hdisc, *msgdisc, *condisc, *disc[ND];
static mailbox_address mbaddr[NB]; static conditional cvaddr[NB];
static struct { message* m; tr* payload; mailbox_address ret; } msgs[NM]; static int nmsgs;
static allocator* al; static int steps, faults; static bool done, esc, fault_mode, prune; static int hist[3];
static int fctx[NF], dctx[ND]; static int hctxs[3];
#define hctx hctxs[0]
 static unsigned alpha; static int maxadd;
/* the identifiers differ from others, and the events from those of others, as little as they can. */
static rcpr_uuid HID = { .data = { 1, 2, 3 } };
static int EV(int v) { return v == 2 ? 0 : v == 0 ? FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_SUCCESS : v == 1 ? FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS : v == 3 ? FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE : 1000 + v; }
static const rcpr_uuid DID[ND] = { { .data = { 0xFF, 1 } }, { .data = { 0xFF, 1, [15] = 0x80 } }, { .data = { 0x7F, 1 } } };
static const int dcount[ND] = { 1, 3, 2 };
enum { A_IDLE = 1, A_BLOCK = 2, A_MGMT = 4, A_DISC = 8, A_MSG = 16, A_COND = 32, A_INTR = 64, A_REAP = 128, A_DIRECT = 256, A_FEW = 512, A_SETIDLE = 1024 };
static char who[NF][8] = { "main", "A", "B", "C", "idle" };

static bool queued(const model* m, int f) { for (int i = 0; i < m->qn; ++i) if (m->q[i].f == f) return true; return false; }
static void qappend(model* m, int f, int kind, int v) { if (m->qn >= 24) abort(); m->q[m->qn++] = (ent){ (signed char)f, (unsigned char)kind, (short)v }; }
static void qfront(model* m, int f, int kind, int v)
{ if (m->qn >= 24) abort(); memmove(m->q + 1, m->q, sizeof(ent) * (size_t)m->qn); ++m->qn; m->q[0] = (ent){ (signed char)f, (unsigned char)kind, (short)v }; }
static void uncond(model* m, int c, int f)
{ for (int i = 0; i < m->cv[c].wn; ++i) if (m->cv[c].w[i] == f) { memmove(m->cv[c].w + i, m->cv[c].w + i + 1, (size_t)(m->cv[c].wn - i - 1)); --m->cv[c].wn; return; } }
/* a fiber stops waiting for whatever it waited for. */
static void unwait(model* m, int f)
{
    if (m->in[f] == O_MGRECV && m->mgmt == f) m->mgmt = -1;
    if (m->in[f] == O_RECV && m->arg[f] < NB && m->mb[(int)m->arg[f]].blocked == f) m->mb[(int)m->arg[f]].blocked = -1;
    if (m->in[f] == O_CWAIT && m->arg[f] < NB) uncond(m, m->arg[f], f);
}
static model* cand(const model* m) { if (nC >= NC) { fprintf(stderr, "candidates\n"); abort(); } C[nC] = *m; return &C[nC++]; }
static void imm(model* m, int r) { m->pend = 0; m->imm = (unsigned char)r; }
/* the fiber gives up control. */
static void gives(model* m)
{
    if (m->qn == 0 && !m->idle) { unwait(m, m->cur); imm(m, R_EXHAUSTED); return; }
    m->pend = 1;
}
static void subset_candidates(const model* base, const int* t, int n, int kind, int me, bool with_requester);

/* what operation op of fiber me does to a state; adds the possible outcomes to C. */
static void effect(const model* m0, int me, int op, int a, bool faulted)
{
    model* m = cand(m0); m->in[me] = (unsigned char)op; m->arg[me] = (signed char)a;
    if (faulted) { model* u = cand(m0); u->in[me] = (unsigned char)op; u->arg[me] = (signed char)a; imm(u, R_OOM); m = &C[nC - 2]; }
    switch (op)
    {
        case O_RUN: if (faulted) { *m = C[--nC]; break; } if (me != m->idle || !me) qappend(m, me, K_RUN, 0); gives(m); break;
        case O_ADD: if (faulted) { *m = C[--nC]; break; }
            qfront(m, me, K_ADD, 0); if (m->mgmt >= 0) { qfront(m, m->mgmt, K_MGADD, a); m->mgmt = -1; }
            qappend(m, a, K_ADD, 0); m->tree[a] = true; m->st[a] = S_CREATED; m->in[a] = O_ENTRY; ++m->nadd; gives(m); break;
        case O_STOP: m->st[me] = S_STOPPED; if (m->mgmt >= 0) { qfront(m, m->mgmt, K_MGSTOP, me); m->mgmt = -1; } gives(m); break;
        case O_BLOCK: if (faulted) { *m = C[--nC]; break; } gives(m); break;
        case O_WAKEEND: if (faulted) { qappend(m, a, K_CUSTOM, a); imm(m, R_OOM); break; } qappend(m, a, K_CUSTOM, a); qfront(m, me, K_CUSTOM, 20 + me); gives(m); break;
        case O_WAKENEXT: if (faulted) { qfront(m, a, K_CUSTOM, a); imm(m, R_OOM); break; } qfront(m, a, K_CUSTOM, a); qappend(m, me, K_CUSTOM, 20 + me); gives(m); break;
        case O_WAKEDIRECT: if (faulted) { *m = C[--nC]; break; } qappend(m, a, K_CUSTOM, a); imm(m, R_OK); break;
        case O_MGRECV: if (faulted) { *m = C[--nC]; break; } m->mgmt = (signed char)me; gives(m); break;
        case O_Q1: case O_T1: if (faulted) { *m = C[--nC]; break; }
            if (m->st[a] != S_RUNNING) qfront(m, me, K_RESULT, R_STATE);
            else { qfront(m, me, K_RESULT, R_OK); qfront(m, a, op == O_Q1 ? K_QUIESCE : K_TERM, 0); }
            gives(m); break;
        case O_QALL: case O_TALL:
        {
            int t[NF], n = 0;
            for (int i = 1; i < NF; ++i) if (m->tree[i] && i != me && i != m->mgmt && m->st[i] == S_RUNNING) t[n++] = i;
            model base = *m; *m = C[--nC];      /* replaced by the permutations. */
            if (!faulted) subset_candidates(&base, t, n, op == O_QALL ? K_QUIESCE : K_TERM, me, true);
            else for (int s = 1; s < 1 << n; ++s)
            {
                int u[NF], k = 0; for (int i = 0; i < n; ++i) if (s >> i & 1) u[k++] = t[i];
                subset_candidates(&base, u, k, op == O_QALL ? K_QUIESCE : K_TERM, me, false);
            }
            break;
        }
        case O_REAP: imm(m, m->tree[a] ? R_OK : R_ERR); if (m->tree[a]) { m->tree[a] = false; m->st[a] = S_GONE; } if (faulted) *m = C[--nC]; break;
        case O_DADD: if (faulted) { *m = C[--nC]; break; } imm(m, m->disc[a] ? R_OWNED : R_OK); m->disc[a] = true; break;
        case O_DFIND: imm(m, m->disc[a] ? R_OK : R_ERR); if (faulted) *m = C[--nC]; break;
        case O_DYIELD:
        {
            if (faulted) { *m = C[--nC]; break; }
            int d = a / 8, e = a % 8;
            if (d == 2 && e == 1) imm(m, R_CB);
            else if (e >= dcount[d]) imm(m, R_BADEV);
            else { qfront(m, me, K_CUSTOM, 100 + a); gives(m); }
            break;
        }
        case O_RAW: imm(m, R_BADEV); if (faulted) *m = C[--nC]; break;
        case O_MBCREATE: if (faulted) { *m = C[--nC]; break; } m->mb[m->nmb].open = true; m->mb[m->nmb].blocked = -1; m->mb[m->nmb].qn = 0; ++m->nmb; qfront(m, me, K_RES, R_OK); gives(m); break;
        case O_MBCLOSE:
            if (a >= NB || !m->mb[a].open) { if (faulted) { *m = C[--nC]; break; } qfront(m, me, K_RES, R_ERR); gives(m); break; }
            if (m->mb[a].blocked >= 0) { qappend(m, m->mb[a].blocked, K_RECVFAIL, R_ERR); m->mb[a].blocked = -1; }
            m->mb[a].open = false; m->mb[a].qn = 0;
            if (faulted) imm(m, R_OOM); else { qfront(m, me, K_RES, R_OK); gives(m); }
            break;
        case O_SEND:
        {
            int id = a / 4, b = a % 4; if (faulted) { *m = C[--nC]; break; }
            if (b >= NB || !m->mb[b].open) { qfront(m, me, K_RES, R_ERR); gives(m); break; }
            qfront(m, me, K_RES, R_OK);
            if (m->mb[b].blocked >= 0) { qfront(m, m->mb[b].blocked, K_RECV, id); m->mb[b].blocked = -1; }
            else m->mb[b].q[m->mb[b].qn++] = (signed char)id;
            gives(m); break;
        }
        case O_RECV:
            if (faulted) { *m = C[--nC]; break; }
            if (a >= NB || !m->mb[a].open) { qfront(m, me, K_RECVFAIL, R_ERR); gives(m); break; }
            if (m->mb[a].qn) { int id = m->mb[a].q[0]; memmove(m->mb[a].q, m->mb[a].q + 1, (size_t)--m->mb[a].qn); qfront(m, me, K_RECV, id); }
            else if (m->mb[a].blocked >= 0) qfront(m, me, K_RECVFAIL, R_BLOCKED);
            else m->mb[a].blocked = (signed char)me;
            gives(m); break;
        case O_CCREATE: if (faulted) { *m = C[--nC]; break; } m->cv[m->ncv].open = true; m->cv[m->ncv].wn = 0; ++m->ncv; qfront(m, me, K_RES, R_OK); gives(m); break;
        case O_CCLOSE:
            if (a >= NB || !m->cv[a].open) { if (faulted) { *m = C[--nC]; break; } qfront(m, me, K_RES, R_ERR); gives(m); break; }
            if (faulted)
            {
                model base = *m; *m = C[--nC];
                for (int k = 1; k <= base.cv[a].wn; ++k)
                { model* x = cand(&base); for (int i = 0; i < k; ++i) { qappend(x, x->cv[a].w[0], K_WAITFAIL, 0); uncond(x, a, x->cv[a].w[0]); } imm(x, R_OOM); }
                model* x = cand(&base); while (x->cv[a].wn) { qappend(x, x->cv[a].w[0], K_WAITFAIL, 0); uncond(x, a, x->cv[a].w[0]); } x->cv[a].open = false; imm(x, R_OOM);
                break;
            }
            while (m->cv[a].wn) { qappend(m, m->cv[a].w[0], K_WAITFAIL, 0); uncond(m, a, m->cv[a].w[0]); }
            m->cv[a].open = false; qfront(m, me, K_RES, R_OK); gives(m); break;
        case O_CWAIT:
            if (faulted) { *m = C[--nC]; break; }
            if (a >= NB || !m->cv[a].open) { qfront(m, me, K_WAITFAIL, 0); gives(m); break; }
            m->cv[a].w[m->cv[a].wn++] = (signed char)me; gives(m); break;
        case O_NOT1: case O_NOTALL:
        {
            if (a >= NB || !m->cv[a].open) { if (faulted) { *m = C[--nC]; break; } qappend(m, me, K_RES, R_ERR); gives(m); break; }
            int n = m->cv[a].wn; if (op == O_NOT1 && n > 1) n = 1;
            if (!faulted) { for (int i = 0; i < n; ++i) { qappend(m, m->cv[a].w[0], K_WAITOK, 0); uncond(m, a, m->cv[a].w[0]); } qappend(m, me, K_RES, R_OK); gives(m); break; }
            model base = *m; *m = C[--nC];
            for (int k = 0; k <= n; ++k) for (int late = 0; late < 2; ++late)
            {
                if (!k && !late) continue;
                model* x = cand(&base); for (int i = 0; i < k; ++i) { qappend(x, x->cv[a].w[0], K_WAITOK, 0); uncond(x, a, x->cv[a].w[0]); }
                if (late) { qappend(x, me, K_RES, R_OOM); gives(x); } else imm(x, R_OOM);
            }
            break;
        }
        case O_SETIDLE: m->idle = (signed char)a; imm(m, R_OK); if (faulted) *m = C[--nC]; break;
        case O_SETH: m->hnd[a % 8] = (signed char)(1 + a / 8); imm(m, R_OK); if (faulted) *m = C[--nC]; break;
        case O_UNEXP: imm(m, m->hnd[a] == 0 ? R_NOH : m->hnd[a] == 1 ? R_H0 : m->hnd[a] == 2 ? R_H1 : R_OK); if (faulted) *m = C[--nC]; break;
        default: abort();
    }
}
static void subset_candidates(const model* base, const int* t, int n, int kind, int me, bool with)
{
    int p[NF]; for (int i = 0; i < n; ++i) p[i] = i;
    for (;;)
    {
        model* x = cand(base);
        for (int i = 0; i < n; ++i) qappend(x, t[p[i]], kind, 0);
        if (with) { qappend(x, me, K_RESULT, R_OK); gives(x); } else imm(x, R_OOM);
        int i = n - 2; while (i >= 0 && p[i] > p[i + 1]) --i;
        if (i < 0) return;
        int j = n - 1; while (p[j] < p[i]) --j;
        int s = p[i]; p[i] = p[j]; p[j] = s;
        for (int l = i + 1, r = n - 1; l < r; ++l, --r) { s = p[l]; p[l] = p[r]; p[r] = s; }
    }
}

/* ---- what a fiber observes ---- */
typedef struct obs { status s; bool tuple; const rcpr_uuid* id; int ev; void* par; int msg; } obs;
static bool stat_is(int r, status s)
{
    switch (r)
    {
        case R_OK: return s == STATUS_SUCCESS;
        case R_OOM: return s == ERROR_GENERAL_OUT_OF_MEMORY;
        case R_EXHAUSTED: return s == ERROR_FIBER_SCHEDULER_EXHAUSTED;
        case R_STATE: return s == ERROR_FIBER_INVALID_STATE;
        case R_BLOCKED: return s == ERROR_MESSAGE_ALREADY_BLOCKED;
        case R_BADEV: return s == ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT;
        case R_DUP: return s == ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID;
        case R_OWNED: return s == ERROR_FIBER_SCHEDULER_DISCIPLINE_ALREADY_OWNED || s == ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID;
        case R_CB: return s == (status)0x80FF00CB;
        case R_NOH: return s == ERROR_FIBER_NO_UNEXPECTED_HANDLER;
        case R_H0: return s == (status)0x80FF0000;
        case R_H1: return s == (status)0x80FF0001;
        default: return s != STATUS_SUCCESS;
    }
}
static bool same_id(const rcpr_uuid* a, const rcpr_uuid* b) { return a && !memcmp(a, b, sizeof *a); }
static int custom_par[256];
static long fails0;
static bool armed, missed;       /* an allocation is to fail in this operation; it did not. */

/* is this what fiber me, inside operation op, should see when it is resumed with entry e? */
static bool matches(const ent* e, int op, const obs* o)
{
    if (op == O_ENTRY) return e->kind == K_ADD || e->kind == K_IDLE || e->kind == K_QUIESCE || e->kind == K_TERM || e->kind == K_CUSTOM;
    if (o->tuple)
    {
        if (o->s != STATUS_SUCCESS) return false;
        switch (e->kind)
        {
            case K_RUN: return same_id(o->id, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE) && o->ev == FIBER_SCHEDULER_RESUME_EVENT_RUN && !o->par;
            case K_IDLE: return same_id(o->id, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE) && o->ev == FIBER_SCHEDULER_RESUME_EVENT_IDLE && !o->par;
            case K_CUSTOM: return same_id(o->id, e->v >= 100 ? &DID[(e->v - 100) / 8] : &HID) && o->ev == EV(e->v) && o->par == &custom_par[e->v];
            case K_MGADD: return same_id(o->id, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE) && o->ev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_ADD && o->par == fib[e->v];
            case K_MGSTOP: return same_id(o->id, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE) && o->ev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP && o->par == fib[e->v];
            case K_QUIESCE: return same_id(o->id, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE) && o->ev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST;
            case K_TERM: return same_id(o->id, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE) && o->ev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST;
            default: return false;
        }
    }
    switch (op)
    {
        case O_RUN: case O_ADD: return o->s == STATUS_SUCCESS;
        case O_Q1: case O_T1: case O_QALL: case O_TALL: case O_MBCREATE: case O_MBCLOSE: case O_SEND: case O_CCREATE: case O_CCLOSE: case O_NOT1: case O_NOTALL:
            /* a fiber that waits for its turn can be interrupted by a request. */
            return e->kind == K_RESULT || e->kind == K_RES ? stat_is(e->v, o->s) : o->s != STATUS_SUCCESS;
        case O_RECV: return e->kind == K_RECV ? o->s == STATUS_SUCCESS && o->msg == e->v : e->kind == K_RECVFAIL ? stat_is(e->v, o->s) : o->s != STATUS_SUCCESS;
        case O_CWAIT: return e->kind == K_WAITOK ? o->s == STATUS_SUCCESS : o->s != STATUS_SUCCESS;
        default: return false;
    }
}
static void show(const model* m, char* b, size_t n)
{
    int k = m->pend ? snprintf(b, n, "the next of the queue [") : snprintf(b, n, "%s to go on with result %d; queue [", who[(int)m->cur], m->imm);
    for (int i = 0; i < m->qn && k < (int)n; ++i) k += snprintf(b + k, n - (size_t)k, "%s%s/%d:%d", i ? " " : "", who[(int)m->q[i].f], m->q[i].kind, m->q[i].v);
    if (k < (int)n) snprintf(b + k, n - (size_t)k, "]");
}
static int last_me;
static const char* cur_key = "order";
/* fiber me continues inside operation op and sees o: keep the states that explain it. */
static void settle(int me, int op, const obs* o)
{
    mc_mem_fail_at(-1); mmap_fail = false;
    bool was = armed, hit = armed && mc_mem_failures() > fails0; armed = false;
    if (esc) { if (me == 0) return; mc_fail("escape", "%s was resumed instead of the main fiber", who[me]); }
    int k = 0; char want[200] = ""; for (int i = 0; i < nC; ++i) if (!was || C[i].flt == hit) { show(&C[i], want, sizeof want); break; }
    for (int i = 0; i < nC; ++i)
    {
        model m = C[i]; if (was && m.flt != hit) continue;
        m.flt = false;
        if (!m.pend) { if (op == O_ENTRY || m.cur != me || !stat_is(m.imm, o->s)) continue; m.in[me] = O_NONE; }
        else
        {
            ent e;
            if (m.qn) { e = m.q[0]; memmove(m.q, m.q + 1, sizeof(ent) * (size_t)--m.qn); } else e = (ent){ m.idle, K_IDLE, 0 };
            if (e.f != me || m.in[me] != op || !matches(&e, op, o)) continue;
            unwait(&m, me); m.cur = (signed char)me; m.pend = 0; m.in[me] = O_NONE;
            if (op == O_ENTRY) m.st[me] = S_RUNNING;
        }
        bool dup = false; for (int j = 0; j < k && !dup; ++j) dup = !memcmp(&C[j], &m, sizeof m);
        if (!dup) C[k++] = m;
    }
    if (!k) mc_fail(cur_key, "%s continues in \"%s\" with status %x%s%s; expected %s", who[me], op_name[op], (unsigned)o->s, o->tuple ? ", event " : "", o->tuple ? (char[8]){ (char)('0' + o->ev / 1000 % 10), (char)('0' + o->ev / 100 % 10), (char)('0' + o->ev / 10 % 10), (char)('0' + o->ev % 10), 0 } : "", want);
    nC = k; mc_step(); if (op == O_ENTRY || op == O_DYIELD) mc_nontrivial(); else if (me != last_me) mc_nontrivial();
    last_me = me;
    if (hit) { ++faults; mc_nontrivial(); } else if (was) missed = true;
    fiber *c = NULL, *mn = NULL;
    if (disciplined_fiber_scheduler_current_fiber_get(&c, sched) != STATUS_SUCCESS || c == NULL || (me != 0 && c != fib[me])) mc_fail("current", "the current fiber is wrong in %s", who[me]);
    if (disciplined_fiber_scheduler_main_fiber_get(&mn, sched) != STATUS_SUCCESS || (me == 0) != (mn == c)) mc_fail("current", "the main fiber is wrong in %s", who[me]);
    fib[0] = mn;
    for (int i = 1; i < NF; ++i)
    {
        if (!fib[i] || C[0].st[i] == S_NONE || C[0].st[i] == S_GONE) continue;
        uint64_t want_st = C[0].st[i] == S_CREATED ? FIBER_STATE_CREATED : C[0].st[i] == S_RUNNING ? FIBER_STATE_RUNNING : FIBER_STATE_STOPPED;
        if (fiber_state_get(fib[i]) != want_st) mc_fail("state", "%s is in state %d, expected %d", who[i], (int)fiber_state_get(fib[i]), (int)want_st);
    }
}

/* ---- the harness' own discipline ---- */
typedef struct cmd { int what, a; } cmd;
static bool in_handler_ok(void* ctx, fiber* y, void* p) { fiber* c = NULL; return ctx == &hctx && p && disciplined_fiber_scheduler_current_fiber_get(&c, sched) == STATUS_SUCCESS && c == y; }
static status h_cmd(void* ctx, fiber* y, int ev, void* p)
{
    (void)ev; cmd* c = p; status s; int me = -1;
    if (!in_handler_ok(ctx, y, p)) mc_fail("handler", "the discipline's callback was given a wrong context, fiber or parameter");
    for (int i = 0; i < NF; ++i) if (fib[i] == y) me = i;
    switch (c->what)
    {
        case O_BLOCK: return STATUS_SUCCESS;
        case O_WAKEEND:
            s = disciplined_fiber_scheduler_add_fiber_to_run_queue(sched, fib[c->a], &HID, EV(c->a), &custom_par[c->a]); if (s != STATUS_SUCCESS) return s;
            return disciplined_fiber_scheduler_set_next_fiber_to_run(sched, y, &HID, EV(20 + me), &custom_par[20 + me]);
        case O_WAKENEXT:
            s = disciplined_fiber_scheduler_set_next_fiber_to_run(sched, fib[c->a], &HID, EV(c->a), &custom_par[c->a]); if (s != STATUS_SUCCESS) return s;
            return disciplined_fiber_scheduler_add_fiber_to_run_queue(sched, y, &HID, EV(20 + me), &custom_par[20 + me]);
        default: return disciplined_fiber_scheduler_set_next_fiber_to_run(sched, fib[0], &HID, 1, NULL);
    }
}
/* disciplines of mode 2: callback e of discipline d. */
static int cb_calls; static void* cb_param; static fiber* cb_fib; static int cb_want;
static int cb_code[ND][3], cb_top;
static status d_cb(int d, int e, void* ctx, fiber* y, int ev, void* p)
{
    ++cb_calls;
    if (!cb_code[d][e]) cb_code[d][e] = ev;
    if (cb_code[d][e] != ev) mc_fail("handler", "callback %d of discipline %d was given another code than before", e, d);
    for (int i = 0; i < ND; ++i) for (int k = 0; k < 3; ++k) if ((i != d || k != e) && cb_code[i][k] == ev) mc_fail("handler", "callback %d of discipline %d was given the code of another one", e, d);
    if (ctx != &dctx[d]) mc_fail("handler", "callback %d of discipline %d was given the context of another one", e, d);
    if (cb_want != d * 8 + e) mc_fail("handler", "callback %d of discipline %d ran instead of callback %d of discipline %d", e, d, cb_want % 8, cb_want / 8);
    if (y != cb_fib || p != cb_param) mc_fail("handler", "callback %d of discipline %d was given a wrong fiber or parameter", e, d);
    return disciplined_fiber_scheduler_set_next_fiber_to_run(sched, y, &DID[d], EV(100 + d * 8 + e), &custom_par[100 + d * 8 + e]);
}
#define D_CB(d, e) static status d_cb_##d##_##e(void* c, fiber* y, int ev, void* p) { return d_cb(d, e, c, y, ev, p); }
D_CB(0, 0) D_CB(1, 0) D_CB(1, 1) D_CB(1, 2) D_CB(2, 0)
static status d_cb_2_1(void* c, fiber* y, int ev, void* p) { (void)ev; ++cb_calls; if (c != &dctx[2] || y != cb_fib || p != cb_param) mc_fail("handler", "a callback was given wrong arguments"); return (status)0x80FF00CB; }
/* handlers of unexpected events: two with an answer of their own, and one that asks for another try. */
static int un_calls, un_fib, un_h; static const int un_rev[NF] = { -3, 0, 0x12345, 0x7FFFFFFF, 1 }, un_eev[NF] = { 0x12345, 7, 0, -0x7FFFFFFF - 1, 1 };
#define HCTX(h) ((h) == 0 ? NULL : (void*)(&hctx + (h)))
static status unexpected(int h, void* ctx, fiber* f, const rcpr_uuid* rid, int rev, void* rpar, const rcpr_uuid* eid, int eev)
{
    ++un_calls;
    if (h != un_h || ctx != HCTX(h) || f != fib[un_fib] || rid != &DID[1] || rev != un_rev[un_fib] || rpar != (un_fib & 1 ? NULL : &un_calls) || eid != &HID || eev != un_eev[un_fib]) mc_fail("unexpected", "the handler of unexpected events was given wrong arguments, or those of another fiber");
    return h == 0 ? (status)0x80FF0000 : h == 1 ? (status)0x80FF0001 : STATUS_SUCCESS;
}
#define UN(h) static status un_##h(void* c, fiber* f, const rcpr_uuid* a, int b, void* p, const rcpr_uuid* e, int v) { return unexpected(h, c, f, a, b, p, e, v); }
UN(0) UN(1) UN(2)
/* notes the highest code in use; the discipline's other callback carries out commands. */
static status h_probe(void* c, fiber* y, int ev, void* p) { if (c != &hctx || y != fib[0] || p != &cb_top) mc_fail("handler", "a callback was given wrong arguments"); cb_top = ev; return (status)0x80FF00CC; }
static const short no_prelude[1], *prelude = no_prelude;
static fiber_scheduler_discipline_callback_fn d_vec[ND][3] = { { d_cb_0_0 }, { d_cb_1_0, d_cb_1_1, d_cb_1_2 }, { d_cb_2_0, d_cb_2_1 } };

/* ---- programs ---- */
static status fiber_main(void* ctx);
static void body(int me);
static void begin(int me, int op, int a, bool fault)
{
    int n = nC; static model old[NC]; memcpy(old, C, sizeof(model) * (size_t)n); nC = 0;
    for (int i = 0; i < n; ++i) effect(&old[i], me, op, a, fault);
}
static obs O(status s) { return (obs){ .s = s }; }
static void arm(int k) { armed = k >= 0; fails0 = mc_mem_failures(); mc_mem_fail_at(k); }

static bool legal(int me, int op, int a)
{
    for (int i = 0; i < nC; ++i)
    {
        const model* m = &C[i];
        switch (op)
        {
            case O_ADD: if (m->nadd >= maxadd) return false; break;
            case O_STOP: if (me == 0 || me == IDLE || me == m->idle || (m->qn == 0 && !m->idle && m->mgmt < 0)) return false; break;
            case O_BLOCK: if (me == IDLE) return false; break;
            case O_SETIDLE: if (a && (a == m->idle || m->st[a] == S_STOPPED || m->st[a] == S_GONE || m->st[a] == S_NONE || (a != IDLE && !m->tree[a]) || queued(m, a) || (a != me && m->in[a] != O_BLOCK && !(a == IDLE && (m->in[a] == O_RUN || m->in[a] == O_ENTRY))))) return false; if (!a && !m->idle) return false; break;
            case O_WAKEEND: case O_WAKENEXT: case O_WAKEDIRECT:
                if (a == me || a == IDLE || m->st[a] != S_RUNNING || queued(m, a)) return false;
                if (!(m->in[a] == O_BLOCK || ((alpha & A_INTR) && (m->in[a] == O_RECV || m->in[a] == O_CWAIT)))) return false;
                break;
            case O_MGRECV: if (m->mgmt >= 0 || me == IDLE || me == m->idle) return false; break;
            case O_Q1: case O_T1:
                if (a == me || a == IDLE || m->st[a] == S_NONE || m->st[a] == S_GONE) return false;
                if (m->st[a] == S_RUNNING && queued(m, a)) return false;
                break;
            case O_QALL: case O_TALL:
                for (int f = 1; f < NF; ++f) if (m->tree[f] && f != me && f != m->mgmt && m->st[f] == S_RUNNING && queued(m, f)) return false;
                if (me == IDLE) return false;
                break;
            case O_SETH: case O_UNEXP: if (m->st[a % 8] == S_NONE || m->st[a % 8] == S_GONE) return false; break;
            case O_REAP: if (a == me || (m->tree[a] ? m->st[a] != S_STOPPED : m->st[a] != S_GONE)) return false; break;
            case O_DYIELD: if (!m->disc[a / 8]) return false; break;
            case O_MBCREATE: if (m->nmb >= NB) return false; break;
            case O_MBCLOSE: if (a < NB && a >= m->nmb) return false; if (a < NB && m->mb[a].blocked >= 0 && queued(m, m->mb[a].blocked)) return false; break;
            case O_SEND: a &= 3; if (a < NB && a >= m->nmb) return false; if (nmsgs >= NM) return false; if (a < NB && m->mb[a].blocked >= 0 && queued(m, m->mb[a].blocked)) return false; break;
            case O_RECV: if (me == IDLE || (a < NB && a >= m->nmb)) return false; break;
            case O_CCREATE: if (m->ncv >= NB) return false; break;
            case O_CWAIT: if (me == IDLE || (a < NB && a >= m->ncv)) return false; break;
            case O_CCLOSE: case O_NOT1: case O_NOTALL:
                if (a < NB && a >= m->ncv) return false;
                if (a < NB && m->cv[a].open) for (int w = 0; w < m->cv[a].wn; ++w) if (queued(m, m->cv[a].w[w])) return false;
                break;
            default: break;
        }
    }
    return true;
}
static int menu(int me, short* ops)
{
    int n = 0, nb = alpha & A_FEW ? 0 : NB;
#define ADDOP(o, a) do { if (legal(me, (o), (a))) ops[n++] = (short)((o) * 64 + (a)); } while (0)
    ADDOP(O_RUN, 0);
    if (nb) ADDOP(O_ADD, 1 + C[0].nadd);
    ADDOP(O_STOP, 0);
    if (alpha & A_BLOCK) { if (!(alpha & A_FEW)) ADDOP(O_BLOCK, 0); for (int x = 0; x < IDLE; ++x) { ADDOP(O_WAKEEND, x); ADDOP(O_WAKENEXT, x); if (alpha & A_DIRECT) ADDOP(O_WAKEDIRECT, x); } }
    if (alpha & A_MGMT) { ADDOP(O_MGRECV, 0); for (int x = 0; x < IDLE; ++x) { ADDOP(O_Q1, x); ADDOP(O_T1, x); } ADDOP(O_QALL, 0); ADDOP(O_TALL, 0); }
    if (alpha & A_REAP) for (int x = 1; x < IDLE; ++x) ADDOP(O_REAP, x);
    if (alpha & A_SETIDLE) for (int x = 0; x < NF; ++x) ADDOP(O_SETIDLE, x);
    if (alpha & A_DISC)
    {
        for (int d = 0; d < ND; ++d) { ADDOP(O_DADD, d); ADDOP(O_DFIND, d); for (int e = 0; e <= dcount[d] + 1; ++e) ADDOP(O_DYIELD, d * 8 + e); ADDOP(O_DYIELD, d * 8 + 6); }
        for (int x = 0; x < 4; ++x) ADDOP(O_RAW, x);
        if (!(alpha & A_MSG)) for (int x = 0; x < NF; ++x) { for (int h = 0; h < 3; ++h) ADDOP(O_SETH, h * 8 + x); ADDOP(O_UNEXP, x); }
    }
    if (alpha & A_MSG) { if (nb) ADDOP(O_MBCREATE, 0); for (int b = 0; b <= nb; ++b) { if (b == NB && nmsgs) break; ADDOP(O_MBCLOSE, b); ADDOP(O_SEND, b); ADDOP(O_RECV, b); } }
    if (alpha & A_COND) { if (nb) ADDOP(O_CCREATE, 0); for (int b = 0; b <= nb; ++b) { if (b == NB && C[0].ncv) break; ADDOP(O_CCLOSE, b); ADDOP(O_CWAIT, b); ADDOP(O_NOT1, b); ADDOP(O_NOTALL, b); } }
    return n;
}
static void new_message(void)
{
    int i = nmsgs++; msgs[i].payload = tr_new(i); msgs[i].ret = (mailbox_address)(i == 1 ? 0 : i == 2 ? UINT64_MAX : 1000 + i);
    if (message_create(&msgs[i].m, al, msgs[i].ret, &msgs[i].payload->hdr) != STATUS_SUCCESS) mc_fail("message-create", "message_create");
}
static void check_message(int i, message* m, bool release)
{
    MC_CHECK(message_return_address(m) == msgs[i].ret && message_payload(m, false) == &msgs[i].payload->hdr, "message-content", "message %d was changed", i);
    MC_CHECK(!tr_released[msgs[i].payload->id], "message-released", "message %d was released while it was in use", i);
    /* the payload of some is taken out before. */
    if (release && (i & 1))
    {
        resource* p = message_payload(m, true);
        MC_CHECK(p == &msgs[i].payload->hdr && message_return_address(m) == msgs[i].ret && message_payload(m, false) == NULL && message_payload(m, true) == NULL, "message-content", "message %d was changed when its payload was taken out", i);
        MC_CHECK(resource_release(message_resource_handle(m)) == STATUS_SUCCESS && !tr_released[msgs[i].payload->id], "message-release", "the payload of message %d was released although it was taken out", i);
        MC_CHECK(resource_release(p) == STATUS_SUCCESS, "message-release", "release"); msgs[i].m = NULL; return;
    }
    if (release)
    {
        MC_CHECK(resource_release(message_resource_handle(m)) == STATUS_SUCCESS, "message-release", "releasing message %d failed", i);
        MC_CHECK(tr_released[msgs[i].payload->id] == 1, "message-release", "releasing message %d did not release its payload", i);
        msgs[i].m = NULL;
    }
}
static void escape(int me)
{
    done = true; mc_mem_fail_at(-1); mmap_fail = false;
    if (me == 0) return;
    esc = true; cmd c = { O_NONE, 0 }; const rcpr_uuid* id; int ev; void* p;
    status s = fiber_discipline_yield(hdisc, 0, &c, &id, &ev, &p);
    mc_fail("escape", "%s could not return to the main fiber (%x)", who[me], (unsigned)s);
}
static uint64_t model_hash(void)
{
    uint64_t h = 1; const model* m = &C[0];
    h = mc_hash_bytes(h, m->q, sizeof(ent) * (size_t)m->qn); h = mc_hash(h, (uint64_t)((m->cur * 8 + m->mgmt + 1) * 8 + m->idle)); h = mc_hash_bytes(h, m->st, sizeof m->st); h = mc_hash_bytes(h, m->in, sizeof m->in);
    h = mc_hash_bytes(h, m->arg, sizeof m->arg); h = mc_hash_bytes(h, m->mb, sizeof m->mb); h = mc_hash_bytes(h, m->cv, sizeof m->cv); h = mc_hash_bytes(h, m->disc, sizeof m->disc); h = mc_hash_bytes(h, m->hnd, sizeof m->hnd);
    h = mc_hash(h, (uint64_t)nC); for (int i = 1; i < nC; ++i) h = mc_hash_bytes(h, &C[i], sizeof(model));
    return h;
}
/* run fiber me until it stops (returns) or the exploration of this execution ends. */
static void body(int me)
{
    while (!done)
    {
        /* when the failure that was chosen did not happen, this execution repeats another one. */
        if (steps >= mc_bound || missed) { escape(me); return; }
        short ops[96]; int c, k = -1; bool mm = false, pre = me == 0 && *prelude != 0;
        if (pre) c = *prelude++; else { ++steps; mc_state(model_hash()); if (prune && steps > 1 && mc_visited(mc_hash(mc_hash(model_hash(), ((uint64_t)(steps * 8 + faults * 4) * 16 + (uint64_t)nmsgs) * 8 + (uint64_t)me), mc_hash_bytes(0, hist, sizeof hist)))) { escape(me); return; }
            int n = menu(me, ops); c = ops[mc_choose(n, "operation")]; }
        int op = c / 64, a = c % 64; hist[2] = hist[1]; hist[1] = hist[0]; hist[0] = c * 8 + me;
        if (!pre && fault_mode && !faults && op != O_STOP)
        {
            k = mc_choose(op == O_ADD ? 9 : 8, "allocation that fails (0: none)") - 1;
            if (k == 7) { mm = true; k = -1; }
        }
        mc_trace("%s: %s %d%s", who[me], op_name[op], a, k >= 0 ? " (out of memory)" : "");
        obs o = { 0 }; cmd cm = { op, a }; const rcpr_uuid* id = NULL; int ev = -1; void* par = (void*)&o; message* got = NULL; int msg = -1; fiber_scheduler_discipline* fd = NULL;
        if (op == O_SEND) { msg = nmsgs; new_message(); a = msg * 4 + a; }
        if (op == O_ADD)
        {
            fiber* f = (fiber*)&o; arm(k); mmap_fail = mm;
            mc_mem_arena(slot_of(a), SLOT);
            status s = fiber_create(&f, al, sched, stack_size[a], &fctx[a], &fiber_main);
            mc_mem_arena(NULL, 0);
            if (s != STATUS_SUCCESS)
            {
                bool inj = mc_mem_failures() > fails0 || (mm && !mmap_fail); mc_mem_fail_at(-1); mmap_fail = false;
                MC_CHECK(inj && f == NULL, "create", "fiber_create failed with %x, pointer %p", (unsigned)s, (void*)f); armed = false; ++faults; mc_nontrivial(); mc_step(); continue;
            }
            MC_CHECK(f && mc_mem_is_live(f) && fiber_state_get(f) == FIBER_STATE_CREATED, "create", "fiber_create");
            fib[a] = f; if (mm) { owned[a] = false; missed = true; continue; }
        }
        else if (k >= 0) arm(k); else armed = false;
        /* the outcomes of an operation that runs out of memory are computed when it has. */
        static model save[NC]; int nsave = nC; memcpy(save, C, sizeof(model) * (size_t)nC);
        bool may = op == O_ADD ? armed : k >= 0;
        if (may)
        {
            /* without and with the failure; which one is decided by whether it happened. */
            begin(me, op, a, true); int nf = nC; static model flt[NC]; for (int i = 0; i < nf; ++i) C[i].flt = true; memcpy(flt, C, sizeof(model) * (size_t)nf);
            memcpy(C, save, sizeof(model) * (size_t)nsave); nC = nsave; begin(me, op, a, false);
            if (nC + nf > NC) abort();
            /* keep both; a branch whose failure did not happen ends below. */
            memcpy(C + nC, flt, sizeof(model) * (size_t)nf); nC += nf;
        }
        else begin(me, op, a, false);
        cb_calls = 0;
        switch (op)
        {
            case O_SETIDLE: o = O(disciplined_fiber_scheduler_set_idle_fiber(sched, a ? fib[a] : NULL)); break;
            case O_RUN: if (me && me == save[0].idle) o = O(disciplined_fiber_scheduler_idle_fiber_yield(sched)); else if (me == 0) o = O(fiber_scheduler_run(sched));
                else { o.s = fiber_scheduler_yield(sched, FIBER_SCHEDULER_YIELD_EVENT_RUN, NULL, &id, &ev, &par); o.tuple = o.s == STATUS_SUCCESS; } break;
            case O_ADD: owned[a] = true; o = O(fiber_scheduler_add(sched, fib[a])); break;
            case O_STOP: return;
            case O_BLOCK: case O_WAKEEND: case O_WAKENEXT: o.s = fiber_discipline_yield(hdisc, op == O_BLOCK ? 0 : 1, &cm, &id, &ev, &par); o.tuple = o.s == STATUS_SUCCESS; break;
            case O_WAKEDIRECT: o = O(disciplined_fiber_scheduler_add_fiber_to_run_queue(sched, fib[a], &HID, EV(a), &custom_par[a])); break;
            case O_MGRECV: o.s = disciplined_fiber_scheduler_receive_management_event(sched, &id, &ev, &par); o.tuple = o.s == STATUS_SUCCESS; break;
            case O_Q1: o = O(disciplined_fiber_scheduler_send_quiesce_request_to_fiber(sched, fib[a])); break;
            case O_T1: o = O(disciplined_fiber_scheduler_send_terminate_request_to_fiber(sched, fib[a])); break;
            case O_QALL: o = O(disciplined_fiber_scheduler_send_quiesce_request_to_all(sched)); break;
            case O_TALL: o = O(disciplined_fiber_scheduler_send_terminate_request_to_all(sched)); break;
            case O_REAP: o = O(disciplined_fiber_scheduler_remove_fiber(sched, fib[a]));
                if (o.s == STATUS_SUCCESS) { MC_CHECK(mc_mem_is_live(fib[a]), "reap", "a fiber that was removed is released already"); mc_mem_fail_at(-1); MC_CHECK(resource_release(fiber_resource_handle(fib[a])) == STATUS_SUCCESS, "reap", "the release of a stopped fiber failed"); }
                break;
            case O_DADD: o = O(fiber_scheduler_discipline_add(sched, disc[a]));
                if (save[0].disc[a])
                {
                    mc_mem_fail_at(-1); fiber_scheduler_discipline* d2 = NULL;
                    MC_CHECK(fiber_scheduler_discipline_create(&d2, &DID[a], al, &hctx, (size_t)dcount[a], d_vec[a]) == STATUS_SUCCESS && d2, "discipline-create", "discipline_create");
                    MC_CHECK(fiber_scheduler_discipline_add(sched, d2) == ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID, "duplicate", "two disciplines with one id were added");
                    MC_CHECK(resource_release(fiber_scheduler_discipline_resource_handle(d2)) == STATUS_SUCCESS, "duplicate", "release");
                }
                break;
            case O_DFIND: fd = (fiber_scheduler_discipline*)&o; o = O(fiber_scheduler_discipline_find(&fd, sched, &DID[a]));
                if (o.s == STATUS_SUCCESS) MC_CHECK(fd == disc[a] && fiber_scheduler_discipline_context_get(fd) == &dctx[a], "find", "another discipline was found"); else MC_CHECK(o.s == ERROR_FIBER_SCHEDULER_DISCIPLINE_NOT_FOUND, "find", "status %x for a discipline that was not added", (unsigned)o.s);
                if (o.s == STATUS_SUCCESS) { fiber_scheduler* s2 = NULL; MC_CHECK(fiber_discipline_scheduler_get(&s2, fd) == STATUS_SUCCESS && s2 == sched, "find", "the scheduler of a discipline is wrong"); }
                break;
            case O_DYIELD:
            {
                int d = a / 8, e = a % 8; cb_want = a; cb_fib = fib[me]; cb_param = &custom_par[200 + a]; int real = e == 6 ? -1 : e == dcount[d] + 1 ? INT_MAX : e;
                if (d == 2 && e == 1) { cb_want = -1; }
                o.s = fiber_discipline_yield(disc[d], real, cb_param, &id, &ev, &par); o.tuple = o.s == STATUS_SUCCESS;
                break;
            }
            case O_RAW:
            {
                /* 3: the first code beyond those of all disciplines, which are numbered in the order in which they were added. */
                int beyond = cb_top + 1; for (int d = 0; d < ND; ++d) if (save[0].disc[d]) beyond += dcount[d];
                o = O(fiber_scheduler_yield(sched, a == 0 ? -1 : a == 1 ? 0x4000 : a == 2 ? INT_MIN : beyond, NULL, &id, &ev, &par)); break;
            }
            case O_MBCREATE: { mailbox_address ad = 12345; int slot = C[0].nmb; /* candidates agree on the number before. */ slot = save[0].nmb; o = O(mailbox_create(&ad, msgdisc)); if (o.s == STATUS_SUCCESS) { for (int i = 0; i < slot; ++i) MC_CHECK(mbaddr[i] != ad, "address-reused", "a new mailbox has the address of another one"); mbaddr[slot] = ad; } break; }
            case O_MBCLOSE: o = O(mailbox_close(a < NB ? mbaddr[a] : 7777, msgdisc)); break;
            case O_SEND: o = O(message_send((a & 3) < NB ? mbaddr[a & 3] : 7777, msgs[msg].m, msgdisc)); mc_mem_fail_at(-1); if (o.s != STATUS_SUCCESS && !esc) check_message(msg, msgs[msg].m, true); break;
            case O_RECV: got = NULL; o.s = message_receive(a < NB ? mbaddr[a] : 7777, &got, msgdisc); mc_mem_fail_at(-1); o.msg = -1;
                if (o.s == STATUS_SUCCESS && !esc) { for (int i = 0; i < nmsgs; ++i) if (msgs[i].m == got) o.msg = i; MC_CHECK(got && o.msg >= 0, "message-unknown", "a message was received that is not in flight"); check_message(o.msg, got, true); } break;
            case O_CCREATE: { conditional ad = 12345; int slot = save[0].ncv; o = O(conditional_create(&ad, condisc)); if (o.s == STATUS_SUCCESS) { for (int i = 0; i < slot; ++i) MC_CHECK(cvaddr[i] != ad, "address-reused", "a new conditional has the handle of another one"); cvaddr[slot] = ad; } break; }
            case O_CCLOSE: o = O(conditional_close(a < NB ? cvaddr[a] : 7777, condisc)); break;
            case O_CWAIT: o = O(conditional_wait(a < NB ? cvaddr[a] : 7777, condisc)); break;
            case O_NOT1: o = O(conditional_notify_one(a < NB ? cvaddr[a] : 7777, condisc)); break;
            case O_NOTALL: o = O(conditional_notify_all(a < NB ? cvaddr[a] : 7777, condisc)); break;
            case O_SETH: o = O(fiber_unexpected_event_callback_add(fib[a % 8], a / 8 == 0 ? un_0 : a / 8 == 1 ? un_1 : un_2, HCTX(a / 8))); break;
            case O_UNEXP: un_calls = 0; un_fib = a; un_h = save[0].hnd[a] - 1; o = O(fiber_unexpected_event(fib[a], &DID[1], un_rev[a], a & 1 ? NULL : &un_calls, &HID, un_eev[a])); MC_CHECK(un_calls == (un_h >= 0), "unexpected", "the handler of unexpected events ran %d times", un_calls); break;
            default: abort();
        }
        if (o.tuple) { o.id = id; o.ev = ev; o.par = par; }
        settle(me, op, &o);
        if (esc) return;
        if (op == O_DYIELD) MC_CHECK(cb_calls == (a % 8 < dcount[a / 8]), "handler", "%d callbacks ran", cb_calls);
        if (op == O_ADD && o.s != STATUS_SUCCESS) { owned[a] = false; MC_CHECK(mc_mem_is_live(fib[a]), "add-owner", "a fiber that was not added was released"); MC_CHECK(resource_release(fiber_resource_handle(fib[a])) == STATUS_SUCCESS, "add-owner", "release"); fib[a] = NULL; }
        if (op == O_REAP && o.s == STATUS_SUCCESS) { fib[a] = NULL; owned[a] = false; }
    }
}
static status fiber_main(void* ctx)
{
    int me = (int)((int*)ctx - fctx); obs o = { 0 };
    if (me < 1 || me >= NF) mc_fail("context", "a fiber was started with a wrong context");
    settle(me, O_ENTRY, &o);
    body(me);
    return me == 2 ? (status)0x80FF0042 : me == 3 ? -1 : STATUS_SUCCESS;
}

static void must(bool ok, const char* what) { if (!ok) mc_fail("setup", "%s failed", what); }
/* who is what; fibers still allocated at the end are released by the scheduler. */
static void world(unsigned al_, bool idle)
{
    alpha = al_; al = fa_init(); mc_mem_begin(); maps_reset(); tr_reset(); memset(&C[0], 0, sizeof C[0]); nC = 1; nmsgs = 0; steps = faults = 0; done = esc = missed = armed = false; last_me = 0; memset(hist, 0, sizeof hist);
    memset(fib, 0, sizeof fib); memset(owned, 0, sizeof owned); memset(disc, 0, sizeof disc);
    C[0].mgmt = -1; C[0].st[0] = S_RUNNING; for (int i = 0; i < NB; ++i) C[0].mb[i].blocked = -1;
    must(fiber_scheduler_create_with_disciplines(&sched, al) == STATUS_SUCCESS && sched, "create_with_disciplines");
    must(disciplined_fiber_scheduler_main_fiber_get(&fib[0], sched) == STATUS_SUCCESS && fib[0], "main_fiber_get");
    if (alpha & A_MSG) { must(message_discipline_get_or_create(&msgdisc, al, sched) == STATUS_SUCCESS, "message discipline"); fiber_scheduler_discipline* d = NULL; must(message_discipline_get_or_create(&d, al, sched) == STATUS_SUCCESS && d == msgdisc, "message discipline again"); }
    if (alpha & A_COND) { must(condition_discipline_get_or_create(&condisc, al, sched) == STATUS_SUCCESS, "condition discipline"); fiber_scheduler_discipline* d = NULL; must(condition_discipline_get_or_create(&d, al, sched) == STATUS_SUCCESS && d == condisc, "condition discipline again"); }
    /* the last one, so that h_probe sees the highest code. */
    HID = alpha & A_MSG ? FIBER_SCHEDULER_MESSAGE_DISCIPLINE : FIBER_SCHEDULER_CONDITION_DISCIPLINE; HID.data[15] ^= 1;
    static fiber_scheduler_discipline_callback_fn hv[3] = { h_cmd, h_cmd, h_probe };
    must(fiber_scheduler_discipline_create(&hdisc, &HID, al, &hctx, 3, hv) == STATUS_SUCCESS, "discipline_create");
    must(fiber_scheduler_discipline_add(sched, hdisc) == STATUS_SUCCESS, "discipline_add");
    if (alpha & A_DISC) for (int d = 0; d < ND; ++d) must(fiber_scheduler_discipline_create(&disc[d], &DID[d], al, &dctx[d], (size_t)dcount[d], d_vec[d]) == STATUS_SUCCESS, "discipline_create");
    if (alpha & A_DISC) { const rcpr_uuid* id; int ev; void* par; memset(cb_code, 0, sizeof cb_code); cb_top = 0; must(fiber_discipline_yield(hdisc, 2, &cb_top, &id, &ev, &par) == (status)0x80FF00CC && cb_top > 0, "probe"); }
    if (idle)
    {
        mc_mem_arena(slot_of(IDLE), SLOT); must(fiber_create(&fib[IDLE], al, sched, stack_size[IDLE], &fctx[IDLE], &fiber_main) == STATUS_SUCCESS, "fiber_create"); mc_mem_arena(NULL, 0); must(disciplined_fiber_scheduler_set_idle_fiber(sched, fib[IDLE]) == STATUS_SUCCESS, "set_idle_fiber");
        C[0].idle = IDLE; C[0].st[IDLE] = S_CREATED; C[0].in[IDLE] = O_ENTRY;
    }
}
static void finish(void)
{
    mc_mem_fail_at(-1); mmap_fail = false;
    if (alpha & A_DISC) for (int d = 0; d < ND; ++d) if (!C[0].disc[d]) MC_CHECK(resource_release(fiber_scheduler_discipline_resource_handle(disc[d])) == STATUS_SUCCESS, "release", "releasing a discipline that was not added failed");
    /* a fiber that is idle and was not added belongs to the scheduler. */
    if (fib[IDLE]) owned[IDLE] = C[0].idle == IDLE;
    for (int i = 1; i < NF; ++i) if (fib[i] && !owned[i]) MC_CHECK(resource_release(fiber_resource_handle(fib[i])) == STATUS_SUCCESS, "release", "releasing a fiber that was not added failed");
    MC_CHECK(resource_release(fiber_scheduler_resource_handle(sched)) == STATUS_SUCCESS, "release", "releasing the scheduler failed");
    for (int i = 0; i < nmsgs; ++i) MC_CHECK(tr_released[msgs[i].payload->id] == 1, "message-lost", "message %d was released %d times", i, tr_released[msgs[i].payload->id]);
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks leaked", mc_mem_live()); MC_CHECK(mapped == 0, "leak-stack", "%d stacks leaked", mapped); mc_step();
}

/* a request to a fiber that is already in the run queue: it is queued, and later resumed, twice. */
static int rr_runs[NF]; 
static status rr_fiber(void* ctx)
{
    int me = (int)((int*)ctx - fctx); const rcpr_uuid* id; int ev; void* p;
    for (int i = 0; i < 3; ++i)
    {
        ++rr_runs[me];
        status s = fiber_scheduler_yield(sched, FIBER_SCHEDULER_YIELD_EVENT_RUN, NULL, &id, &ev, &p); if (s != STATUS_SUCCESS) return s;
    }
    ++rr_runs[me];
    cmd c = { O_BLOCK, 0 };
    status s = fiber_discipline_yield(hdisc, 0, &c, &id, &ev, &p);
    mc_fail("request-to-ready-fiber", "a fiber that was asked to stop while it was ready to run was resumed when nothing woke it (%x)", (unsigned)s);
}
static void ready_request(int what)
{
    world(A_BLOCK, false);
    must(fiber_create(&fib[1], al, sched, STACK, &fctx[1], &rr_fiber) == STATUS_SUCCESS, "fiber_create"); owned[1] = true; must(fiber_scheduler_add(sched, fib[1]) == STATUS_SUCCESS, "add"); memset(rr_runs, 0, sizeof rr_runs);
    int at = mc_choose(3, "when the request is made");
    for (int i = 0; i <= at; ++i) must(fiber_scheduler_run(sched) == STATUS_SUCCESS, "run");
    mc_trace("request %d to a fiber that is ready to run", what); mc_nontrivial();
    status s = what == 0 ? disciplined_fiber_scheduler_send_quiesce_request_to_fiber(sched, fib[1]) : what == 1 ? disciplined_fiber_scheduler_send_terminate_request_to_fiber(sched, fib[1]) : what == 2 ? disciplined_fiber_scheduler_send_quiesce_request_to_all(sched) : disciplined_fiber_scheduler_send_terminate_request_to_all(sched);
    MC_CHECK(s == STATUS_SUCCESS, "request", "status %x", (unsigned)s);
    for (int i = 0; i < 8; ++i) if (fiber_scheduler_run(sched) != STATUS_SUCCESS) break;
    finish();
}
/* memory runs out while things are created. */
static void creation(int scenario)
{
    alpha = 0; al = fa_init(); mc_mem_begin(); maps_reset(); tr_reset(); (void)scenario; sched = NULL;
    int what = mc_choose(6, "what is created"), k = mc_choose(24, "allocation that fails"); long l0, m0; status s; bool mm = k == 23; fiber_scheduler_discipline* d = NULL; fiber_scheduler_discipline* other = NULL;
    mc_trace("creating %d, allocation %d fails", what, k);
    if (what) { must(fiber_scheduler_create_with_disciplines(&sched, al) == STATUS_SUCCESS, "create"); if (mc_choose(2, "another discipline is there")) { if (what == 1) { must(condition_discipline_get_or_create(&other, al, sched) == STATUS_SUCCESS, "condition"); } else must(message_discipline_get_or_create(&other, al, sched) == STATUS_SUCCESS, "message"); } }
    fiber* f = (fiber*)&l0; message* m = (message*)&l0; tr* pay = tr_new(0);
    for (int again = 0; again < 2; ++again)
    {
        l0 = mc_mem_live(); m0 = mapped; long f0 = mc_mem_failures(); if (!again) { if (mm) mmap_fail = true; else mc_mem_fail_at(k); }
        d = (fiber_scheduler_discipline*)&l0; static fiber_scheduler_discipline_callback_fn hv[3] = { h_cmd, h_cmd, h_probe };
        fiber_scheduler* sc = (fiber_scheduler*)&l0;
        switch (what)
        {
            case 0: s = fiber_scheduler_create_with_disciplines(&sc, al); sched = sc; break;
            case 1: s = message_discipline_get_or_create(&d, al, sched); break;
            case 2: s = condition_discipline_get_or_create(&d, al, sched); break;
            case 3: s = fiber_create(&f, al, sched, STACK, &fctx[1], &fiber_main); break;
            case 4: s = message_create(&m, al, 5, &pay->hdr); break;
            default: s = fiber_scheduler_discipline_create(&d, &DID[1], al, &dctx[1], 3, d_vec[1]); break;
        }
        (void)hv; bool hit = mc_mem_failures() > f0 || (mm && !again && !mmap_fail); mc_mem_fail_at(-1); mmap_fail = false;
        if (hit)
        {
            mc_nontrivial();
            MC_CHECK(s != STATUS_SUCCESS && (mm || s == ERROR_GENERAL_OUT_OF_MEMORY), "oom-status", "creation %d without memory: status %x", what, (unsigned)s);
            MC_CHECK(mc_mem_live() == l0 || what == 1 || what == 2, "oom-leak", "creation %d without memory leaks %ld blocks", what, mc_mem_live() - l0); MC_CHECK(mapped == m0, "oom-leak", "a stack leaked");
            if (what == 0) MC_CHECK(sc == NULL, "oom-output", "a failed create does not set its output to NULL"); if (what == 3) MC_CHECK(f == NULL, "oom-output", "a failed fiber_create does not set its output to NULL");
            if (what == 5) MC_CHECK(d == NULL, "oom-output", "a failed discipline_create does not set its output to NULL"); mc_step(); continue;
        }
        MC_CHECK(s == STATUS_SUCCESS, "create", "creation %d: status %x", what, (unsigned)s);
        if (what == 1 || what == 2)
        {
            fiber_scheduler_discipline* e = NULL; MC_CHECK(fiber_scheduler_discipline_find(&e, sched, what == 1 ? &FIBER_SCHEDULER_MESSAGE_DISCIPLINE : &FIBER_SCHEDULER_CONDITION_DISCIPLINE) == STATUS_SUCCESS && e == d && e != other, "find", "the discipline is not found");
            if (what == 1) { mailbox_address ad = 0; MC_CHECK(mailbox_create(&ad, d) == STATUS_SUCCESS, "works", "mailbox_create"); message* got = NULL; must(message_create(&m, al, 5, &pay->hdr) == STATUS_SUCCESS, "message_create"); MC_CHECK(message_send(ad, m, d) == STATUS_SUCCESS && message_receive(ad, &got, d) == STATUS_SUCCESS && got == m && message_payload(m, true) == &pay->hdr && message_payload(m, false) == NULL, "works", "a message"); MC_CHECK(resource_release(message_resource_handle(m)) == STATUS_SUCCESS && tr_release_calls == 0, "works", "a payload that was taken out was released"); }
            else { conditional cv = 0; MC_CHECK(conditional_create(&cv, d) == STATUS_SUCCESS && conditional_notify_all(cv, d) == STATUS_SUCCESS && conditional_close(cv, d) == STATUS_SUCCESS, "works", "conditional"); }
        }
        if (what == 3) { MC_CHECK(resource_release(fiber_resource_handle(f)) == STATUS_SUCCESS, "release", "release"); }
        if (what == 4) { MC_CHECK(tr_release_calls == 0 && resource_release(message_resource_handle(m)) == STATUS_SUCCESS && tr_release_calls == 1, "release", "release"); }
        if (what == 5) { MC_CHECK(fiber_scheduler_discipline_context_get(d) == &dctx[1] && resource_release(fiber_scheduler_discipline_resource_handle(d)) == STATUS_SUCCESS, "release", "release"); }
        break;
    }
    if (sched) MC_CHECK(resource_release(fiber_scheduler_resource_handle(sched)) == STATUS_SUCCESS, "release", "release");
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks leaked", mc_mem_live()); MC_CHECK(mapped == 0, "leak-stack", "%d stacks leaked", mapped); mc_step();
}

#define OP(o, a) ((short)((o) * 64 + (a)))
static const short pre_add1[] = { OP(O_ADD, 1), 0 }, pre_add2[] = { OP(O_ADD, 1), OP(O_ADD, 2), 0 };
static const short pre_msg[] = { OP(O_MBCREATE, 0), OP(O_ADD, 1), OP(O_ADD, 2), 0 }, pre_cond[] = { OP(O_CCREATE, 0), OP(O_ADD, 1), OP(O_ADD, 2), 0 };
static const short pre_both[] = { OP(O_MBCREATE, 0), OP(O_CCREATE, 0), OP(O_ADD, 1), OP(O_ADD, 2), 0 };
static const short pre_cond3[] = { OP(O_CCREATE, 0), OP(O_ADD, 1), OP(O_ADD, 2), OP(O_ADD, 3), 0 };
void mc_setup(void) { fault_mode = mc_mode < 40 && (mc_mode / 10 & 1); prune = mc_mode >= 20; if (mc_mode == 2 || mc_mode == 12) maxadd = 1; else maxadd = mc_bound2 ? mc_bound2 : 3; }
static int base_mode(void) { return mc_mode >= 40 ? mc_mode : mc_mode % 10; }
int mc_scenarios(void) { int m = base_mode(); return m == 6 ? 4 : m == 7 ? 1 : 2; }
void mc_run(int scenario)
{
    bool idle = scenario & 1; prelude = no_prelude;
    switch (base_mode())
    {
        case 0: world(A_BLOCK | A_DIRECT, idle); break;
        case 1: world(A_BLOCK | A_MGMT | A_REAP, idle); prelude = pre_add1; break;
        case 2: world(A_DISC, idle); break;
        case 3: world(A_MSG, idle); prelude = pre_msg; break;
        case 4: world(A_COND, idle); prelude = maxadd > 2 ? pre_cond3 : pre_cond; break;
        case 5: world(A_BLOCK | A_INTR | A_MGMT | A_MSG | A_COND | A_REAP, idle); prelude = pre_both; break;
        case 6: ready_request(scenario); return;
        case 7: creation(scenario); return;
        case 8: world(A_BLOCK | A_MGMT | A_MSG | A_COND | A_REAP | A_DISC, idle); prelude = pre_add2; break;
        case 9: world(A_FEW | A_BLOCK | A_INTR | (idle ? A_COND : A_MSG), false); prelude = idle ? pre_cond3 : pre_msg; break;
        case 40: world(A_BLOCK | A_SETIDLE | A_REAP | A_MGMT, idle); prelude = pre_add2; break;
        case 41: world(A_BLOCK | A_SETIDLE, idle); prelude = pre_add2; break;
        default: abort();
    }
    cur_key = "order"; body(0);
    finish();
}
