/*
 * Sockets made from user methods.
 * mode 0: every sequence, up to mc_bound, of operations on two sockets with methods of their own (each optional
 * method there or not), on them directly or through a buffered reader, each method answering in every way; then the releases.
 * mode 1: strings around the largest size.
 */
#define _GNU_SOURCE
#include "common.h"
#include "vk.h"
#include <rcpr/fiber.h>
#include <rcpr/psock.h>
#include <sys/mman.h>
RCPR_IMPORT_fiber; RCPR_IMPORT_psock;
const char* mc_name = "psuser";
typedef RCPR_SYM(psock_vtable) pvt;
#define OK(x) do { status s_ = (x); MC_CHECK(s_ == STATUS_SUCCESS, "setup", "%s failed: %x", #x, (unsigned)s_); } while (0)
#define BAD(k) ((status)(0x80FE0000 + (k)))
enum { M_READ, M_WRITE, M_ACCEPT, M_SENDMSG, M_RECVMSG, M_SETOPT, M_RELEASE, NM };
static const char* const MN[] = { "read", "write", "accept", "sendmsg", "recvmsg", "setsockopt", "release" };
typedef struct { int who, method; psock* s; void* ctx; const void* p; const void* q; size_t size; long a, b; status r; size_t got; } call;
static call C[64]; static int nc, used;                   /* the calls that were made, and how many were expected. */
static unsigned char ctx_mem[2][64]; static psock* S[2]; static bool gone[2]; static char release_fails[2]; static unsigned char next_byte[2];
static void* ctx_of(int w) { return w ? NULL : (void*)ctx_mem[0]; }   /* the second socket has no context. */
static call* got(int who, int m, psock* s, void* ctx)
{
    MC_CHECK(nc < 64, "loop", "the methods are called again and again"); call* c = &C[nc++]; memset(c, 0, sizeof *c); c->who = who; c->method = m; c->s = s; c->ctx = ctx;
    MC_CHECK(s == S[who], "socket", "%s was called with another socket", MN[m]); MC_CHECK(ctx == ctx_of(who), "context", "%s was called with another context", MN[m]); MC_CHECK(!gone[who], "released", "%s was called after the release", MN[m]); return c;
}
static size_t limit;                                      /* how far short reads are offered. */
static status m_read(int w, psock* s, void* x, void* data, size_t* size, bool block)
{
    call* c = got(w, M_READ, s, x); c->p = data; c->q = size; c->size = *size; c->a = block; size_t n = *size; if (n > 64) n = 64; int k = mc_choose(n < 2 ? 3 : 4, "read: all, error, nothing, a part");
    c->r = k == 1 ? BAD(M_READ) : STATUS_SUCCESS; if (k == 1) { *size = 0; return c->r; }
    n = k == 0 ? n : k == 2 ? 0 : n / 2; for (size_t i = 0; i < n; ++i) ((unsigned char*)data)[i] = next_byte[w]++;
    *size = c->got = n; return c->r;
}
static status m_write(int w, psock* s, void* x, const void* data, size_t* size)
{
    call* c = got(w, M_WRITE, s, x); c->p = data; c->q = size; c->size = *size; int k = mc_choose(*size < 2 ? 3 : 4, "write: all, error, nothing, a part"); memcpy(&c->b, data, *size < 8 ? *size : 8);
    c->r = k == 1 ? BAD(M_WRITE) : STATUS_SUCCESS; if (k == 1) return c->r;
    *size = c->got = k == 0 ? *size : k == 2 ? 0 : *size / 2; return c->r;
}
static status m_accept(int w, psock* s, void* x, int* d, struct sockaddr* ad, socklen_t* l) { call* c = got(w, M_ACCEPT, s, x); c->p = d; c->q = ad; c->a = (long)(uintptr_t)l; c->r = mc_choose(2, "accept fails") ? BAD(M_ACCEPT) : STATUS_SUCCESS; if (!c->r) { *d = 1234; *l = 5; } return c->r; }
static status m_sendmsg(int w, psock* s, void* x, const struct msghdr* m, int f) { call* c = got(w, M_SENDMSG, s, x); c->p = m; c->a = f; return c->r = mc_choose(2, "sendmsg fails") ? BAD(M_SENDMSG) : STATUS_SUCCESS; }
static status m_recvmsg(int w, psock* s, void* x, struct msghdr* m, size_t* l, int f) { call* c = got(w, M_RECVMSG, s, x); c->p = m; c->q = l; c->a = f; return c->r = mc_choose(2, "recvmsg fails") ? BAD(M_RECVMSG) : STATUS_SUCCESS; }
static status m_setopt(int w, psock* s, void* x, int lv, int on, const void* v, socklen_t n) { call* c = got(w, M_SETOPT, s, x); c->p = v; c->size = n; c->a = lv; c->b = on; return c->r = mc_choose(2, "setsockopt fails") ? BAD(M_SETOPT) : STATUS_SUCCESS; }
static status m_release(int w, psock* s, void* x) { call* c = got(w, M_RELEASE, s, x); gone[w] = true; return c->r = release_fails[w] ? BAD(M_RELEASE) : STATUS_SUCCESS; }
#define METHODS(w) \
    static status rd##w(psock* s, void* x, void* d, size_t* n, bool b) { return m_read(w, s, x, d, n, b); } static status wr##w(psock* s, void* x, const void* d, size_t* n) { return m_write(w, s, x, d, n); } \
    static status ac##w(psock* s, void* x, int* d, struct sockaddr* a, socklen_t* l) { return m_accept(w, s, x, d, a, l); } static status sm##w(psock* s, void* x, const struct msghdr* m, int f) { return m_sendmsg(w, s, x, m, f); } \
    static status rm##w(psock* s, void* x, struct msghdr* m, size_t* l, int f) { return m_recvmsg(w, s, x, m, l, f); } static status so##w(psock* s, void* x, int a, int b, const void* v, socklen_t n) { return m_setopt(w, s, x, a, b, v, n); } \
    static status re##w(psock* s, void* x) { return m_release(w, s, x); } static pvt vt##w;
METHODS(0) METHODS(1)
static pvt* const V[] = { &vt0, &vt1 };
static void set_methods(void)
{
    vt0 = (pvt){ .read_fn = rd0, .write_fn = wr0, .accept_fn = ac0, .sendmsg_fn = sm0, .recvmsg_fn = rm0, .setsockopt_fn = so0, .release_fn = re0 };
    vt1 = (pvt){ .read_fn = rd1, .write_fn = wr1, .accept_fn = ac1, .sendmsg_fn = sm1, .recvmsg_fn = rm1, .setsockopt_fn = so1, .release_fn = re1 };
}
static call* next(int w, int m) { MC_CHECK(used < nc, "not-called", "the method %s of socket %d was not called", MN[m], w); call* c = &C[used++]; MC_CHECK(c->method == m && c->who == w, "wrong-call", "the method %s of socket %d was called, instead of %s of socket %d", MN[c->method], c->who, MN[m], w); return c; }
static void no_more(void) { MC_CHECK(used == nc, "extra-call", "the method %s of socket %d was called once more", MN[C[used].method], C[used].who); }
enum { O_READ, O_RI8, O_RU32, O_RDATA, O_WI8, O_WU32, O_WDATA, O_ACCEPT, O_SETOPT, O_RDESC, O_WDESC, O_SENDMSG, O_RECVMSG, O_VREAD, O_BIG, O_ASYNC, NO };
static const char* const ON[] = { "psock_read_raw", "psock_read_raw_int8", "psock_read_raw_uint32", "psock_read_raw_data", "psock_write_raw_int8", "psock_write_raw_uint32", "psock_write_raw_data", "psock_accept", "psock_setsockopt", "psock_read_raw_descriptor", "psock_write_raw_descriptor", "sendmsg_fn", "recvmsg_fn", "read_fn", "psock_read_raw of much", "psock_create_wrap_async" };
static allocator* al; static fiber_scheduler* sched; static fiber* mainf;
static void expect(status r, status e, int op) { MC_CHECK(r == e, "status", "%s gives %x, expected %x", ON[op], (unsigned)r, (unsigned)e); }
/* one operation on p, which is the socket w or something around it.  BR: p is a buffered reader, which reads and sets options differently. */
static void operation(psock* p, int w, int op, bool br)
{
    unsigned char buf[16], was[16]; memset(buf, 0xEE, sizeof buf); memcpy(was, buf, 16); size_t n = 5; status r; call* c; unsigned char first = next_byte[w]; nc = used = 0; const resource_vtable* rv = NULL; long l0 = mc_mem_live(); void* ptr = NULL; OK(resource_vtable_read(&rv, psock_resource_handle(p))); MC_CHECK(psock_resource_handle_to_psock(psock_resource_handle(p)) == p, "handle", "the socket of a resource handle is not the socket"); const pvt* pv = (const pvt*)rv;
    switch (op)
    {
        case O_READ: r = psock_read_raw(p, buf, &n); c = next(w, M_READ); MC_CHECK(c->p == buf && c->size == 5 && !c->a, "arguments", "read_fn was called with size %zu, block %ld", c->size, c->a); expect(r, c->r, op); if (!r) { MC_CHECK(n == c->got, "size", "%zu bytes, not %zu", n, c->got); } else MC_CHECK(n == 5 || n == 0, "size", "size %zu", n); break;
        case O_VREAD: r = pv->read_fn(p, NULL, buf, &n, true); c = next(w, M_READ); MC_CHECK(c->p == buf && c->size == 5 && c->a, "arguments", "read_fn was called with size %zu, block %ld", c->size, c->a); expect(r, c->r, op); if (!r) MC_CHECK(n == c->got, "size", "%zu bytes, not %zu", n, c->got); break;
        case O_BIG: { static unsigned char big[70000]; n = sizeof big; r = psock_read_raw(p, big, &n); c = next(w, M_READ); MC_CHECK(c->p == big && c->size == sizeof big && !c->a, "arguments", "read_fn was called with size %zu, block %ld", c->size, c->a); expect(r, c->r, op); if (!r) MC_CHECK(n == c->got, "size", "%zu bytes, not %zu", n, c->got); break; }
        case O_RI8: { int8_t v = 77; r = psock_read_raw_int8(p, &v); c = next(w, M_READ); MC_CHECK(c->size == 1 && c->a, "arguments", "read_fn was called with size %zu, block %ld", c->size, c->a); expect(r, c->r ? c->r : c->got == 1 ? STATUS_SUCCESS : ERROR_PSOCK_READ_INVALID_SIZE, op); MC_CHECK(v == (r ? 77 : (int8_t)first), "value", "the value is %d", v); break; }
        case O_RU32: { uint32_t v = 77; r = psock_read_raw_uint32(p, &v); c = next(w, M_READ); MC_CHECK(c->size == 4 && c->a, "arguments", "read_fn was called with size %zu, block %ld", c->size, c->a); expect(r, c->r ? c->r : c->got == 4 ? STATUS_SUCCESS : ERROR_PSOCK_READ_INVALID_SIZE, op); unsigned char f = first; uint32_t e = 0; for (int i = 0; i < 4; ++i) e = e << 8 | f++; MC_CHECK(v == (r ? 77 : e), "value", "the value is %x", v); break; }
        case O_RDATA:
        {
            size_t left = 5; r = psock_read_raw_data(p, al, &ptr, 5); status e = STATUS_SUCCESS; char* at = NULL;
            while (left) { c = next(w, M_READ); MC_CHECK(c->size == left && c->a && (!at || c->p == at), "arguments", "read_fn was called with size %zu, block %ld", c->size, c->a); if ((e = c->r)) break; if (!c->got) { e = ERROR_PSOCK_READ_INVALID_SIZE; break; } at = (char*)c->p + c->got; left -= c->got; }
            expect(r, e, op); MC_CHECK(!r == (ptr != NULL), "output", "the output"); if (!r) { for (int i = 0; i < 5; ++i) MC_CHECK(((unsigned char*)ptr)[i] == (unsigned char)(first + i), "value", "byte %d", i); OK(allocator_reclaim(al, ptr)); } break;
        }
        case O_WI8: r = psock_write_raw_int8(p, -3); c = next(w, M_WRITE); MC_CHECK(c->size == 1 && (unsigned char)c->b == 0xFD, "arguments", "write_fn was called with size %zu", c->size); expect(r, c->r ? c->r : c->got == 1 ? STATUS_SUCCESS : ERROR_PSOCK_WRITE_INVALID_SIZE, op); break;
        case O_WU32: r = psock_write_raw_uint32(p, 0x01020304); c = next(w, M_WRITE); MC_CHECK(c->size == 4 && !memcmp(&c->b, "\1\2\3\4", 4), "arguments", "write_fn was called with size %zu", c->size); expect(r, c->r ? c->r : c->got == 4 ? STATUS_SUCCESS : ERROR_PSOCK_WRITE_INVALID_SIZE, op); break;
        case O_WDATA:
        {
            size_t left = 5; const unsigned char* at = was; r = psock_write_raw_data(p, was, 5); status e = STATUS_SUCCESS;
            while (left) { c = next(w, M_WRITE); MC_CHECK(c->size == left && c->p == at, "arguments", "write_fn was called with size %zu", c->size); if ((e = c->r)) break; if (!c->got) { e = ERROR_PSOCK_WRITE_INVALID_SIZE; break; } at += c->got; left -= c->got; }
            expect(r, e, op); break;
        }
        case O_ACCEPT: { int d = -9; socklen_t l = 16; r = psock_accept(p, &d, (struct sockaddr*)buf, &l); if (!V[w]->accept_fn) { expect(r, ERROR_PSOCK_METHOD_UNDEFINED, op); MC_CHECK(d == -9 && l == 16, "output", "outputs changed"); break; }
            c = next(w, M_ACCEPT); MC_CHECK(c->p == &d && c->q == buf && c->a == (long)(uintptr_t)&l, "arguments", "accept_fn got other arguments"); expect(r, c->r, op); MC_CHECK(d == (r ? -9 : 1234) && l == (r ? 16 : 5), "output", "the outputs are %d and %u", d, (unsigned)l); break; }
        case O_SETOPT: r = psock_setsockopt(p, w ? 0 : 3, w ? -1 : 4, buf, w ? 0 : 7); if (br || !V[w]->setsockopt_fn) { expect(r, ERROR_PSOCK_METHOD_UNDEFINED, op); break; } c = next(w, M_SETOPT); MC_CHECK(c->p == buf && c->size == (w ? 0u : 7u) && c->a == (w ? 0 : 3) && c->b == (w ? -1 : 4), "arguments", "setsockopt_fn got other arguments"); expect(r, c->r, op); break;
        case O_RDESC: { int d = -9; r = psock_read_raw_descriptor(p, &d); expect(r, ERROR_PSOCK_UNSUPPORTED_TYPE, op); break; }
        case O_WDESC: r = psock_write_raw_descriptor(p, 1); expect(r, ERROR_PSOCK_UNSUPPORTED_TYPE, op); break;
        case O_SENDMSG: r = pv->sendmsg_fn(p, NULL, (const struct msghdr*)buf, w ? (int)0xA5C3F00F : 9); if (!V[w]->sendmsg_fn) { expect(r, ERROR_PSOCK_METHOD_UNDEFINED, op); break; } c = next(w, M_SENDMSG); MC_CHECK(c->p == buf && c->a == (w ? (int)0xA5C3F00F : 9), "arguments", "sendmsg_fn got other arguments"); expect(r, c->r, op); break;
        case O_RECVMSG: r = pv->recvmsg_fn(p, NULL, (struct msghdr*)buf, &n, w ? (int)0xA5C3F00F : 9); if (!V[w]->recvmsg_fn) { expect(r, ERROR_PSOCK_METHOD_UNDEFINED, op); break; } c = next(w, M_RECVMSG); MC_CHECK(c->p == buf && c->q == &n && c->a == (w ? (int)0xA5C3F00F : 9), "arguments", "recvmsg_fn got other arguments"); expect(r, c->r, op); break;
        default: { psock* q = p; r = psock_create_wrap_async(&q, al, mainf, p); MC_CHECK(r != STATUS_SUCCESS && q == p, "async", "a custom socket was wrapped"); break; }
    }
    no_more(); MC_CHECK(mc_mem_live() == l0, "leak", "%s: %ld blocks more", ON[op], mc_mem_live() - l0); mc_trace("%s on %d%s gives %x", ON[op], w, br ? ", buffered" : "", (unsigned)r); mc_step(); mc_state(mc_hash((uint64_t)op * 4 + (uint64_t)w * 2 + br, mc_hash((uint64_t)(unsigned)r, (uint64_t)nc)));
}
static void run(int sc)
{
    tr_reset(); mc_mem_begin(); vk_reset(); al = fa_init(); set_methods(); nc = used = 0; memset(gone, 0, sizeof gone); memset(release_fails, 0, sizeof release_fails); next_byte[0] = 7; next_byte[1] = 0xA0; memset(ctx_mem, 0x5C, sizeof ctx_mem); S[0] = S[1] = NULL; sched = NULL;
    int depth = mc_bound ? mc_bound : 1, ops = 0;
    /* which optional methods the first one has (the second has those that the first has not). */
    for (int i = 0; i < 4; ++i) { pvt* v = V[(sc >> i & 1) ? 1 : 0]; if (i == 0) v->accept_fn = NULL; else if (i == 1) v->sendmsg_fn = NULL; else if (i == 2) v->recvmsg_fn = NULL; else v->setsockopt_fn = NULL; }
    int norelease = depth > 2 && (sc & 1) ? 0 : mc_choose(3, "who has no release method"); if (norelease) V[norelease - 1]->release_fn = NULL;
    for (int w = 0; w < 2; ++w)
    {
        if (!w) { psock* q = (psock*)8; mc_mem_fail_at(0); status r = psock_create_from_user_methods(&q, al, ctx_of(w), V[w]); mc_mem_fail_at(-1); MC_CHECK(r == ERROR_GENERAL_OUT_OF_MEMORY && q == NULL && !nc, "create-oom", "creation without memory gives %x", (unsigned)r); }
        OK(psock_create_from_user_methods(&S[w], al, ctx_of(w), V[w]));
    }
    psock_br *br = NULL, *br2 = NULL; MC_CHECK(!nc, "extra-call", "a method was called by the constructor");
    for (int i = 0; i < depth; ++i)
    {
        int k = mc_choose(NO * 2 + 9, "operation"); if (k == 0) break;
        --k; ++ops; if (k < NO * 2) { if (k % NO == O_ASYNC && !sched) { OK(fiber_scheduler_create_with_disciplines(&sched, al)); OK(disciplined_fiber_scheduler_main_fiber_get(&mainf, sched)); } operation(S[k / NO], k / NO, k % NO, false); continue; }
        k -= NO * 2;
        if (!br) { OK(psock_br_create_from_psock(&br, al, S[0])); OK(psock_br_create_from_psock(&br2, al, psock_br_psock_adapter(br))); }
        psock* p = psock_br_psock_adapter(k & 1 ? br2 : br);
        static const int B[] = { O_WU32, O_ACCEPT, O_SENDMSG, O_RECVMSG };
        operation(p, 0, B[k / 2], true); if (k / 2 == 1) operation(p, 0, O_SETOPT, true);
    }
    nc = used = 0; bool brfirst = true;
    if (br) { brfirst = ops > 1 || mc_choose(2, "the readers are released last") == 0; if (brfirst) { OK(resource_release(psock_br_resource_handle(br2))); OK(resource_release(psock_br_resource_handle(br))); no_more(); } }
    int last = ops > 1 ? 0 : mc_choose(2, "which one is released last");
    for (int i = 0; i < 2; ++i)
    {
        int w = last ? i : 1 - i; release_fails[w] = ops > 1 ? 0 : (char)mc_choose(2, "the release fails"); int rf = ops > 1 ? 0 : mc_choose(2, "the reclaim fails"); if (rf) { fa_inst.reclaims = 0; fa_inst.reclaim_fail_at = 0; } bool has = V[w]->release_fn != NULL; long l0 = mc_mem_live();
        status r = resource_release(psock_resource_handle(S[w])); fa_inst.reclaim_fail_at = -1; mc_trace("release of %d gives %x", w, (unsigned)r); mc_step(); mc_nontrivial(); if (has) next(w, M_RELEASE); no_more();
        MC_CHECK((r != STATUS_SUCCESS) == ((release_fails[w] && has) || rf), "release-status", "the release gives %x", (unsigned)r); if (!rf && has) MC_CHECK(r == (release_fails[w] ? BAD(M_RELEASE) : STATUS_SUCCESS), "release-status", "the release gives %x", (unsigned)r);
        MC_CHECK(mc_mem_live() == l0 - 1, "leak", "the socket's memory");
    }
    if (br && !brfirst) { OK(resource_release(psock_br_resource_handle(br2))); OK(resource_release(psock_br_resource_handle(br))); no_more(); }
    if (sched) OK(resource_release(fiber_scheduler_resource_handle(sched)));
    for (size_t i = 0; i < sizeof ctx_mem; ++i) MC_CHECK(((unsigned char*)ctx_mem)[i] == 0x5C, "context", "the context was changed");
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks were leaked", mc_mem_live());
}
/* ---- very long strings ---- */
static char* huge; static uint64_t wrote; static unsigned char head[8]; static const char* data_at; static int writes;
static status h_write(psock* s, void* ctx, const void* data, size_t* size) { (void)s; (void)ctx; if (*size == 4 && wrote < 8) memcpy(head + wrote, data, 4); else data_at = data; ++writes; wrote += *size; return STATUS_SUCCESS; }
static status h_read(psock* s, void* ctx, void* data, size_t* size, bool block) { (void)s; (void)ctx; (void)data; (void)size; (void)block; return BAD(M_READ); }
static const pvt h_vt = { .read_fn = h_read, .write_fn = h_write };
#define CHUNK ((size_t)8 << 20)
#define HUGE_MAX (((size_t)1 << 32) + CHUNK)
void mc_setup(void)
{
    if (mc_mode != 1) return;
    int fd = memfd_create("long", 0); if (fd < 0 || ftruncate(fd, (off_t)CHUNK)) { perror("memfd"); exit(2); }
    char* m = mmap(NULL, CHUNK, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); memset(m, 'x', CHUNK); huge = mmap(NULL, HUGE_MAX + CHUNK, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (huge == MAP_FAILED) { perror("mmap"); exit(2); }
    for (size_t o = 0; o <= HUGE_MAX; o += CHUNK) if (mmap(huge + o, CHUNK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0) == MAP_FAILED) { perror("mmap"); exit(2); }
    munmap(m, CHUNK); close(fd);
}
static void run_long(int sc)
{
    static const uint64_t L[] = { 0xFFFFFFFDull, 0xFFFFFFFEull, 0xFFFFFFFFull, 0x100000000ull, 0x100000001ull, 0x100000003ull, 0x100000400ull, 0x7FFFFFFFull, 0x80000000ull, 0x10000ull, 0xFFFFull, 0 };
    tr_reset(); mc_mem_begin(); vk_reset(); al = fa_init(); psock* p; OK(psock_create_from_user_methods(&p, al, NULL, &h_vt)); uint64_t n = L[sc]; huge[n] = 0; wrote = 0; writes = 0; data_at = NULL; memset(head, 0xEE, 8);
    status r = psock_write_boxed_string(p, huge); mc_trace("a string of %llu gives %x", (unsigned long long)n, (unsigned)r); mc_step(); mc_nontrivial(); mc_state(mc_hash(n, (uint64_t)r)); huge[n] = 'x';
    if (n >= 0xFFFFFFFFull) { MC_CHECK(r == ERROR_PSOCK_WRITE_INVALID_SIZE, "status", "a string of %llu bytes gives %x", (unsigned long long)n, (unsigned)r); MC_CHECK(!writes, "written", "%llu bytes of a string of %llu were written", (unsigned long long)wrote, (unsigned long long)n); }
    else { uint64_t d = (uint64_t)head[4] << 24 | (uint64_t)head[5] << 16 | (uint64_t)head[6] << 8 | head[7]; MC_CHECK(r == STATUS_SUCCESS && wrote == n + 8 && d == n && (data_at == huge || !n), "status", "a string of %llu bytes gives %x, %llu bytes written, size %llu", (unsigned long long)n, (unsigned)r, (unsigned long long)wrote, (unsigned long long)d); }
    OK(resource_release(psock_resource_handle(p))); MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks were leaked", mc_mem_live());
}
int mc_scenarios(void) { return mc_mode == 1 ? 12 : 16; }
void mc_run(int sc) { if (mc_mode == 1) run_long(sc); else run(sc); }
