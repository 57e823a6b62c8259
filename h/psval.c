/*
 * Values on the wire: everything that a psock encodes and decodes.
 *
 * mode 0: each value of the menu (all values of the 8 and 16 bit types), every
 *         segmentation of its encoding into reads.
 * mode 1: pairs of values, with up to mc_bound short reads.
 * mode 2: truncated, mistagged and oversized encodings, read errors, memory
 *         exhausted: a failed read leaves its outputs unchanged.
 * mode 3: writes that come up short or fail.
 * mode 4: long strings and data, with up to mc_bound short reads.
 *
 * Decoding is done over an input buffer, a descriptor (whose system calls are
 * stand-ins that decide how much each read returns), user methods, and a
 * buffered reader over either.
 */
#include "common.h"
#include <errno.h>
#include <sys/socket.h>
#include <unistd.h>
#include <rcpr/psock.h>
RCPR_IMPORT_psock;
const char* mc_name = "psval";

/* ---- values ---- */
enum { I64, U64, I32, U32, I16, U16, I8, U8, BOOL, STR, DATA, NT };
static const uint32_t TAG[NT] = { 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x20, 0x22 };
static const int WIDTH[NT] = { 8, 8, 4, 4, 2, 2, 1, 1, 1, 0, 0 };
static const char* NAME[NT] = { "int64", "uint64", "int32", "uint32", "int16", "uint16", "int8", "uint8", "bool", "string", "data" };
typedef struct { int t; bool raw; uint64_t u; const char* p; size_t n; } val;
#define BIG 6000
#define HUGE_N 70000
static const size_t LEN[] = { 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4087, 4088, 4091, 4092, 4095, 4096, 4097, 8191, 8192, 8193, 16375, 16376, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, HUGE_N };
enum { NLEN = sizeof LEN / sizeof *LEN };
static char bigbuf[HUGE_N + 1];
static const uint64_t U[] = { 0, 1, 0x7F, 0x80, 0xFF, 0x0102030405060708ULL, 0x8000000000000000ULL, 0x7FFFFFFFFFFFFFFFULL, 0xFFFFFFFFFFFFFFFFULL, 0x80000000ULL, 0x8001ULL, 0xF0E1D2C3B4A59687ULL };
static val V[256]; static int nv;
static uint64_t mask(int t) { return t == BOOL ? 1 : WIDTH[t] == 8 ? ~0ULL : (1ULL << (8 * WIDTH[t])) - 1; }
static void values(void)
{
    for (int i = 0; i < HUGE_N; ++i) bigbuf[i] = (char)('A' + i % 53);
    for (int raw = 0; raw < 2; ++raw)
    {
        for (int t = 0; t <= BOOL; ++t)
        {
            int n = 0; uint64_t seen[16];
            for (size_t i = 0; i < sizeof U / sizeof *U; ++i)
            {
                uint64_t u = U[i] & mask(t); bool dup = false; for (int j = 0; j < n; ++j) dup |= seen[j] == u;
                if (!dup) { seen[n++] = u; V[nv++] = (val){ t, raw, u, NULL, 0 }; }
            }
        }
        static const char* S[] = { "", "a", "\xff\x01z" };
        if (!raw) { for (int i = 0; i < 3; ++i) V[nv++] = (val){ STR, raw, 0, S[i], strlen(S[i]) }; V[nv++] = (val){ STR, raw, 0, bigbuf, BIG }; }
        static const char D[] = { 0, 1, 2, 0, (char)255 };
        V[nv++] = (val){ DATA, raw, 0, D, 0 }; V[nv++] = (val){ DATA, raw, 0, D, 1 }; V[nv++] = (val){ DATA, raw, 0, D, 5 }; V[nv++] = (val){ DATA, raw, 0, bigbuf, BIG };
    }
}
static size_t be(uint8_t* o, uint64_t u, int w) { for (int i = 0; i < w; ++i) o[i] = (uint8_t)(u >> (8 * (w - 1 - i))); return (size_t)w; }
static size_t enc(uint8_t* o, const val* v)
{
    size_t n = 0; if (!v->raw) n += be(o, TAG[v->t], 4);
    if (v->t <= BOOL) return n + be(o + n, v->u, WIDTH[v->t]);
    if (!v->raw) n += be(o + n, v->n, 4);
    memcpy(o + n, v->p, v->n); return n + v->n;
}
static const char* show(const val* v)
{
    static char b[2][96]; static int k; k ^= 1;
    if (v->t <= BOOL) snprintf(b[k], sizeof b[k], "%s %s %llx", v->raw ? "raw" : "boxed", NAME[v->t], (unsigned long long)v->u);
    else snprintf(b[k], sizeof b[k], "%s %s of %zu bytes", v->raw ? "raw" : "boxed", NAME[v->t], v->n);
    return b[k];
}
static status wr(psock* s, const val* v)
{
#define W(T, n, c) case T: return v->raw ? psock_write_raw_##n(s, (c)v->u) : psock_write_boxed_##n(s, (c)v->u);
    switch (v->t)
    {
        W(I64, int64, int64_t) W(U64, uint64, uint64_t) W(I32, int32, int32_t) W(U32, uint32, uint32_t) W(I16, int16, int16_t) W(U16, uint16, uint16_t) W(I8, int8, int8_t) W(U8, uint8, uint8_t) W(BOOL, bool, bool)
        case STR: { char* z = mc_xmalloc(v->n + 1); memcpy(z, v->p, v->n); z[v->n] = 0; status r = psock_write_boxed_string(s, z); mc_xfree(z); return r; }
        default: { char* z = mc_xmalloc(v->n); memcpy(z, v->p, v->n); status r = v->raw ? psock_write_raw_data(s, z, v->n) : psock_write_boxed_data(s, z, v->n); mc_xfree(z); return r; }
    }
}
/* read a value of type t; *got is its value. A failure must leave the output alone. */
static status rd(psock* s, allocator* a, int t, bool raw, size_t rawn, val* got)
{
    status r; got->t = t; got->raw = raw; got->p = NULL; got->n = 0;
#define R(T, n, c) case T: { union { c v; uint8_t b[8]; } x, y; memset(&x, 0xA7, 8); y = x; if (T == BOOL) { x.v = 1; y.v = 1; } r = raw ? psock_read_raw_##n(s, &x.v) : psock_read_boxed_##n(s, &x.v); \
        if (r != STATUS_SUCCESS) MC_CHECK(!memcmp(&x, &y, 8), "output-changed", "a failed read of a " #n " changed its output"); \
        else MC_CHECK(!memcmp(x.b + sizeof(c), y.b + sizeof(c), 8 - sizeof(c)), "output-size", "reading a " #n " wrote more than its size"); \
        got->u = (uint64_t)x.v & mask(T); return r; }
    switch (t)
    {
        R(I64, int64, int64_t) R(U64, uint64, uint64_t) R(I32, int32, int32_t) R(U32, uint32, uint32_t) R(I16, int16, int16_t) R(U16, uint16, uint16_t) R(I8, int8, int8_t) R(U8, uint8, uint8_t) R(BOOL, bool, bool)
        default:
        {
            char* p = bigbuf; size_t n = 12345; long l0 = mc_mem_live();
            r = t == STR ? psock_read_boxed_string(s, a, &p, &n) : raw ? psock_read_raw_data(s, a, (void**)&p, rawn) : psock_read_boxed_data(s, a, (void**)&p, &n);
            if (r != STATUS_SUCCESS)
            {
                MC_CHECK(p == bigbuf && n == 12345, "output-changed", "a failed read of a %s changed its output", NAME[t]);
                MC_CHECK(mc_mem_live() == l0, "leak", "a failed read of a %s leaked memory", NAME[t]);
                return r;
            }
            MC_CHECK(mc_mem_is_live(p) && mc_mem_live() == l0 + 1, "output", "the %s read is not one block of its own", NAME[t]);
            got->p = p; got->n = raw ? rawn : n;
            if (t == STR) MC_CHECK(p[n] == 0, "terminator", "the string read is not terminated");
            return r;
        }
    }
}
static void drop(allocator* a, val* g) { if (g->p) { MC_CHECK(allocator_reclaim(a, (void*)g->p) == STATUS_SUCCESS, "reclaim", "reclaim"); g->p = NULL; } }
static bool same(const val* a, const val* b) { return a->t <= BOOL ? a->u == b->u : a->n == b->n && !memcmp(a->p, b->p, a->n); }

/* ---- the stream below ---- */
static struct { const uint8_t* in; size_t n, off; int segmode, budget; int reads, fail_read; uint8_t out[2 * HUGE_N]; size_t outn; int writes, wmode; bool closed; long opens; bool eof_is_error; } ST;
static size_t seg(size_t m)
{
    if (m <= 1 || ST.segmode == 0) return m;
    if (ST.segmode == 1 && m <= 12) return m - (size_t)mc_choose((int)m, "bytes missing from this read");
    if (ST.budget <= 0) return m;
    int k = mc_choose(m > 2 ? 4 : 2, "read is short"); if (k) --ST.budget;
    return k == 0 ? m : k == 1 ? 1 : k == 2 ? m - 1 : (m + 1) / 2;
}
static bool noread(void) { return ST.fail_read >= 0 && ST.reads++ == ST.fail_read; }
#define FD 1000001
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); int __real_close(int); int __real_getsockopt(int, int, int, void*, socklen_t*);
ssize_t __wrap_read(int fd, void* p, size_t n)
{
    if (fd != FD) return __real_read(fd, p, n);
    MC_CHECK(!ST.closed, "use-after-close", "read from a closed descriptor");
    if (noread()) { errno = EIO; return -1; }
    size_t k = ST.n - ST.off; if (k > n) k = n; k = seg(k); if (k) memcpy(p, ST.in + ST.off, k); ST.off += k; return (ssize_t)k;
}
static size_t wseg(size_t n)      /* how much of a write is taken; SIZE_MAX: error. */
{
    if (ST.wmode == 0 || ST.budget <= 0 || n == 0) return n;
    int k = mc_choose(n > 2 ? 5 : n > 1 ? 4 : 3, "write is short"); if (k) --ST.budget;
    return k == 0 ? n : k == 1 ? SIZE_MAX : k == 2 ? 0 : k == 3 ? 1 : n - 1;
}
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
    if (fd != FD) return __real_write(fd, p, n);
    MC_CHECK(!ST.closed, "use-after-close", "write to a closed descriptor");
    size_t k = wseg(n); if (k == SIZE_MAX) { errno = EPIPE; return -1; }
    if (k) memcpy(ST.out + ST.outn, p, k); ST.outn += k; return (ssize_t)k;
}
int __wrap_close(int fd) { if (fd != FD) return __real_close(fd); MC_CHECK(!ST.closed, "double-close", "the descriptor was closed twice"); ST.closed = true; return 0; }
int __wrap_getsockopt(int fd, int l, int o, void* v, socklen_t* n)
{ if (fd != FD) return __real_getsockopt(fd, l, o, v, n); *(int*)v = SOCK_STREAM; *n = sizeof(int); return 0; }
static status u_read(psock* s, void* ctx, void* p, size_t* n, bool block)
{
    (void)s; MC_CHECK(ctx == &ST, "context", "a user method got the wrong context");
    if (noread()) return ERROR_PSOCK_READ_GENERAL;
    size_t k = ST.n - ST.off; if (k == 0 && ST.eof_is_error && *n) return ERROR_PSOCK_READ_EOF;
    if (k > *n) k = *n; if (!block) k = seg(k);
    if (k) memcpy(p, ST.in + ST.off, k); ST.off += k; *n = k; return STATUS_SUCCESS;
}
static status u_write(psock* s, void* ctx, const void* p, size_t* n)
{
    (void)s; MC_CHECK(ctx == &ST, "context", "a user method got the wrong context");
    size_t k = wseg(*n); if (k == SIZE_MAX) return ERROR_PSOCK_WRITE_GENERAL;
    if (k) memcpy(ST.out + ST.outn, p, k); ST.outn += k; *n = k; return STATUS_SUCCESS;
}
static status u_release(psock* s, void* ctx) { (void)s; MC_CHECK(ctx == &ST, "context", "the release method got the wrong context"); MC_CHECK(!ST.closed, "double-release", "the user release method ran twice"); ST.closed = true; return STATUS_SUCCESS; }
RCPR_VTABLE psock_vtable u_vtable = { .hdr = { NULL }, .read_fn = &u_read, .write_fn = &u_write, .release_fn = &u_release };

enum { BUFFER, DESC, USER, BR_DESC, BR_USER, NB };
static const char* BNAME[NB] = { "buffer", "descriptor", "user methods", "buffered reader over a descriptor", "buffered reader over user methods" };
static allocator* A; static psock* under; static psock_br* br;
static psock* open_in(int b, const uint8_t* in, size_t n)
{
    psock* s = NULL; ST.in = in; ST.n = n; ST.off = 0; ST.reads = 0; ST.closed = false; under = NULL; br = NULL;
    status r = b == BUFFER ? psock_create_from_buffer(&s, A, (const char*)in, n)
             : b == DESC || b == BR_DESC ? psock_create_from_descriptor(&s, A, FD) : psock_create_from_user_methods(&s, A, &ST, &u_vtable);
    MC_CHECK(r == STATUS_SUCCESS && s, "create", "create over %s: %x", BNAME[b], (unsigned)r);
    under = s;
    if (b >= BR_DESC)
    {
        r = psock_br_create_from_psock(&br, A, s); MC_CHECK(r == STATUS_SUCCESS && br, "create", "create a buffered reader: %x", (unsigned)r);
        s = psock_br_psock_adapter(br);
    }
    return s;
}
static void shut(int b)
{
    if (br) { MC_CHECK(resource_release(psock_br_resource_handle(br)) == STATUS_SUCCESS, "release", "release"); MC_CHECK(!ST.closed, "ownership", "the buffered reader released the psock it does not own"); }
    MC_CHECK(resource_release(psock_resource_handle(under)) == STATUS_SUCCESS, "release", "release");
    MC_CHECK(b == BUFFER || ST.closed, "not-closed", "releasing the psock did not close what it owns");
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks leaked", mc_mem_live());
}
static void begin(void) { mc_mem_begin(); A = fa_init(); fa_cap = 1 << 20; memset(&ST, 0, offsetof(typeof(ST), out)); ST.fail_read = -1; ST.outn = 0; ST.wmode = 0; ST.closed = false; ST.eof_is_error = false; }

/* encode through each writer and compare with the reference bytes. */
static size_t encode(const val* v, int nvals, uint8_t* bytes)
{
    size_t n = 0; for (int i = 0; i < nvals; ++i) n += enc(bytes + n, &v[i]);
    for (int b = 0; b < 3; ++b)
    {
        psock* s = NULL; ST.closed = false; ST.outn = 0; status r;
        r = b == 0 ? psock_create_from_buffer(&s, A, NULL, 0) : b == 1 ? psock_create_from_descriptor(&s, A, FD) : psock_create_from_user_methods(&s, A, &ST, &u_vtable);
        MC_CHECK(r == STATUS_SUCCESS, "create", "create: %x", (unsigned)r);
        for (int i = 0; i < nvals; ++i) { r = wr(s, &v[i]); MC_CHECK(r == STATUS_SUCCESS, "write", "writing %s over %s: %x", show(&v[i]), BNAME[b], (unsigned)r); }
        const uint8_t* got = ST.out; size_t gn = ST.outn; void* q = NULL;
        if (b == 0) { r = psock_from_buffer_get_output_buffer(s, A, &q, &gn); MC_CHECK(r == STATUS_SUCCESS, "output-buffer", "%x", (unsigned)r); got = q; }
        MC_CHECK(gn == n, "encoding", "%s was written over %s as %zu bytes, not %zu", show(&v[0]), BNAME[b], gn, n);
        for (size_t i = 0; i < n; ++i) MC_CHECK(got[i] == bytes[i], "encoding", "%s was written over %s with byte %zu %02x, not %02x", show(&v[0]), BNAME[b], i, got[i], bytes[i]);
        if (q) MC_CHECK(allocator_reclaim(A, q) == STATUS_SUCCESS, "reclaim", "reclaim");
        MC_CHECK(resource_release(psock_resource_handle(s)) == STATUS_SUCCESS, "release", "release"); mc_step();
    }
    MC_CHECK(mc_mem_live() == 0, "leak", "writing leaked %ld blocks", mc_mem_live());
    return n;
}
static uint8_t bytes[2 * HUGE_N];
static void decode(int b, const val* v, int nvals, size_t n)
{
    psock* s = open_in(b, bytes, n); val g;
    for (int i = 0; i < nvals; ++i)
    {
        status r = rd(s, A, v[i].t, v[i].raw, v[i].n, &g);
        MC_CHECK(r == STATUS_SUCCESS, "read", "reading %s over a %s: %x", show(&v[i]), BNAME[b], (unsigned)r);
        MC_CHECK(same(&g, &v[i]), "value", "%s written, %s read over a %s", show(&v[i]), show(&g), BNAME[b]);
        drop(A, &g); mc_step();
    }
    int t = mc_choose(2, "read past the end") ? U8 : STR;
    status r = rd(s, A, t, t == U8, 0, &g); MC_CHECK(r != STATUS_SUCCESS, "past-the-end", "a %s was read past the end of a %s", NAME[t], BNAME[b]);
    mc_state(mc_hash(mc_hash(mc_hash((uint64_t)(v - V), (uint64_t)b), ST.off), (uint64_t)v[0].u)); shut(b);
}
static int NPAIR;
void mc_setup(void) { values(); NPAIR = nv * nv; }
/* mode 0: nv menu values x backings, then exhaustive 8/16 bit types. */
static void single(int sc)
{
    begin();
    if (sc < nv * NB)
    {
        const val* v = &V[sc / NB]; int b = sc % NB; mc_trace("%s over %s", show(v), BNAME[b]);
        size_t n = encode(v, 1, bytes); ST.segmode = 1; ST.budget = mc_bound; ST.eof_is_error = b == USER && mc_choose(2, "the end is an error"); decode(b, v, 1, n); return;
    }
    sc -= nv * NB; int t = I16 + sc / 2; bool raw = sc & 1; ST.segmode = 0;
    if (t > BOOL) return;
    for (uint64_t u = 0; u <= mask(t); ++u)
    {
        val v = { t, raw, u, NULL, 0 }, g; size_t n = enc(bytes, &v); ST.closed = false; ST.outn = 0; psock* s = NULL;
        MC_CHECK(psock_create_from_user_methods(&s, A, &ST, &u_vtable) == STATUS_SUCCESS, "create", "create");
        MC_CHECK(wr(s, &v) == STATUS_SUCCESS && ST.outn == n && !memcmp(ST.out, bytes, n), "encoding", "%s", show(&v));
        ST.in = bytes; ST.n = n; ST.off = 0;
        MC_CHECK(rd(s, A, t, raw, 0, &g) == STATUS_SUCCESS && same(&g, &v), "value", "%s", show(&v));
        MC_CHECK(resource_release(psock_resource_handle(s)) == STATUS_SUCCESS, "release", "release"); mc_step(); mc_state(u * 64 + (uint64_t)t * 2 + raw);
    }
}
static void pair(int sc)
{
    begin(); val v[2] = { V[sc / nv], V[sc % nv] }; int b = mc_choose(NB, "backing");
    mc_trace("%s then %s over %s", show(&v[0]), show(&v[1]), BNAME[b]);
    size_t n = encode(v, 2, bytes); ST.segmode = 2; ST.budget = mc_bound;
    decode(b, v, 2, n);
}
static void bad(int sc)
{
    begin(); const val* v = &V[sc / NB]; int b = sc % NB; size_t n = enc(bytes, v); val g; status r; psock* s;
    int what = mc_choose(5, "defect"); ST.segmode = 2; ST.budget = 1; ST.eof_is_error = (b == USER || b == BR_USER) && what == 0 && mc_choose(2, "the end is an error");
    if (what == 0)
    {
        size_t cut; if (n <= 24) { if (n == 0) return; cut = (size_t)mc_choose((int)n, "truncated to"); }
        else { size_t C[] = { 0, 1, 3, 4, 5, 7, 8, 9, n - 1, n / 2, 4096 }; cut = C[mc_choose(11, "truncated to")]; }
        mc_trace("%s over %s, truncated to %zu of %zu bytes", show(v), BNAME[b], cut, n); mc_state(mc_hash((uint64_t)sc * 8, cut)); mc_nontrivial();
        s = open_in(b, bytes, cut); r = rd(s, A, v->t, v->raw, v->n, &g);
        MC_CHECK(r != STATUS_SUCCESS, "truncated", "%s was read from the first %zu of its %zu bytes over a %s", show(v), cut, n, BNAME[b]);
    }
    else if (what == 1)
    {
        if (v->raw) return;
        int t = mc_choose(NT, "type read"); if (t == v->t) return;
        mc_trace("%s over %s, read as %s", show(v), BNAME[b], NAME[t]); mc_state(mc_hash((uint64_t)sc * 8 + 1, (uint64_t)t)); mc_nontrivial();
        s = open_in(b, bytes, n); r = rd(s, A, t, false, 0, &g);
        MC_CHECK(r == ERROR_PSOCK_READ_BOXED_INVALID_TYPE, "wrong-type", "%s read as %s gave %x", show(v), NAME[t], (unsigned)r);
    }
    else if (what == 2)
    {
        if (v->raw || ST.budget == 0) return;
        ST.budget = 0; int k = mc_choose(4, "tag byte"), d = 1 + mc_choose(255, "changed by"); bytes[k] ^= (uint8_t)d;
        mc_trace("%s over %s, tag byte %d changed", show(v), BNAME[b], k); mc_state(mc_hash((uint64_t)sc * 8 + 2, (uint64_t)(k * 256 + d))); mc_nontrivial();
        s = open_in(b, bytes, n); r = rd(s, A, v->t, false, 0, &g);
        MC_CHECK(r == ERROR_PSOCK_READ_BOXED_INVALID_TYPE, "wrong-type", "%s with a wrong tag gave %x", show(v), (unsigned)r);
    }
    else if (what == 3)
    {
        if (v->raw) return;
        uint32_t m[] = { (uint32_t)v->n + 1, UINT32_MAX, UINT32_MAX - 1, 0x80000000u, 0x7FFFFFFF, 0x10000, (uint32_t)v->n - 1 };
        if (v->t < STR) return;
        int k = mc_choose(7, "declared size"); if (k == 6 && v->n == 0) return;
        be(bytes + 4, m[k], 4); mc_trace("%s over %s, declared size %x", show(v), BNAME[b], m[k]); mc_state(mc_hash((uint64_t)sc * 8 + 3, (uint64_t)k)); mc_nontrivial();
        s = open_in(b, bytes, n); r = rd(s, A, v->t, false, 0, &g);
        if (k == 6) { val w = *v; w.n = v->n - 1; MC_CHECK(r == STATUS_SUCCESS && same(&g, &w), "declared-size", "a smaller declared size gave %x", (unsigned)r); drop(A, &g); }
        else MC_CHECK(r != STATUS_SUCCESS, "declared-size", "%s was read with declared size %x", show(v), m[k]);
        if (k == 1 && v->t == STR) MC_CHECK(r == ERROR_PSOCK_READ_BOXED_INVALID_SIZE, "declared-size", "a string of the maximum size gave %x", (unsigned)r);
    }
    else
    {
        int k = mc_choose(8, "failure"); mc_trace("%s over %s, %s %d fails", show(v), BNAME[b], k < 4 ? "read" : "allocation", k % 4);
        s = open_in(b, bytes, n); if (k < 4) { if (b == BUFFER) { shut(b); return; } ST.fail_read = k; } else mc_mem_fail_at(k - 4);
        int r0 = ST.reads; (void)r0; r = rd(s, A, v->t, v->raw, v->n, &g); mc_mem_fail_at(-1);
        bool failed = k < 4 ? ST.reads > k : mc_mem_failures() > 0; mc_state(mc_hash((uint64_t)sc * 8 + 4, (uint64_t)k)); if (failed) mc_nontrivial();
        if (failed && (k >= 4 || b == DESC || b == USER)) MC_CHECK(r != STATUS_SUCCESS, "failure-lost", "%s was read although %s %d failed", show(v), k < 4 ? "read" : "allocation", k % 4);
        if (r == STATUS_SUCCESS) { MC_CHECK(same(&g, v), "value", "%s written, %s read", show(v), show(&g)); drop(A, &g); }
        else MC_CHECK(failed, "read", "reading %s: %x", show(v), (unsigned)r);
        if (k >= 4 && failed) MC_CHECK(r == ERROR_GENERAL_OUT_OF_MEMORY, "oom-status", "without memory: %x", (unsigned)r);
    }
    mc_step(); shut(b);
}
static void badwrite(int sc)
{
    begin(); val v[2] = { V[sc / 2], { U16, true, 0x1234, NULL, 0 } }; int b = sc % 2; size_t n = 0; status r = STATUS_SUCCESS; psock* s = NULL;
    ST.wmode = 1; ST.budget = mc_bound;
    MC_CHECK((b == 0 ? psock_create_from_descriptor(&s, A, FD) : psock_create_from_user_methods(&s, A, &ST, &u_vtable)) == STATUS_SUCCESS, "create", "create");
    for (int i = 0; i < 2; ++i)
    {
        size_t n0 = n; n += enc(bytes + n, &v[i]); int b0 = ST.budget; r = wr(s, &v[i]);
        mc_trace("write %s: %x, %zu of %zu bytes written", show(&v[i]), (unsigned)r, ST.outn - n0, n - n0);
        MC_CHECK(ST.outn <= n && !memcmp(ST.out, bytes, ST.outn), "corrupt-write", "the bytes written are not those of %s", show(&v[i]));
        if (r == STATUS_SUCCESS) MC_CHECK(ST.outn == n, "short-write", "writing %s succeeded with %zu of %zu bytes written", show(&v[i]), ST.outn - n0, n - n0);
        else { mc_nontrivial(); MC_CHECK(ST.budget < b0, "write", "writing %s: %x", show(&v[i]), (unsigned)r); break; }
        mc_step();
    }
    mc_state(mc_hash(mc_hash((uint64_t)sc, ST.outn), (uint64_t)r));
    MC_CHECK(resource_release(psock_resource_handle(s)) == STATUS_SUCCESS && ST.closed, "release", "release");
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks leaked", mc_mem_live());
}
/* a long value, followed by a short one. */
static void longs(int sc)
{
    begin(); int b = sc % NB; size_t n = LEN[sc / NB]; int k = mc_choose(3, "kind of value");
    val v[2] = { { k ? DATA : STR, k == 2, 0, bigbuf, n }, { U16, true, 0x1234, NULL, 0 } };
    mc_trace("%s, then %s over %s", show(&v[0]), show(&v[1]), BNAME[b]);
    size_t m = encode(v, 2, bytes); ST.segmode = 2; ST.budget = mc_bound; decode(b, v, 2, m);
}
int mc_scenarios(void) { return mc_mode == 4 ? NLEN * NB : mc_mode == 0 ? nv * NB + 2 * 5 : mc_mode == 1 ? NPAIR : mc_mode == 2 ? nv * NB : nv * 2; }
void mc_run(int sc) { if (mc_mode == 0) single(sc); else if (mc_mode == 1) pair(sc); else if (mc_mode == 2) bad(sc); else if (mc_mode == 4) longs(sc); else badwrite(sc); }
