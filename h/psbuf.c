/*
 * mode 0: buffered readers over every short input and every segmentation of it
 *         into reads, under every sequence of read operations up to mc_bound.
 * mode 1: the same around the size of the internal buffer.
 * mode 2: in-memory output: every sequence of writes around the block size, with
 *         each allocation failing.
 * mode 3: in-memory input: every sequence of reads.
 * mode 4, 5: as 0 and 1, where up to one read finds nothing there yet.
 * mode 6: in-memory output: many writes of one size, one of another.
 * mode 7: in-memory input: long inputs.
 */
#include "common.h"
#include <rcpr/psock.h>
RCPR_IMPORT_psock;
const char* mc_name = "psbuf";
static struct { const uint8_t* in; size_t n, off; int mode, budget; int eof; int again; size_t ask; } ST;
static uint8_t data[700000], outb[80000 + 64]; static int nagain;
static status u_read(psock* s, void* ctx, void* p, size_t* n, bool block)
{
    (void)s; (void)block; if (ctx != &ST) mc_fail("context", "wrong context");
    size_t k = ST.n - ST.off; if (k == 0) { if (ST.eof) return ERROR_PSOCK_READ_EOF; *n = 0; return STATUS_SUCCESS; }
    if (k > *n) k = *n;
    if (*n > ST.ask) ST.ask = *n;     /* the reader can keep at least what it asks for. */
    if (k == 0) return STATUS_SUCCESS;
    if (ST.again > 0 && mc_choose(2, "nothing is there yet")) { --ST.again; ++nagain; mc_nontrivial(); mc_trace("nothing is there yet"); *n = 0; return ERROR_PSOCK_READ_WOULD_BLOCK; }
    if (ST.mode == 0 && k > 1) k -= (size_t)mc_choose((int)k, "bytes missing from this read");
    else if (ST.mode == 1 && ST.budget > 0 && k > 2) { int c = mc_choose(4, "read is short"); if (c) { --ST.budget; k = c == 1 ? 1 : c == 2 ? k - 1 : k / 2; } }
    memcpy(p, ST.in + ST.off, k); ST.off += k; *n = k; return STATUS_SUCCESS;
}
static status u_write(psock* s, void* ctx, const void* p, size_t* n) { (void)s; (void)ctx; (void)p; (void)n; return ERROR_PSOCK_WRITE_GENERAL; }
static status u_release(psock* s, void* ctx) { (void)s; (void)ctx; return STATUS_SUCCESS; }
RCPR_VTABLE psock_vtable u_vtable = { .hdr = { NULL }, .read_fn = &u_read, .write_fn = &u_write, .release_fn = &u_release };
static allocator* A; static psock* under; static psock_br* br; static psock* bs;
static size_t pos;                                  /* the reference's position in the input. */

static void line(size_t cap)
{
    size_t len = 0, left = ST.n - pos, size = cap; int a0 = nagain; while (len < left && ST.in[pos + len] != '\n') ++len;
    bool nl = len < left; memset(outb, 0xD7, cap + 32);
    status r = psock_br_read_line(outb, &size, br);
    mc_trace("line into %zu bytes: %x, size %zu", cap, (unsigned)r, size);
    for (size_t i = cap; i < cap + 32; ++i) MC_CHECK(outb[i] == 0xD7, "overrun", "a line read wrote past its buffer of %zu bytes", cap);
    if (cap <= 1) { MC_CHECK(r == ERROR_PSOCK_BR_READ_LINE_BUFFER_SIZE_TOO_SMALL, "small-buffer", "a buffer of %zu bytes gave %x", cap, (unsigned)r); return; }
    if (left == 0) { MC_CHECK(r != STATUS_SUCCESS && r != ERROR_PSOCK_BR_READ_LINE_TRUNCATED, "line-at-end", "a line was read at the end: %x", (unsigned)r); return; }
    if (r == ERROR_PSOCK_READ_WOULD_BLOCK) { MC_CHECK(nagain > a0 && size == cap, "line", "reading a line of %zu bytes into a buffer of %zu would block, size %zu", len, cap, size); return; }
    if (r == ERROR_PSOCK_BR_READ_LINE_TRUNCATED && nagain > a0 && size > ST.ask && size < cap - 1)
    {
        /* what is there is more than the reader could keep. */
        MC_CHECK(size <= len && !memcmp(outb, ST.in + pos, size) && outb[size] == 0, "truncated", "a truncated line differs from the input");
        pos += size; return;
    }
    if (r == STATUS_SUCCESS)
    {
        MC_CHECK(len <= cap - 1, "line", "a line of %zu bytes was read into a buffer of %zu", len, cap);
        MC_CHECK(!memcmp(outb, ST.in + pos, len) && outb[len] == 0, "line", "the line read differs from the input");
        MC_CHECK(size == len + 1, "line-size", "a line of %zu bytes gave size %zu", len, size);
        pos += len + nl;
    }
    else
    {
        MC_CHECK(r == ERROR_PSOCK_BR_READ_LINE_TRUNCATED, "line", "reading a line of %zu bytes into a buffer of %zu: %x", len, cap, (unsigned)r);
        MC_CHECK(len > cap - 1 || !nl || ST.off <= pos + len, "truncated", "a line of %zu bytes, with its end already there, was truncated by a buffer of %zu", len, cap);
        MC_CHECK(len >= cap - 1, "truncated", "a line of %zu bytes was truncated by a buffer of %zu", len, cap);
        MC_CHECK(!memcmp(outb, ST.in + pos, cap - 1) && outb[cap - 1] == 0, "truncated", "a truncated line differs from the input");
        MC_CHECK(size == cap - 1, "line-size", "a truncated line gave size %zu of %zu", size, cap);
        pos += cap - 1;
    }
}
static void raw(size_t cap)
{
    size_t left = ST.n - pos, size = cap; int a0; memset(outb, 0xD7, cap + 32); status r = (a0 = nagain, psock_read_raw(bs, outb, &size));
    mc_trace("raw read of up to %zu bytes: %x, size %zu", cap, (unsigned)r, size);
    if (left == 0 && (mc_mode == 3 || mc_mode == 7)) MC_CHECK(r == ERROR_PSOCK_READ_EOF, "mem-eof", "a raw read at the end of an in-memory input: %x", (unsigned)r);
    if (left == 0) { MC_CHECK(r != STATUS_SUCCESS || size == 0, "raw-at-end", "%zu bytes were read at the end", size); return; }
    if (r == ERROR_PSOCK_READ_WOULD_BLOCK) { MC_CHECK(nagain > a0 && size == 0 && ST.off == pos, "raw", "a raw read of up to %zu bytes would block, with %zu read and size %zu", cap, ST.off - pos, size); return; }
    MC_CHECK(r == STATUS_SUCCESS, "raw", "a raw read with %zu bytes left: %x", left, (unsigned)r);
    MC_CHECK(size >= 1 && size <= cap && size <= left, "raw", "a raw read of up to %zu bytes gave %zu", cap, size);
    MC_CHECK(!memcmp(outb, ST.in + pos, size), "raw", "the bytes read differ from the input");
    for (size_t i = size; i < cap + 32; ++i) if (i >= cap) MC_CHECK(outb[i] == 0xD7, "overrun", "a raw read wrote past its buffer");
    pos += size;
}
/* returns false when the position is no longer defined. */
static bool full(size_t n)
{
    void* p = outb; int a0 = nagain; status r = psock_read_raw_data(bs, A, &p, n); size_t left = ST.n - pos;
    mc_trace("read of %zu bytes: %x", n, (unsigned)r);
    if (nagain > a0) { MC_CHECK(r != STATUS_SUCCESS && p == outb, "data", "%zu bytes were read before they were there", n); return false; }
    if (n > left && left == 0 && (mc_mode == 3 || mc_mode == 7)) MC_CHECK(r == ERROR_PSOCK_READ_EOF, "mem-eof", "a read at the end of an in-memory input: %x", (unsigned)r);
    if (n > left) { MC_CHECK(r != STATUS_SUCCESS && p == outb, "data", "%zu bytes were read with %zu left", n, left); return false; }
    MC_CHECK(r == STATUS_SUCCESS && !memcmp(p, ST.in + pos, n), "data", "a read of %zu bytes with %zu left: %x", n, left, (unsigned)r);
    pos += n; MC_CHECK(allocator_reclaim(A, p) == STATUS_SUCCESS, "reclaim", "reclaim"); return true;
}
static bool word(void)
{
    uint16_t v = 0x5A5A; int a0 = nagain; status r = psock_read_raw_uint16(bs, &v); size_t left = ST.n - pos;
    mc_trace("read of a 16 bit value: %x", (unsigned)r);
    if (nagain > a0) { MC_CHECK(r != STATUS_SUCCESS && v == 0x5A5A, "word", "a 16 bit value was read before it was there"); return false; }
    if (left < 2) { MC_CHECK(r != STATUS_SUCCESS && v == 0x5A5A, "word", "a 16 bit value was read with %zu bytes left", left); return false; }
    MC_CHECK(r == STATUS_SUCCESS && v == (uint16_t)(ST.in[pos] << 8 | ST.in[pos + 1]), "word", "a 16 bit value was read as %04x: %x", v, (unsigned)r);
    pos += 2; return true;
}
static void start(void)
{
    mc_mem_begin(); A = fa_init(); pos = 0; ST.in = data; ST.off = ST.ask = 0; nagain = 0; ST.again = mc_mode == 4 || mc_mode == 5;
    MC_CHECK(psock_create_from_user_methods(&under, A, &ST, &u_vtable) == STATUS_SUCCESS, "create", "create");
    br = NULL; MC_CHECK(psock_br_create_from_psock(&br, A, under) == STATUS_SUCCESS && br, "create", "create");
    bs = psock_br_psock_adapter(br);
}
/* the rest, when it is known where that begins. */
static void drain(size_t step) { ST.again = ST.budget = 0; while (pos < ST.n) raw(step); raw(1); }
static void stop(void)
{
    MC_CHECK(resource_release(psock_br_resource_handle(br)) == STATUS_SUCCESS, "release", "release");
    MC_CHECK(resource_release(psock_resource_handle(under)) == STATUS_SUCCESS, "release", "release");
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks leaked", mc_mem_live());
}
static void small(int sc)
{
    int len = 0; while (sc >= 1 << len) { sc -= 1 << len; ++len; }
    static const uint8_t odd[] = { 0, '\r', 0xFF, 0x0B, 1, 0x80, ' ', 0x7F, 0 }; int v = mc_choose(sc == (1 << len) - 1 ? 2 : 3, "kind of input"); bool o = v == 2;
    for (int i = 0; i < len; ++i) data[i] = (sc >> i & 1) ? '\n' : o ? odd[i % 9] : (uint8_t)('a' + i);
    ST.n = (size_t)len; ST.mode = 0; ST.eof = v == 1;
    char t[32] = ""; for (int i = 0; i < len; ++i) t[i] = data[i] == '\n' ? '/' : o ? '?' : (char)data[i]; t[len] = 0; mc_trace("input %s", t);
    start(); static const size_t caps[] = { 2, 3, 4, 32, 1 }; bool ok = true;
    for (int step = 0; step < mc_bound; ++step)
    {
        int op = mc_choose(10, "operation"); ok = true;
        if (op < 5) line(caps[op]); else if (op == 5) raw(1); else if (op == 6) raw(3); else if (op == 7) ok = full(2); else if (op == 8) ok = word(); else ok = full(0) && full(5);
        mc_step(); mc_state(mc_hash(mc_hash((uint64_t)sc * 32 + (uint64_t)len, pos), ST.off));
        if (!ok) break;
    }
    if (ok) drain(7);
    stop();
}
static const size_t LN[] = { 300, 5000, 16383, 16384, 16385, 32767, 32768, 32769, 40000 };
static const long LP[] = { -1, 0, 1, 255, 256, 4095, 4096, 16381, 16382, 16383, 16384, 16385, 32766, 32767, 32768 };
enum { NLN = sizeof LN / sizeof *LN, NLP = sizeof LP / sizeof *LP };
static void large(int sc)
{
    ST.n = LN[sc % NLN]; long np = LP[sc / NLN]; if (np >= (long)ST.n) return;
    static bool filled; static long last = -1; if (last >= 0) data[last] = (uint8_t)('A' + (last * 7 + last / 251) % 50);
    for (size_t i = 0; !filled && i < 40000; ++i) data[i] = (uint8_t)('A' + (i * 7 + i / 251) % 50);
    filled = true; last = np; if (np >= 0) data[np] = '\n';
    ST.mode = 1; ST.budget = 1; ST.eof = 0; mc_trace("input of %zu bytes, line end at %ld", ST.n, np);
    start(); static const size_t caps[] = { 2, 300, 16384, 16385, 16386, 70000 }, raws[] = { 1, 16383, 16384, 16385, 20000 }; bool ok = true;
    for (int step = 0; step < mc_bound; ++step)
    {
        int op = mc_choose(14, "operation"); ok = true;
        if (op < 6) line(caps[op]); else if (op < 11) raw(raws[op - 6]); else if (op == 11) ok = word(); else if (op == 12) ok = full(16384); else ok = full(20000);
        mc_step(); mc_state(mc_hash(mc_hash((uint64_t)sc, pos), ST.off));
        if (!ok) break;
    }
    if (ok) drain(20000);
    stop();
}
static void mem_out(int sc)
{
    mc_mem_begin(); A = fa_init(); psock* s = NULL; size_t n = 0, poss = 0; bool clean = true;
    static const size_t sz[] = { 0, 1, 100, 2000, 4095, 4096, 4097, 8191, 8192, 8193, 10000 };
    MC_CHECK(psock_create_from_buffer(&s, A, NULL, 0) == STATUS_SUCCESS, "create", "create");
    for (int step = 0; step < mc_bound; ++step)
    {
        size_t k = sz[step == 0 ? sc : mc_choose(11, "size written")], done = k; int f = clean ? mc_choose(5, "allocation that fails") : 0;
        for (size_t i = 0; i < k; ++i) outb[i] = (uint8_t)(1 + (n + i) * 13 + (n + i) / 97);
        long f0 = mc_mem_failures(); if (f) mc_mem_fail_at(f - 1);
        status r = psock_write_raw_data(s, outb, k); mc_mem_fail_at(-1);
        mc_trace("write %zu bytes, allocation %d fails: %x", k, f - 1, (unsigned)r); (void)done;
        bool failed = mc_mem_failures() > f0; if (failed) mc_nontrivial();
        if (!failed) { MC_CHECK(r == STATUS_SUCCESS, "write", "writing %zu bytes: %x", k, (unsigned)r); }
        else MC_CHECK(r == ERROR_GENERAL_OUT_OF_MEMORY, "write-oom", "writing %zu bytes without memory: %x", k, (unsigned)r);
        if (r == STATUS_SUCCESS) { memcpy(data + n, outb, k); n += k; }
        /* read the contents back. */
        long l0 = mc_mem_live(); void* p = outb; size_t gn = 4242;
        mc_mem_fail_at(0); status q = psock_from_buffer_get_output_buffer(s, A, &p, &gn); mc_mem_fail_at(-1);
        MC_CHECK(q == ERROR_GENERAL_OUT_OF_MEMORY && p == outb && gn == 4242 && mc_mem_live() == l0, "output-oom", "reading the output without memory: %x", (unsigned)q);
        q = psock_from_buffer_get_output_buffer(s, A, &p, &gn); MC_CHECK(q == STATUS_SUCCESS, "output", "reading the output: %x", (unsigned)q);
        if (r != STATUS_SUCCESS)
        {
            /* a failed write may leave a prefix of its data behind. */
            MC_CHECK(gn >= n && gn <= n + k, "output", "%zu bytes after %zu written and a failed write of %zu", gn, n, k);
            memcpy(data + n, outb, gn - n); n = gn; clean = false;
        }
        MC_CHECK(gn == n, "output", "the output has %zu bytes, %zu were written", gn, n);
        for (size_t i = 0; i < n; ++i) MC_CHECK(((uint8_t*)p)[i] == data[i], "output", "byte %zu of %zu of the output differs", i, n);
        MC_CHECK(allocator_reclaim(A, p) == STATUS_SUCCESS && mc_mem_live() == l0, "output", "the output copy is not one block");
        mc_step(); poss = mc_hash(poss, k); mc_state(mc_hash(n, mc_mem_live()));
    }
    size_t one = 1; MC_CHECK(psock_read_raw(s, outb, &one) != STATUS_SUCCESS, "read-output", "an output buffer was read");
    MC_CHECK(resource_release(psock_resource_handle(s)) == STATUS_SUCCESS, "release", "release");
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks leaked", mc_mem_live());
}
static void mem_in(int sc)
{
    mc_mem_begin(); A = fa_init(); psock* s = NULL; size_t n = (size_t)sc, p = 0; char* src = mc_xmalloc(n);
    for (size_t i = 0; i < n; ++i) { src[i] = (char)(i * 31 + 1); data[i] = (uint8_t)src[i]; }
    MC_CHECK(psock_create_from_buffer(&s, A, src, n) == STATUS_SUCCESS, "create", "create");
    memset(src, 0, n); mc_xfree(src);                 /* the psock has a copy. */
    ST.in = data; ST.n = n; pos = 0; bs = s; mc_trace("input of %zu bytes", n);
    for (int step = 0; step < mc_bound; ++step)
    {
        static const size_t k[] = { 1, 2, 3, 7, 20 }; int op = mc_choose(11, "operation"); bool ok = true;
        if (op < 5) raw(k[op]); else if (op < 8) ok = full(k[op - 5]); else if (op == 8) ok = full(0); else if (op == 9) ok = word();
        else { MC_CHECK(psock_write_raw_uint8(s, 1) != STATUS_SUCCESS, "write-input", "an input buffer was written"); void* q = outb; size_t qn = 1; MC_CHECK(psock_from_buffer_get_output_buffer(s, A, &q, &qn) != STATUS_SUCCESS && q == outb, "output-of-input", "an input buffer has output"); }
        mc_step(); mc_state((uint64_t)n * 1000 + pos); if (!ok) break;
    }
    (void)p; MC_CHECK(resource_release(psock_resource_handle(s)) == STATUS_SUCCESS, "release", "release");
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks leaked", mc_mem_live());
}
static void out_is(psock* s, size_t n)
{
    void* p = outb; size_t gn = 4242; status q = psock_from_buffer_get_output_buffer(s, A, &p, &gn);
    MC_CHECK(q == STATUS_SUCCESS && gn == n && mc_mem_is_live(p), "output", "reading the output: %x, %zu bytes of %zu", (unsigned)q, gn, n);
    for (size_t i = 0; i < n; ++i) MC_CHECK(((uint8_t*)p)[i] == data[i], "output", "byte %zu of %zu of the output differs", i, n);
    MC_CHECK(allocator_reclaim(A, p) == STATUS_SUCCESS, "output", "the output copy is not one block");
}
static const size_t WS[] = { 1, 7, 100, 1000, 2048, 4095, 4096, 4097, 8192, 10000, 65536 }; static const int WC[] = { 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65 };
enum { NWS = sizeof WS / sizeof *WS, NWC = sizeof WC / sizeof *WC };
static void many_out(int sc)
{
    mc_mem_begin(); A = fa_init(); psock* s = NULL; size_t k = WS[sc % NWS], n = 0; int c = WC[sc / NWS]; if ((size_t)c * k > 600000) return;
    int at = mc_choose(3, "place of the other write") * (c - 1) / 2; size_t ok = WS[mc_choose(NWS, "size of the other write")]; bool peek = mc_choose(2, "the output is read after every write");
    MC_CHECK(psock_create_from_buffer(&s, A, NULL, 0) == STATUS_SUCCESS, "create", "create"); mc_trace("%d writes of %zu bytes, and one of %zu bytes after write %d", c, k, ok, at);
    for (int i = 0; i < c; ++i) for (int o = 0; o < 1 + (i == at); ++o)
    {
        size_t m = o ? ok : k; for (size_t j = 0; j < m; ++j) data[n + j] = outb[j] = (uint8_t)(1 + (n + j) * 13 + (n + j) / 97);
        status r = psock_write_raw_data(s, outb, m); MC_CHECK(r == STATUS_SUCCESS, "write", "write %d of %zu bytes: %x", i, m, (unsigned)r); n += m; mc_step(); if (peek && (i < 4 || i > c - 3)) out_is(s, n);
    }
    out_is(s, n); out_is(s, n); mc_state(mc_hash(n, (uint64_t)c));
    MC_CHECK(resource_release(psock_resource_handle(s)) == STATUS_SUCCESS, "release", "release"); MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks leaked", mc_mem_live());
}
static const size_t IN[] = { 31, 32, 33, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 70000 };
enum { NIN = sizeof IN / sizeof *IN };
static void long_in(int sc)
{
    mc_mem_begin(); A = fa_init(); psock* s = NULL; size_t n = IN[sc]; char* src = mc_xmalloc(n);
    for (size_t i = 0; i < n; ++i) { src[i] = (char)(i * 31 + 1 + i / 251); data[i] = (uint8_t)src[i]; }
    MC_CHECK(psock_create_from_buffer(&s, A, src, n) == STATUS_SUCCESS, "create", "create");
    memset(src, 0, n); mc_xfree(src); ST.in = data; ST.n = n; pos = 0; bs = s; nagain = 0; mc_trace("input of %zu bytes", n);
    for (int step = 0; step < mc_bound; ++step)
    {
        static const size_t k[] = { 1, 16, 255, 256, 257, 1000, 1024, 4096, 16384, 65535, 65536, 70001 }; int op = mc_choose(24, "operation"); bool ok = true;
        if (op < 12) raw(k[op]); else if (op < 23) ok = full(k[op - 12]); else ok = word();
        mc_step(); mc_state(mc_hash(n, pos)); if (!ok) break;
    }
    MC_CHECK(resource_release(psock_resource_handle(s)) == STATUS_SUCCESS, "release", "release"); MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks leaked", mc_mem_live());
}
void mc_setup(void) {}
int mc_scenarios(void) { if (mc_mode == 6) return NWS * NWC; if (mc_mode == 7) return NIN; if (mc_mode >= 4) return mc_mode == 4 ? (2 << mc_bound2) - 1 : NLN * NLP; return mc_mode == 0 ? (2 << mc_bound2) - 1 : mc_mode == 1 ? NLN * NLP : mc_mode == 2 ? 11 : 24; }
void mc_run(int sc) { switch (mc_mode) { case 0: case 4: small(sc); break; case 1: case 5: large(sc); break; case 6: many_out(sc); break; case 7: long_in(sc); break; case 2: mem_out(sc); break; default: mem_in(sc); } }
