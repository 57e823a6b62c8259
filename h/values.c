/*
 * Small value types, enumerated exhaustively.
 * mode 0: big integers.  mode 1: uuids.  mode 2: auto-reset triggers.  mode 3: stacks.
 * mode 4: big integers of a size around a power of two, or of the largest sizes there are.
 */
#include "common.h"
#include <sys/mman.h>
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/stack.h>
#include <rcpr/uuid.h>
#include "src/bigint/bigint_internal.h"
#include "src/stack/stack_internal.h"
RCPR_IMPORT_bigint; RCPR_IMPORT_uuid; RCPR_IMPORT_auto_reset_trigger; RCPR_IMPORT_stack;
const char* mc_name = "values";

/* ---- big integers ---- */
static void bigint_run(size_t size)
{
    mc_mem_begin(); fa_inst.reclaim_fail_at = -1;
    allocator* a = fa_init(); fa b; memset(&b, 0, sizeof b); resource_init(&b.hdr, &fa_vtable.hdr); b.reclaim_fail_at = -1;
    int failat = mc_choose(5, "allocation that fails (4: none)"), pat = mc_choose(4, "contents"), order = mc_choose(2, "original released first");
    int deep = mc_choose(2, "clone of a clone");
    bigint *i = (bigint*)&b, *j = (bigint*)&b, *k = NULL; if (failat < 4) mc_mem_fail_at(failat);
    mc_trace("create_zero(%zu bits), allocation %d fails", size, failat); mc_state((uint64_t)size * 64 + (uint64_t)(failat * 8 + pat * 2 + order));
    bool huge = size / 8 >= fa_cap; if (huge) { if (pat || order || deep) return; mc_nontrivial(); }
    status s = bigint_create_zero(&i, a, size);
    if (huge) { MC_CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY && i == NULL && mc_mem_live() == 0, "create-huge", "a size that cannot be had: status %x", (unsigned)s); return; }
    if (mc_mem_failures()) { mc_nontrivial(); MC_CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY && i == NULL && mc_mem_live() == 0, "create-oom", "without memory: status %x, pointer %p, %ld blocks", (unsigned)s, (void*)i, mc_mem_live()); return; }
    MC_CHECK(s == STATUS_SUCCESS && i, "create", "status %x", (unsigned)s);
    MC_CHECK(i->length >= size / 64 + (size % 64 != 0) && i->length <= size / 64 + 1, "size", "%zu words for %zu bits", i->length, size);
    MC_CHECK(!i->sign && mc_mem_is_live(i->array), "zero", "a new value is not zero");
    for (size_t n = 0; n < i->length; ++n) MC_CHECK(i->array[n] == 0, "zero", "word %zu of a new value is not zero", n);
    MC_CHECK(bigint_resource_handle(i) == &i->hdr, "handle", "handle"); mc_step();
    for (size_t n = 0; n < i->length; ++n) i->array[n] = pat == 0 ? 0 : pat == 1 ? ~0ULL : pat == 2 ? 0x0102030405060708ULL + n : 1ULL << (n % 64);
    i->sign = pat & 1;
    long l0 = mc_mem_live(); mc_trace("clone");
    s = bigint_clone(&j, (allocator*)&b, i);
    if (mc_mem_failures()) { mc_nontrivial(); MC_CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY && j == NULL && mc_mem_live() == l0, "clone-oom", "clone without memory: status %x, pointer %p", (unsigned)s, (void*)j); j = NULL; }
    else
    {
        MC_CHECK(s == STATUS_SUCCESS && j && j != i && j->array != i->array && mc_mem_is_live(j->array), "clone", "the clone shares storage");
        MC_CHECK(j->length == i->length && j->sign == i->sign && !memcmp(j->array, i->array, i->length * 8), "clone", "the clone differs"); mc_step();
        MC_CHECK(j->a == (allocator*)&b && i->a == a, "clone-allocator", "the clone does not use its own allocator");
        if (deep) { MC_CHECK(bigint_clone(&k, a, j) == STATUS_SUCCESS && k && k->a == a && k->array != j->array && !memcmp(k->array, i->array, i->length * 8), "clone", "the second clone differs"); }
        for (size_t n = 0; n < i->length; ++n) { i->array[n] ^= 0xFF; MC_CHECK(j->array[n] == (i->array[n] ^ 0xFF), "clone", "a change of the original reaches the clone"); i->array[n] ^= 0xFF; }
    }
    mc_mem_fail_at(-1);
    if (!order && j) { MC_CHECK(resource_release(bigint_resource_handle(j)) == STATUS_SUCCESS, "release", "release"); j = NULL; for (size_t n = 0; n < i->length; ++n) (void)*(volatile uint64_t*)&i->array[n]; }
    uint64_t want[16]; size_t wl = i->length < 16 ? i->length : 16; memcpy(want, i->array, wl * 8);
    MC_CHECK(resource_release(bigint_resource_handle(i)) == STATUS_SUCCESS, "release", "release");
    if (j) { MC_CHECK(!memcmp(want, j->array, wl * 8), "clone", "releasing the original changed the clone"); MC_CHECK(resource_release(bigint_resource_handle(j)) == STATUS_SUCCESS, "release", "release"); }
    if (k) { MC_CHECK(!memcmp(want, k->array, wl * 8), "clone", "releasing the original changed the clone"); MC_CHECK(resource_release(bigint_resource_handle(k)) == STATUS_SUCCESS, "release", "release"); }
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks leaked", mc_mem_live()); mc_step();
}

static void bigint_run_large(int scenario)
{
    /* the powers of two from 2^3 to 2^63, and what is left to the end. */
    int d = mc_choose(scenario == 61 ? 131 : 11, "near it"); size_t base = scenario == 61 ? SIZE_MAX - 130 : ((size_t)1 << (scenario + 3)) - 5;
    if (base / 8 > fa_cap / 16 && base / 8 < fa_cap + fa_cap / 8) return;    /* large ones that could be had. */
    bigint_run(base + (size_t)d);
}

/* ---- uuids ---- */
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool ref_parse(const unsigned char* s, size_t n, unsigned char* out)
{
    if (n != 36) return false;
    int nib = 0;
    for (size_t i = 0; i < 36; ++i)
    {
        if (i == 8 || i == 13 || i == 18 || i == 23) { if (s[i] != '-') return false; continue; }
        int v = hexv(s[i]); if (v < 0) return false;
        if (nib & 1) out[nib / 2] = (unsigned char)(out[nib / 2] << 4 | v); else out[nib / 2] = (unsigned char)v;
        ++nib;
    }
    return true;
}
static void uuid_check(const unsigned char* s, size_t n)
{
    unsigned char want[16]; bool ok = ref_parse(s, n, want);
    rcpr_uuid u; memset(&u, 0x5A, sizeof u);
    unsigned char* raw = mc_xmalloc(n ? n : 1); memcpy(raw, s, n);     /* exact size: no terminator. */
    status r = rcpr_uuid_parse_raw_string(&u, (char*)raw, n); mc_xfree(raw);
    if (ok) MC_CHECK(r == STATUS_SUCCESS && !memcmp(u.data, want, 16), "raw-parse", "a valid uuid: status %x", (unsigned)r);
    else { MC_CHECK(r == ERROR_UUID_PARSING_FAILED, "raw-parse", "an invalid uuid: status %x", (unsigned)r); for (int i = 0; i < 16; ++i) MC_CHECK(u.data[i] == 0x5A, "raw-parse-partial", "a failed parse changed byte %d", i); }
    mc_step();
    size_t zl = strnlen((const char*)s, n); ok = ref_parse(s, zl, want); memset(&u, 0x5A, sizeof u);
    char* z = mc_xmalloc(zl + 1); memcpy(z, s, zl); z[zl] = 0; r = rcpr_uuid_parse_string(&u, z); mc_xfree(z);
    if (ok) MC_CHECK(r == STATUS_SUCCESS && !memcmp(u.data, want, 16), "parse", "a valid uuid: status %x", (unsigned)r);
    else { MC_CHECK(r == ERROR_UUID_PARSING_FAILED, "parse", "an invalid uuid: status %x", (unsigned)r); for (int i = 0; i < 16; ++i) MC_CHECK(u.data[i] == 0x5A, "parse-partial", "a failed parse changed byte %d", i); }
    mc_step();
}
static void uuid_round(const rcpr_uuid* u)
{
    static const char hx[] = "0123456789abcdef"; char want[37]; int p = 0;
    for (int i = 0; i < 16; ++i) { if (i == 4 || i == 6 || i == 8 || i == 10) want[p++] = '-'; want[p++] = hx[u->data[i] >> 4]; want[p++] = hx[u->data[i] & 15]; } want[36] = 0;
    allocator* a = fa_init(); char* s = (char*)1; rcpr_uuid v; memset(&v, 0x5A, sizeof v); rcpr_uuid keep = *u;
    mc_mem_fail_at(0); status r = rcpr_uuid_to_string(&s, a, u); mc_mem_fail_at(-1);
    MC_CHECK(r == ERROR_GENERAL_OUT_OF_MEMORY && s == NULL, "to-string-oom", "without memory: %x", (unsigned)r);
    r = rcpr_uuid_to_string(&s, a, u); MC_CHECK(r == STATUS_SUCCESS && s && !strcmp(s, want), "to-string", "the text is wrong");
    MC_CHECK(rcpr_uuid_parse_string(&v, s) == STATUS_SUCCESS && !memcmp(&v, u, 16), "round-trip", "the text does not parse back"); memset(&v, 0x5A, sizeof v);
    MC_CHECK(rcpr_uuid_parse_raw_string(&v, s, 36) == STATUS_SUCCESS && !memcmp(&v, u, 16), "round-trip", "the text does not parse back");
    for (int i = 0; i < 36; ++i) if (s[i] >= 'a') s[i] = (char)(s[i] - 32);
    memset(&v, 0x5A, sizeof v); MC_CHECK(rcpr_uuid_parse_string(&v, s) == STATUS_SUCCESS && !memcmp(&v, u, 16), "case", "upper case does not parse");
    MC_CHECK(allocator_reclaim(a, s) == STATUS_SUCCESS && mc_mem_live() == 0 && !memcmp(&keep, u, 16), "leak", "leak"); mc_step();
}
static const char CH[] = "09afAF-gG/:@`{ +x\x80\xff";       /* and NUL, the last one. */
#define NCH ((int)sizeof CH)
static void uuid_run(int pos)
{
    mc_mem_begin(); static const char* bases[] = { "01234567-89ab-cdef-FEDC-BA9876543210", "ffffffff-0000-4a5B-8c9D-e0f1a2b3c4d5" };
    unsigned char s[48];
    if (pos < 36)
    {
        int which = mc_choose(2, "text"); memcpy(s, bases[which], 36); int c = mc_choose(256, "character"); s[pos] = (unsigned char)c;
        mc_state((uint64_t)(pos * 256 + c)); mc_trace("character %d of a uuid is %02x", pos, c);
        uuid_check(s, 36);
        /* and any second character also replaced. */
        for (int q = pos + 1; q < 36; ++q) for (int k = 0; k < NCH; ++k) { unsigned char t[48]; memcpy(t, s, 36); t[q] = (unsigned char)CH[k]; uuid_check(t, 36); mc_exec(); }
    }
    else if (pos == 36)
    {
        /* truncated, extended, repeated dashes. */
        int n = mc_choose(41, "length"), c = mc_choose(NCH, "what follows"); memset(s, CH[c], sizeof s); memcpy(s, bases[0], n < 36 ? (size_t)n : 36); mc_trace("length %d", n); uuid_check(s, (size_t)n);
        /* far too long. */
        static const size_t far[] = { 256, 65536 }; for (int k = 0; k < 2; ++k) { size_t m = (size_t)n + far[k]; unsigned char* z = mc_xmalloc(m); memset(z, CH[c], m); memcpy(z, bases[0], 36); uuid_check(z, m); mc_xfree(z); }
        MC_CHECK(rcpr_uuid_parse_string((rcpr_uuid*)s, NULL) == ERROR_UUID_PARSING_FAILED && rcpr_uuid_parse_raw_string((rcpr_uuid*)s, NULL, 36) == ERROR_UUID_PARSING_FAILED, "null", "no string");
    }
    else
    {
        rcpr_uuid u; int fill = mc_choose(3, "fill"), v = mc_choose(256, "byte"); memset(&u, fill == 0 ? 0 : fill == 1 ? 0xFF : 0x3C, 16); u.data[pos - 37] = (uint8_t)v; mc_trace("byte %d is %02x", pos - 37, v); mc_state((uint64_t)pos << 20 | (uint64_t)(fill * 256 + v));
        uuid_round(&u);
        for (int q = pos - 37 + 1; q < 16; ++q) for (int w = 0; w < 256; w += 15) { rcpr_uuid t = u; t.data[q] = (uint8_t)w; uuid_round(&t); mc_exec(); }
    }
}

/* ---- auto-reset triggers ---- */
/* listener k of trigger w: 0 and 2 are one function with two contexts, 1 another; one of them has no context. */
enum { NL = 6, NOCTX = 2 };
static int calls[NL]; static int lastcb;
/* a listener may use its trigger; what it does counts for later steps. */
static auto_reset_trigger* cbt[2]; static bool cbsig; static int cblis, cbdepth;
static void cb0(void*); static void cb1(void*);
static void cb(int k, void* c)
{
    int id = c ? *(int*)c : NOCTX; if ((id / 2 == 1) != k || (!c) != (id == NOCTX)) mc_fail("context", "a listener was called with another's context"); ++calls[id]; lastcb = id / 2; if (cbdepth++) mc_fail("nested", "a listener was called while it runs");
    int act = mc_choose(5, "what the listener does"); if (act) { mc_trace("the listener %s", act == 1 ? "signals" : act == 2 ? "registers again" : act == 3 ? "signals and registers again" : "steps the trigger"); mc_nontrivial(); }
    if (act == 1 || act == 3) { auto_reset_trigger_signal(cbt[id & 1]); cbsig = true; }
    if (act == 2 || act == 3) { MC_CHECK(auto_reset_trigger_register(cbt[id & 1], k ? &cb1 : &cb0, c) == STATUS_SUCCESS, "register-again", "a listener that was notified could not register again"); cblis = id; }
    if (act == 4) auto_reset_trigger_step(cbt[id & 1]);
    --cbdepth;
}
static void cb0(void* c) { cb(0, c); }
static void cb1(void* c) { cb(1, c); }
static int ctxs[NL] = { 0, 1, 2, 3, 4, 5 };
static void trigger_run(int scenario)
{
    mc_mem_begin(); allocator* a = fa_init(); auto_reset_trigger* t[2] = { (void*)a, (void*)a };
    mc_mem_fail_at(0); status s = auto_reset_trigger_create(&t[0], a); mc_mem_fail_at(-1);
    MC_CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY && t[0] == NULL && mc_mem_live() == 0, "create-oom", "creation without memory: %x", (unsigned)s);
    bool sig[2] = { false, false }; int lis[2] = { -1, -1 };
    for (int i = 0; i < 2; ++i) MC_CHECK(auto_reset_trigger_create(&t[i], a) == STATUS_SUCCESS && t[i], "create", "create");
    cbt[0] = t[0]; cbt[1] = t[1]; cbdepth = 0;
    memset(calls, 0, sizeof calls);
    for (int step = 0; step < mc_bound; ++step)
    {
        int op = step == 0 ? scenario : mc_choose(4 + NL, "operation"), w = op & 1, before[NL]; memcpy(before, calls, sizeof before); lastcb = -1;
        if (op < 2) { mc_trace("signal trigger %d", w); auto_reset_trigger_signal(t[w]); sig[w] = true; MC_CHECK(lastcb == -1, "early", "signal called the listener"); }
        else if (op < 4)
        {
            mc_trace("step trigger %d", w); cbsig = false; cblis = -1; auto_reset_trigger_step(t[w]);
            if (sig[w] && lis[w] >= 0) { ++before[lis[w]]; MC_CHECK(lastcb == lis[w] / 2, "lost", "the listener was not called"); sig[w] = cbsig; lis[w] = cblis; }
            else MC_CHECK(lastcb == -1, "spurious", "a listener was called without cause");
        }
        else
        {
            int k = op / 2 - 2; int id = w + 2 * k; mc_trace("register listener %d with trigger %d", k, w);
            s = auto_reset_trigger_register(t[w], k == 1 ? &cb1 : &cb0, id == NOCTX ? NULL : &ctxs[id]); MC_CHECK(lastcb == -1, "early", "register called the listener");
            if (lis[w] >= 0) MC_CHECK(s == ERROR_AUTO_RESET_TRIGGER_LISTENER_ALREADY_REGISTERED, "register-twice", "a second listener: status %x", (unsigned)s);
            else { MC_CHECK(s == STATUS_SUCCESS, "register", "register: status %x", (unsigned)s); lis[w] = id; }
        }
        MC_CHECK(!memcmp(before, calls, sizeof calls), "calls", "the wrong listener was called, or too often");
        mc_state((uint64_t)(sig[0] + 2 * sig[1] + 4 * (lis[0] + 1) + 64 * (lis[1] + 1))); mc_step();
    }
    for (int i = 0; i < 2; ++i) MC_CHECK(resource_release(auto_reset_trigger_resource_handle(t[i])) == STATUS_SUCCESS, "release", "release");
    MC_CHECK(mc_mem_live() == 0, "leak", "leak");
}

/* ---- stacks ---- */
static struct { char* p; size_t n; } maps[16]; static int nmaps; static bool mmap_fail; static int bad_unmap;
void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
void* __wrap_mmap(void* p, size_t n, int prot, int fl, int fd, off_t o)
{
    if (mmap_fail) return MAP_FAILED;
    void* r = __real_mmap(p, n, prot, fl, fd, o);
    if (r != MAP_FAILED) { maps[nmaps].p = r; maps[nmaps++].n = n; }
    return r;
}
int __wrap_munmap(void* p, size_t n)
{
    for (int i = 0; i < nmaps; ++i) if (maps[i].p == p) { if (((maps[i].n + 4095) | 4095) != ((n + 4095) | 4095)) break; maps[i] = maps[--nmaps]; return __real_munmap(p, n); }
    ++bad_unmap; return 0;
}
static void stack_run(int scenario)
{
    static const size_t sizes[] = { 1, 100, 4096, 4097, 16384, 65536, 1048576, 3000001, 8192, 16777217, 0, SIZE_MAX, (size_t)1 << 63, (size_t)1 << 60 }; enum { NSZ = 10, NALL = 14 };
    mc_mem_begin(); allocator* a = fa_init(); nmaps = 0; bad_unmap = 0; stack* live[4]; size_t ls[4]; int n = 0;
    for (int step = 0; step < mc_bound; ++step)
    {
        int op = step == 0 ? scenario : mc_choose(NALL + n, "operation");
        if (op >= NSZ && op < NALL) { stack* st = (stack*)a; long l0 = mc_mem_live(); int m0 = nmaps; status r = stack_create(&st, a, sizes[op]); mc_trace("create(%zu)", sizes[op]); MC_CHECK(r == ERROR_GENERAL_OUT_OF_MEMORY && st == NULL && mc_mem_live() == l0 && nmaps == m0, "create-impossible", "a stack of %zu bytes: status %x, pointer %p", sizes[op], (unsigned)r, (void*)st); mc_nontrivial(); }
        else if (op < NSZ && n < 4)
        {
            int f = mc_choose(3, "fault: none, memory, mapping"); stack* st = (stack*)a; long l0 = mc_mem_live(); int m0 = nmaps; mc_trace("create(%zu), fault %d", sizes[op], f);
            if (f == 1) mc_mem_fail_at(0);
            if (f == 2) mmap_fail = true;
            status s = stack_create(&st, a, sizes[op]); mc_mem_fail_at(-1); mmap_fail = false;
            if (f) { MC_CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY && st == NULL && mc_mem_live() == l0 && nmaps == m0, "create-fault", "a failed create: status %x, pointer %p", (unsigned)s, (void*)st); mc_nontrivial(); }
            else
            {
                MC_CHECK(s == STATUS_SUCCESS && st && st->region && st->size >= sizes[op], "create", "status %x", (unsigned)s);
                char* p = st->region; p[0] = 1; p[sizes[op] - 1] = 1; if (sizes[op] <= 16384) memset(p, 0x33, sizes[op]);
                for (int i = 0; i < n; ++i) { char* q = live[i]->region; MC_CHECK(p + sizes[op] <= q || q + ls[i] <= p, "overlap", "two stacks overlap"); }
                live[n] = st; ls[n++] = sizes[op];
            }
        }
        else if (op >= NALL)
        {
            int i = op - NALL; mc_trace("release stack %d", i); long l0 = mc_mem_live(); int m0 = nmaps;
            MC_CHECK(resource_release(stack_resource_handle(live[i])) == STATUS_SUCCESS, "release", "release failed");
            MC_CHECK(mc_mem_live() == l0 - 1 && nmaps == m0 - 1 && !bad_unmap, "release", "a release did not give back exactly what the stack had");
            live[i] = live[n - 1]; ls[i] = ls[--n];
            for (int k = 0; k < n; ++k) { char* q = live[k]->region; q[0] = 2; q[ls[k] - 1] = 2; }
        }
        else mc_discard();
        mc_state((uint64_t)n * 4096 + (uint64_t)op); mc_step();
    }
    while (n) { --n; MC_CHECK(resource_release(stack_resource_handle(live[n])) == STATUS_SUCCESS, "release", "release failed"); }
    MC_CHECK(mc_mem_live() == 0 && nmaps == 0, "leak", "%ld blocks, %d mappings leaked", mc_mem_live(), nmaps);
}

void mc_setup(void) {}
int mc_scenarios(void) { return mc_mode == 0 ? mc_bound + 1 : mc_mode == 4 ? 62 : mc_mode == 1 ? 36 + 1 + 16 : mc_mode == 2 ? 4 + NL : 14; }
void mc_run(int scenario) { switch (mc_mode) { case 0: bigint_run((size_t)scenario); break; case 4: bigint_run_large(scenario); break; case 1: uuid_run(scenario); break; case 2: trigger_run(scenario); break; default: stack_run(scenario); } }
