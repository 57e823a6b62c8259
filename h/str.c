/*
 * Every string up to a length over a small alphabet (blank, other white space,
 * letters, a byte above 127), against plain reference functions.
 * mode 0: trimming and chomp.  mode 1: words, multisplit, split.
 * mode 2: starts_with, ends_with, is_whitespace.  mode 3: strdup, strcatv.
 * modes 10 to 13: the same for long strings, a short string, then a unit repeated
 * up to a length around a power of two, then a short string; and for every character,
 * in every place of short strings.
 */
#include "common.h"
#include <rcpr/string.h>
RCPR_IMPORT_string_as(rcpr);
const char* mc_name = "str";
static const char AL[] = { ' ', '\n', 'a', 'b', (char)0xA0 };
#define NA 5
static bool ws(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static char* dup_exact(const char* s, size_t n) { char* p = mc_xmalloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
static size_t gen(char* s, int max, const char* what)
{ size_t n = 0; while ((int)n < max) { int c = mc_choose(NA + 1, what); if (c == NA) break; s[n++] = AL[c]; } s[n] = 0; return n; }
static unsigned tokmask; static char toknow;
static bool tokfn(int c) { for (int i = 0; i < NA; ++i) if ((char)c == AL[i]) return tokmask >> i & 1; if ((char)c == toknow) return tokmask >> NA & 1; mc_fail("token", "the token function was called with %d", c); }
static void show(const char* op, const char* s) { if (mc_verbose) { char b[256]; size_t l = 0; for (; *s && l < 240; ++s) l += (size_t)snprintf(b + l, 256 - l, *s > 32 && *s < 127 ? "%c" : "\\x%02x", (unsigned char)*s); b[l] = 0; mc_trace("%s \"%s\"", op, b); } }

static void check_seq(char* (*fetch)(void*, char*, status*), void* it, const char* orig, size_t n, bool (*sep)(int), const char* key)
{
    char* buf = dup_exact(orig, n); size_t pos = 0; bool first = true;
    for (;;)
    {
        while (pos < n && sep(orig[pos])) ++pos;
        size_t e = pos; while (e < n && !sep(orig[e])) ++e;
        status s; char* w = fetch(it, first ? buf : NULL, &s); first = false;
        if (pos == n) { MC_CHECK(s == ERROR_STRING_END_OF_INPUT && w == NULL, key, "end of input: status %x", (unsigned)s); break; }
        MC_CHECK(s == STATUS_SUCCESS, key, "status %x with input left", (unsigned)s);
        MC_CHECK(w == buf + pos && strlen(w) == e - pos && !memcmp(w, orig + pos, e - pos), key, "token at %zu has length %zu, expected %zu", (size_t)(w - buf), strlen(w), e - pos);
        pos = e; mc_step();
    }
    status s; char* w = fetch(it, NULL, &s);
    MC_CHECK(s == ERROR_STRING_END_OF_INPUT && w == NULL, key, "after the end of input: status %x", (unsigned)s);
    mc_xfree(buf);
}
static char* f_words(void* it, char* str, status* s) { const char* w = "x"; *s = rcpr_words(&w, it, str); return (char*)w; }
static char* f_multi(void* it, char* str, status* s) { const char* w = "x"; *s = rcpr_multisplit(&w, it, str, &tokfn); return (char*)w; }


static void trims(const char* s, size_t n)
{
    size_t l = 0, r = n; while (l < n && ws(s[l])) ++l; while (r > l && ws(s[r - 1])) --r;
    size_t rt = n; while (rt > 0 && ws(s[rt - 1])) --rt;
    show("trim", s);
    char* b = dup_exact(s, n); rcpr_left_trim(b); MC_CHECK(strlen(b) == n - l && !memcmp(b, s + l, n - l), "left-trim", "left_trim kept %zu of %zu characters", strlen(b), n); mc_xfree(b); mc_step();
    b = dup_exact(s, n); rcpr_right_trim(b); MC_CHECK(strlen(b) == rt && !memcmp(b, s, rt), "right-trim", "right_trim kept %zu of %zu characters", strlen(b), n); mc_xfree(b); mc_step();
    b = dup_exact(s, n); rcpr_trim(b); MC_CHECK(strlen(b) == r - l && !memcmp(b, s + l, r - l), "trim", "trim kept %zu of %zu characters", strlen(b), n); mc_xfree(b); mc_step();
    b = dup_exact(s, n); rcpr_chomp(b); size_t k = n ? n - 1 : 0; MC_CHECK(strlen(b) == k && !memcmp(b, s, k), "chomp", "chomp kept %zu of %zu characters", strlen(b), n); mc_xfree(b); mc_step();
}
static void split_at(const char* s, size_t n, int c)
{
    char* b = dup_exact(s, n); const char *lh = "q", *rh = "q"; status st = rcpr_split(&lh, &rh, b, c);
    const char* at = memchr(s, (char)c, n);
    if (!at) { MC_CHECK(st == ERROR_STRING_END_OF_INPUT && !lh && !rh, "split", "delimiter absent: status %x", (unsigned)st); MC_CHECK(!strcmp(b, s), "split", "a failed split changed the string"); }
    else MC_CHECK(st == STATUS_SUCCESS && lh == b && rh == b + (at - s) + 1 && strlen(lh) == (size_t)(at - s) && !strcmp(rh, at + 1), "split", "split at %td is wrong", at - s);
    mc_xfree(b); mc_step();
}
static void splits(const char* s, size_t n, bool all)
{
    show("split", s); RCPR_SYM(string_iterator) it; memset(&it, 0xEE, sizeof it);
    check_seq(&f_words, &it, s, n, &ws, "words");
    for (tokmask = 0; tokmask < (2u << NA); ++tokmask) if (all ? tokmask < (1u << NA) || toknow : (tokmask & (tokmask - 1)) == 0 || tokmask == (2u << NA) - 1) { memset(&it, 0xEE, sizeof it); check_seq(&f_multi, &it, s, n, &tokfn, "multisplit"); }
    for (int c = 0; c < NA; ++c) split_at(s, n, AL[c]);
    if (toknow) split_at(s, n, toknow);
}
static void starts(const char* s, size_t n, const char* t, size_t m)
{
    char *b = dup_exact(s, n), *c = dup_exact(t, m);
    MC_CHECK(rcpr_starts_with(b, c) == (m <= n && !memcmp(s, t, m)), "starts-with", "starts_with is wrong for lengths %zu, %zu", n, m); mc_step();
    MC_CHECK(!strcmp(b, s) && !strcmp(c, t), "const", "an argument was changed");
    mc_xfree(b); mc_xfree(c);
}
static void ends(const char* s, size_t n)
{
    char* b = dup_exact(s, n);
    int last = n ? s[n - 1] : 0;
    for (int ch = -128; ch < 128; ++ch) if (n < 1000 || ch == last || ch == (last ^ 1) || ch == (last ^ 0x20) || ch == -128 || ch == 0 || ch == 'a') MC_CHECK(rcpr_ends_with(b, ch) == (n > 0 && s[n - 1] == ch), "ends-with", "ends_with(%d) is wrong", ch);
    MC_CHECK(!strcmp(b, s), "const", "an argument was changed"); mc_xfree(b); mc_step();
}
static void copies(allocator* a, bool oom, const char* s, size_t n)
{
    char *b = dup_exact(s, n), *out = b; show("strdup", s);
    if (oom) mc_mem_fail_at(0);
    status st = rcpr_strdup(&out, a, b); mc_mem_fail_at(-1);
    if (oom) MC_CHECK(st == ERROR_GENERAL_OUT_OF_MEMORY && out == NULL, "strdup-oom", "strdup without memory: %x", (unsigned)st);
    else { MC_CHECK(st == STATUS_SUCCESS && out != b && mc_mem_is_live(out) && !strcmp(out, s), "strdup", "the copy differs"); memset(out, 1, n + 1); MC_CHECK(allocator_reclaim(a, out) == STATUS_SUCCESS, "reclaim", "reclaim"); }
    MC_CHECK(!strcmp(b, s), "const", "an argument was changed"); mc_xfree(b); mc_step();
}
enum { MAXCAT = 40 };
static void cats(allocator* a, bool oom, const char** v, int k)
{
    char* c[MAXCAT] = { NULL }; size_t total = 0; for (int i = 0; i < k; ++i) { c[i] = dup_exact(v[i], strlen(v[i])); total += strlen(v[i]); }
    char* want = mc_xmalloc(total + 1); size_t o = 0; for (int i = 0; i < k; ++i) { size_t l = strlen(v[i]); memcpy(want + o, v[i], l); o += l; } want[o] = 0;
    char* out = NULL; if (oom) mc_mem_fail_at(0);
#define C4(i) c[i], c[i + 1], c[i + 2], c[i + 3]
#define C16(i) C4(i), C4(i + 4), C4(i + 8), C4(i + 12)
    /* what follows the first NULL is not looked at. */
    status st = rcpr_strcatv(&out, a, C16(0), C16(16), C4(32), C4(36), NULL); mc_mem_fail_at(-1);
    if (oom) MC_CHECK(st == ERROR_GENERAL_OUT_OF_MEMORY && out == NULL, "strcat-oom", "strcatv without memory: %x", (unsigned)st);
    else { MC_CHECK(st == STATUS_SUCCESS && mc_mem_is_live(out) && !strcmp(out, want), "strcat", "the concatenation differs"); memset(out, 1, total + 1); MC_CHECK(allocator_reclaim(a, out) == STATUS_SUCCESS, "reclaim", "reclaim"); }
    for (int i = 0; i < k; ++i) { MC_CHECK(!strcmp(c[i], v[i]), "const", "an argument was changed"); mc_xfree(c[i]); }
    mc_xfree(want); mc_step();
}

/* ---- long strings ---- */
static const size_t LEN[] = { 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537 };
static const char* const UNIT[] = { " ", "\n", "a", "b", "\xA0", "a ", "ab", "\na" };
enum { NLEN = sizeof LEN / sizeof *LEN, NUNIT = 8 };
static size_t shorts(char* s, const char* what) { size_t n = 0; int k = mc_choose(1 + NA + (mc_bound > 1 ? NA * NA : 0), what); if (k > NA) { k -= NA + 1; s[n++] = AL[k / NA]; s[n++] = AL[k % NA]; } else if (k) s[n++] = AL[k - 1]; return n; }
static void each(const char* s, size_t n)
{
    mc_state(mc_hash_bytes((uint64_t)mc_mode + 1, s, n));
    if (mc_mode == 10) trims(s, n);
    else if (mc_mode == 11) splits(s, n, n < 4);
    else if (mc_mode == 12)
    {
        ends(s, n); char* t = dup_exact(s, n); starts(s, n, t, n);
        size_t cut[] = { n - 1, n / 2, n > 256 ? n - 256 : 0, 1, 0 };
        for (int i = 0; i < 5; ++i) { size_t k = cut[i]; if (k < n) { t[k] ^= 1; if (!t[k]) t[k] = 'z'; starts(s, n, t, n); t[k] = s[k]; char x = t[k]; t[k] = 0; starts(s, n, t, k); starts(t, k, s, n); t[k] = x; } }
        mc_xfree(t);
    }
    else
    {
        allocator* a = NULL; MC_CHECK(malloc_allocator_create(&a) == STATUS_SUCCESS, "setup", "allocator");
        copies(a, false, s, n); copies(a, true, s, n);
        const char* v[MAXCAT]; for (int k = 1; k <= 4; ++k) for (int i = 0; i < k; ++i) { for (int j = 0; j < k; ++j) v[j] = j == i ? s : j & 1 ? "" : "xy"; cats(a, false, v, k); }
        MC_CHECK(resource_release(allocator_resource_handle(a)) == STATUS_SUCCESS && mc_mem_live() == 0, "leak", "leak");
    }
}
static void many(void)
{
    allocator* a = NULL; MC_CHECK(malloc_allocator_create(&a) == STATUS_SUCCESS, "setup", "allocator");
    static const char* const M[] = { "", "a", "bc", "0123456789abcdef" }; const char* v[MAXCAT];
    int k = 1 + mc_choose(MAXCAT - 1, "number of strings"), e = mc_choose(4, "strings"), x = mc_choose(k + 1, "another one"), w = x < k ? mc_choose(4, "its text") : 0;
    for (int i = 0; i < k; ++i) v[i] = i == x ? M[w] : M[e]; mc_trace("concatenate %d strings", k);
    cats(a, false, v, k); MC_CHECK(resource_release(allocator_resource_handle(a)) == STATUS_SUCCESS && mc_mem_live() == 0, "leak", "leak");
}
static void run_long(int scenario)
{
    if (scenario == NLEN)
    {
        /* t: what stands for any character. */
        static const char* const T[] = { "t", "tt", "at", "ta", " t", "t ", "ata", "tat", " t ", "t t", "att", "tta", "t\na", "a\nt" };
        int c = 1 + mc_choose(255, "character"); char s[8]; const char* f = T[mc_choose(14, "form")]; size_t n = strlen(f); for (size_t i = 0; i <= n; ++i) s[i] = f[i] == 't' ? (char)c : f[i];
        toknow = memchr(AL, c, NA) ? 0 : (char)c; each(s, n); return;
    }
    if (scenario > NLEN) { many(); return; }
    char* s = mc_xmalloc(LEN[scenario] + 8); size_t n = shorts(s, "prefix"), m = LEN[scenario]; const char* u = UNIT[mc_choose(NUNIT, "unit")]; size_t ul = strlen(u);
    for (size_t i = 0; i < m; ++i) s[n++] = u[i % ul];
    n += shorts(s + n, "suffix"); s[n] = 0; toknow = 0; each(s, n); mc_xfree(s);
}

void mc_setup(void) {}
int mc_scenarios(void) { return mc_mode >= 10 ? NLEN + 1 + (mc_mode == 13) : 1 + NA * (NA + 1); }
void mc_run(int scenario)
{
    char s[64]; size_t n = 0;
    mc_mem_begin(); toknow = 0;
    if (mc_mode >= 10) { run_long(scenario); return; }
    /* the scenario is the first two characters. */
    if (scenario > 0)
    {
        int c0 = (scenario - 1) / (NA + 1), c1 = (scenario - 1) % (NA + 1); s[n++] = AL[c0];
        if (c1 < NA) { s[n++] = AL[c1]; n += gen(s + n, mc_bound - 2, "character"); }
    }
    s[n] = 0;
    mc_state(mc_hash_bytes((uint64_t)mc_mode + 1, s, n));
    if (mc_mode == 0) trims(s, n);
    else if (mc_mode == 1) splits(s, n, true);
    else if (mc_mode == 2)
    {
        char t[64]; size_t m = gen(t, mc_bound - 1, "substring character"); show("starts_with", s);
        starts(s, n, t, m);
        if (m == 0)
        {
            ends(s, n);
            if (n == 0) for (int ch = -512; ch < 1024; ++ch) MC_CHECK(rcpr_is_whitespace(ch) == ws(ch), "whitespace", "is_whitespace(%d) is wrong", ch);
            MC_CHECK(rcpr_starts_with(s, NULL) && !rcpr_starts_with(NULL, "a"), "starts-with", "starts_with with no string is wrong");
        }
    }
    else
    {
        allocator* a = NULL; MC_CHECK(malloc_allocator_create(&a) == STATUS_SUCCESS, "setup", "allocator");
        char t[2][64]; gen(t[0], mc_bound - 2, "second string"); gen(t[1], 1, "third string"); int args = 1 + mc_choose(3, "number of strings");
        bool oom = mc_choose(2, "memory runs out"); char x = 0, *b = &x;
        if (!n && !oom)
        {
            char* o = b; MC_CHECK(rcpr_strdup(NULL, a, "x") == ERROR_STRING_INVALID_PARAMETER && rcpr_strdup(NULL, NULL, NULL) == ERROR_STRING_INVALID_PARAMETER, "strdup-parameter", "strdup without an output");
            for (int k = 0; k < 3; ++k) { o = b; MC_CHECK(rcpr_strdup(&o, k == 1 ? a : NULL, k == 0 ? "x" : NULL) == ERROR_STRING_INVALID_PARAMETER && o == NULL, "strdup-parameter", "strdup without a string or an allocator"); }
        }
        copies(a, oom, s, n);
        const char* v[3] = { s, t[0], t[1] }; cats(a, oom, v, args);
        MC_CHECK(resource_release(allocator_resource_handle(a)) == STATUS_SUCCESS && mc_mem_live() == 0, "leak", "leak");
    }
}
