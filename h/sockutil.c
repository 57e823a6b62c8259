/*
 * Socket utilities on the virtual kernel.
 * mode 0: moving and mapping descriptors, bound: how many.   mode 1: closing, non-blocking, pairs.
 * mode 3: moving and mapping many descriptors.
 * mode 2: byte order, bound 1: 32-bit values of two arbitrary bytes, 2: all.
 */
#define _GNU_SOURCE
#include "common.h"
#include "vk.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <rcpr/socket_utilities.h>
RCPR_IMPORT_socket_utilities;
const char* mc_name = "sockutil";
int __wrap_dup2(int, int); int __wrap_fcntl(int, int, ...); int __wrap_close(int);
enum { LOW = 8 };
static int pos[16], id[16], npos;
static void open_at(int p) { int o[2]; vk_base = 300; vk_pair(SOCK_STREAM, o); __wrap_dup2(o[0], p); vk_drop(o[0]); vk_drop(o[1]); pos[npos] = p; id[npos++] = vk_file_id(p); }
static status mv(bool imp, int t, int n, int* v)
{
    int* a[4] = { &v[0], n > 1 ? &v[1] : NULL, n > 2 ? &v[2] : NULL, n > 3 ? &v[3] : NULL };
    return imp ? socket_utility_move_descriptors(t, a[0], a[1], a[2], a[3], (int*)NULL) : RCPR_SYM(socket_utility_move_descriptors)(t, a[0], a[1], a[2], a[3], (int*)NULL);
}
static void moving(int sc)
{
    bool map = sc & 1, imp = sc & 2, faulty = sc & 4; int n = 1 + mc_choose(mc_bound, "descriptors"), used[LOW] = { 0 }, v[5], m[5] = { -1, -1, -1, -1, -1 };
    for (int i = 0; i < n; ++i) { int k = mc_choose(LOW - i, "position"), p = 0; for (;; ++p) if (!used[p] && k-- == 0) break; used[p] = 1; open_at(v[i] = p); }
    int by = mc_choose(LOW + 1, "bystander"); if (by < LOW && used[by]) return; if (by < LOW) { used[by] = 1; open_at(by); } else by = -1;
    int thr = 0, bad = mc_choose(3, "bad argument"), badat = -1; int v0[5]; status r; int want = n;
    if (!map) { thr = mc_choose(LOW, "threshold"); if (bad == 1) thr = -1; else if (bad == 2) { badat = mc_choose(n, "which"); vk_drop(v[badat]); v[badat] = -1; } memcpy(v0, v, sizeof v); }
    else
    {
        int t[LOW] = { 0 };
        for (int i = 0; i < n; ++i)
        {
            int can[LOW], k = 0; for (int p = 0; p < LOW; ++p) { bool ok = !t[p]; for (int j = i + 1; j < n; ++j) ok = ok && v[j] != p; if (ok) can[k++] = p; }
            m[i] = can[mc_choose(k, "mapped to")]; t[m[i]] = 1;
        }
        if (bad == 1) m[n - 1] = -1; else if (bad == 2) n = want = 0;
        memcpy(v0, v, sizeof v); for (int i = n; i < 5; ++i) v0[i] = -1;
    }
    if (faulty) { vk_faults = 1; vk_fault_mask = 1u << VK_DUP2; }
    vk_all = true; int f0 = vk_nfailed;
    if (!map) r = mv(imp, thr, n, v);
    else r = imp ? socket_utility_setfds(v0[0], m[0], v0[1], m[1], v0[2], m[2], v0[3], m[3], -1) : RCPR_SYM(socket_utility_setfds)(v0[0], m[0], v0[1], m[1], v0[2], m[2], v0[3], m[3], -1);
    vk_all = false; bool fault = vk_nfailed > f0; mc_step();
    mc_trace("%s %d descriptors, to %d, gives %x", map ? "map" : "move", n, map ? m[0] : thr, (unsigned)r); for (int i = 0; i < n; ++i) mc_trace("  %d to %d", v0[i], map ? m[i] : v[i]);
    bool invalid = map ? bad == 1 || n == 0 : bad != 0;
    if (fault) { MC_CHECK(r == ERROR_SOCKET_UTILITIES_DUP2_FAILURE, "status", "dup2 failed, and the status is %x", (unsigned)r); mc_nontrivial(); }
    else MC_CHECK(r == (invalid ? ERROR_GENERAL_INVALID_ARGUMENTS : STATUS_SUCCESS), "status", "the status is %x", (unsigned)r);
    int live = 0; bool failed = r != STATUS_SUCCESS, before = true;
    for (int i = 0; i < want; ++i)
    {
        if (i == badat) { MC_CHECK(v[i] == -1, "changed", "a descriptor was changed"); continue; }
        int at = v[i];
        if (map) { bool there = m[i] >= 0 && vk_file_id(m[i]) == id[i] && vk_is_open(m[i]); at = there ? m[i] : v0[i]; if (failed) { if (!there) before = false; else MC_CHECK(before || m[i] == v0[i], "order", "a descriptor was mapped after a failure"); } else MC_CHECK(there, "lost", "descriptor %d is not at %d", v0[i], m[i]); }
        else if (!failed) MC_CHECK(at >= thr, "threshold", "a descriptor was moved to %d, below %d", at, thr);
        MC_CHECK(vk_is_open(at), "lost", "descriptor %d is closed", v0[i]); MC_CHECK(vk_file_id(at) == id[i], "lost", "descriptor %d is not at %d", v0[i], at); ++live;
        for (int j = 0; j < i; ++j) if (j != badat && !map) MC_CHECK(v[j] != v[i], "lost", "two descriptors are at %d", v[i]);
        if (at != v0[i]) mc_nontrivial();
    }
    if (thr < 0) for (int i = 0; i < want; ++i) MC_CHECK(v[i] == v0[i], "changed", "an invalid call moved a descriptor");
    if (by >= 0)
    {
        bool hit = false; for (int i = 0; i < want; ++i) if ((map ? m[i] : v[i]) == by) hit = true;
        if (!hit) MC_CHECK(vk_is_open(by) && vk_file_id(by) == id[map && bad == 2 ? npos - 1 : npos - 1], "bystander", "another descriptor was closed"); if (vk_is_open(by) && !hit) ++live;
        if (hit && vk_is_open(by) && vk_file_id(by) == id[npos - 1]) ++live;
    }
    if (map && n == 0) live = npos;
    MC_CHECK(vk_open_count() == live, "leak", "%d descriptors are open, it should be %d", vk_open_count(), live); MC_CHECK(!vk_badfd && !vk_badclose, "bad-descriptor", "a descriptor that is not open was used or closed");
    mc_state(mc_hash(mc_hash((uint64_t)sc, (uint64_t)(v0[0] * 64 + (map ? m[0] : thr))), (uint64_t)(v0[n > 1 ? 1 : 0] * 64 + v[0])));
}
static void others(int sc)
{
    static const int P[] = { 0, 1, 2, 4, FD_SETSIZE - 1, FD_SETSIZE }; enum { NP = sizeof P / sizeof *P };
    if (sc == 0 || sc == 1)
    {
        unsigned set = 0; for (int i = 0; i < NP; ++i) if (mc_choose(2, "open")) { set |= 1u << i; open_at(P[i]); }
        static const int F[] = { -1, 0, 2, 3, 4, FD_SETSIZE - 2, FD_SETSIZE - 1, FD_SETSIZE }; int fd = 0; if (sc == 0) fd = F[mc_choose(sizeof F / sizeof *F, "descriptor")]; bool imp = mc_choose(2, "imported"); if (mc_mode == 1 && mc_choose(2, "a close fails")) { vk_faults = 1; vk_fault_mask = 1u << VK_CLOSE; }
        vk_all = true; status r = sc ? imp ? socket_utility_close_standard_fds() : RCPR_SYM(socket_utility_close_standard_fds)() : imp ? socket_utility_close_other_fds(fd) : RCPR_SYM(socket_utility_close_other_fds)(fd); vk_all = false; vk_faults = 0; mc_step();
        mc_trace("%s %d gives %x", sc ? "close standard descriptors" : "close descriptors above", fd, (unsigned)r); MC_CHECK(r == STATUS_SUCCESS || vk_nfailed, "status", "the status is %x", (unsigned)r);
        for (int i = 0; i < NP; ++i) if (set & 1u << i)
        {
            bool gone = sc ? P[i] <= 2 : P[i] > fd; if (gone) mc_nontrivial();
            if (gone && P[i] >= FD_SETSIZE) MC_CHECK(!vk_is_open(P[i]), "above-FD_SETSIZE", "descriptor %d is still open", P[i]);
            MC_CHECK(vk_is_open(P[i]) == !gone, gone ? "left-open" : "closed", "descriptor %d is %s", P[i], gone ? "still open" : "closed");
        }
        MC_CHECK(vk_badfd == 0, "bad-descriptor", "a descriptor that is not open was used"); mc_state(mc_hash(set, (uint64_t)(fd + 2)));
    }
    else if (sc == 2)
    {
        open_at(3); open_at(4); int fl = 0; if (mc_choose(2, "the end of a pipe that reads")) { int o[2]; vk_base = 300; vk_pipe(o); __wrap_dup2(o[0], 3); vk_drop(o[0]); } if (mc_choose(2, "appending")) fl |= O_APPEND; if (mc_choose(2, "asynchronous")) fl |= O_ASYNC; if (mc_choose(2, "already")) fl |= O_NONBLOCK; bool imp = mc_choose(2, "imported"); int d = mc_choose(2, "closed") ? 6 : 3;
        __wrap_fcntl(3, F_SETFL, fl); vk_all = true; __wrap_fcntl(3, F_SETFL, fl); int was = __wrap_fcntl(3, F_GETFL); vk_faults = 1; vk_fault_mask = 1u << VK_GETFL | 1u << VK_SETFL; int f0 = vk_nfailed; status r = imp ? socket_utility_set_nonblock(d) : RCPR_SYM(socket_utility_set_nonblock)(d); vk_faults = 0; mc_step(); int now = __wrap_fcntl(3, F_GETFL), other = __wrap_fcntl(4, F_GETFL); vk_all = false;
        mc_trace("set_nonblock %d gives %x, flags %x become %x", d, (unsigned)r, (unsigned)was, (unsigned)now);
        if (vk_nfailed > f0 || d == 6) { MC_CHECK(r == ERROR_SOCKET_UTILITIES_SET_NONBLOCK_FAILURE, "status", "the status is %x", (unsigned)r); MC_CHECK(now == was, "flags", "a failed call changed the flags"); }
        else { MC_CHECK(r == STATUS_SUCCESS, "status", "the status is %x", (unsigned)r); MC_CHECK(now == (was | O_NONBLOCK), "flags", "flags %x became %x", (unsigned)was, (unsigned)now); if (now != was) mc_nontrivial(); }
        MC_CHECK(!(other & O_NONBLOCK), "flags", "another descriptor was changed"); mc_state((uint64_t)(fl * 8 + d));
    }
    else
    {
        int l = -5, r = -6; static const int DOM[] = { AF_UNIX, AF_INET, AF_INET6, 77 }, TY[] = { SOCK_STREAM, SOCK_DGRAM, SOCK_SEQPACKET, SOCK_STREAM | SOCK_NONBLOCK, SOCK_DGRAM | SOCK_CLOEXEC }, PT[] = { 0, 6, -1 }; int dom = DOM[mc_choose(4, "domain")], ty = TY[mc_choose(5, "type")], pt = PT[mc_choose(3, "protocol")]; bool imp = mc_choose(2, "imported"); vk_base = 300; vk_faults = 1; vk_fault_mask = 1u << VK_SOCKETPAIR;
        status s = imp ? socket_utility_socketpair(dom, ty, pt, &l, &r) : RCPR_SYM(socket_utility_socketpair)(dom, ty, pt, &l, &r); MC_CHECK(vk_pair_domain == dom && vk_pair_type == ty && vk_pair_proto == pt, "arguments", "a pair of another kind was made"); vk_faults = 0; mc_step(); mc_trace("socketpair gives %x", (unsigned)s);
        if (vk_nfailed) { MC_CHECK(s == ERROR_SOCKET_UTILITIES_SOCKETPAIR_FAILURE, "status", "the status is %x", (unsigned)s); MC_CHECK(vk_open_count() == 0, "leak", "descriptors are open"); }
        else { MC_CHECK(s == STATUS_SUCCESS, "status", "the status is %x", (unsigned)s); MC_CHECK(l != r && vk_is_open(l) && vk_is_open(r) && vk_open_count() == 2, "pair", "the descriptors are not open"); uint8_t b = 7, c = 0; MC_CHECK(vk_push(l, &b, 1) == 1 && vk_pull(r, &c, 1) == 1 && c == 7, "pair", "the descriptors are not connected"); mc_nontrivial(); }
        mc_state((uint64_t)(dom * 100 + ty));
    }
}
/* many: n descriptors in some order from some place on, moved to at least a threshold, or mapped to other places. */
static void many(int sc)
{
    enum { MAX = 18 }; bool map = sc & 1, imp = sc & 2, faulty = sc & 4; int n = 4 + mc_choose(MAX - 4, "descriptors"), from = mc_choose(4, "place") * 3, step = 1 + mc_choose(2, "step"), ord = mc_choose(4, "order"), to = mc_choose(8, "to") * 6, v[MAX + 2], v0[MAX + 2], m[2 * MAX + 8]; int* a[MAX + 2]; memset(a, 0, sizeof a);
    for (int i = 0; i < MAX + 2; ++i) v0[i] = v[i] = -1;
    for (int i = 0; i < n; ++i) { int k = ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (i + n / 2) % n : (i & 1 ? n - 1 - i / 2 : i / 2); v[i] = v0[i] = from + step * k; a[i] = &v[i]; }
    for (int i = 0; i < n; ++i) { int o[2]; vk_base = 300; vk_pair(SOCK_STREAM, o); __wrap_dup2(o[0], v[i]); vk_drop(o[0]); vk_drop(o[1]); }
    int ids[MAX]; for (int i = 0; i < n; ++i) ids[i] = vk_file_id(v[i]);
    int at[MAX]; if (map) { to += ord ? 0 : from; for (int i = 0; i < n; ++i) { at[i] = ord == 0 ? v[i] + (to > v[0] ? v[n - 1] - v[0] + 1 + to : to - v[0]) : v[n - 1] + v[0] + 20 + to + i; } for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (at[i] == v[j]) return; }
    for (int i = 0; i < 2 * MAX + 8; ++i) m[i] = -1; for (int i = 0; map && i < n; ++i) { m[2 * i] = v[i]; m[2 * i + 1] = at[i]; }
    if (faulty) { vk_faults = 1; vk_fault_mask = 1u << VK_DUP2; }
    vk_all = true; vk_base = 0; status r;
    #define A18 a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], (int*)NULL
    #define M2(i) m[2 * (i)], m[2 * (i) + 1]
    #define M18 M2(0), M2(1), M2(2), M2(3), M2(4), M2(5), M2(6), M2(7), M2(8), M2(9), M2(10), M2(11), M2(12), M2(13), M2(14), M2(15), M2(16), M2(17), -1
    if (map) r = imp ? socket_utility_setfds(M18) : RCPR_SYM(socket_utility_setfds)(M18); else r = imp ? socket_utility_move_descriptors(to, A18) : RCPR_SYM(socket_utility_move_descriptors)(to, A18);
    vk_all = false; mc_step(); mc_trace("%s %d descriptors to %d gives %x", map ? "map" : "move", n, to, (unsigned)r); for (int i = 0; i < n; ++i) mc_trace("  %d to %d", v0[i], map ? at[i] : v[i]);
    MC_CHECK(r == (vk_nfailed ? ERROR_SOCKET_UTILITIES_DUP2_FAILURE : STATUS_SUCCESS), "status", "the status is %x", (unsigned)r);
    for (int i = 0; i < n; ++i)
    {
        int p = v[i]; if (map) { p = vk_is_open(at[i]) && vk_file_id(at[i]) == ids[i] ? at[i] : v0[i]; if (!r) MC_CHECK(p == at[i], "lost", "descriptor %d is not at %d", v0[i], at[i]); }
        MC_CHECK(vk_is_open(p) && vk_file_id(p) == ids[i], "lost", "descriptor %d is not at %d", v0[i], p); if (!map && !r) MC_CHECK(p >= to, "threshold", "a descriptor was moved to %d, below %d", p, to); if (p != v0[i]) mc_nontrivial();
        for (int j = 0; !map && j < i; ++j) MC_CHECK(v[i] != v[j], "lost", "two descriptors are at %d", v[i]);
    }
    MC_CHECK(vk_open_count() == n && !vk_badfd && !vk_badclose, "leak", "%d descriptors are open, it should be %d", vk_open_count(), n); mc_state(mc_hash((uint64_t)sc, (uint64_t)(((n * 4 + from) * 2 + step) * 64 + ord * 8 + to)));
}
static void be(const void* p, size_t n, uint64_t v, const char* what) { const uint8_t* b = p; for (size_t i = 0; i < n; ++i) MC_CHECK(b[i] == (uint8_t)(v >> (8 * (n - 1 - i))), "byte-order", "%s of %llx: byte %zu is %x", what, (unsigned long long)v, i, b[i]); }
static void order(int sc)
{
    uint64_t n = 0;
    if (sc == 0) for (int v = -32768; v < 32768; ++v, ++n) { int16_t x = (int16_t)v, h = socket_utility_hton16(x), g = RCPR_SYM(socket_utility_hton16)(x); be(&h, 2, (uint16_t)x, "hton16"); MC_CHECK(g == h && socket_utility_ntoh16(h) == x && RCPR_SYM(socket_utility_ntoh16)(h) == x, "round-trip", "16 bits: %d", v); }
    else if (sc == 1)
    {
        if (mc_bound >= 2) for (uint64_t v = 0; v < 1ull << 32; ++v, ++n) { int32_t x = (int32_t)(uint32_t)v, h = RCPR_SYM(socket_utility_hton32)(x); uint32_t w = (uint32_t)v; uint32_t e = w << 24 | (w & 0xFF00) << 8 | (w >> 8 & 0xFF00) | w >> 24; if ((uint32_t)h != e || RCPR_SYM(socket_utility_ntoh32)(h) != x) mc_fail("round-trip", "32 bits: %x", w); }
        for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) for (uint32_t a = 0; a < 65536; ++a, ++n) { uint32_t w = (a & 255) << (8 * i) | a >> 8 << (8 * j); int32_t x = (int32_t)w, h = socket_utility_hton32(x); be(&h, 4, w, "hton32"); MC_CHECK(RCPR_SYM(socket_utility_hton32)(x) == h && socket_utility_ntoh32(h) == x && RCPR_SYM(socket_utility_ntoh32)(h) == x, "round-trip", "32 bits: %x", w); }
    }
    else for (int inv = 0; inv < 2; ++inv) for (int i = 0; i < 8; ++i) for (int j = 0; j < i; ++j) for (uint64_t a = 0; a < 65536; ++a, ++n) { uint64_t w = (a & 255) << (8 * i) | a >> 8 << (8 * j); if (inv) w = ~w; int64_t x = (int64_t)w, h = socket_utility_hton64(x); be(&h, 8, w, "hton64"); MC_CHECK(RCPR_SYM(socket_utility_hton64)(x) == h && socket_utility_ntoh64(h) == x && RCPR_SYM(socket_utility_ntoh64)(h) == x, "round-trip", "64 bits: %llx", (unsigned long long)w); }
    for (uint64_t i = 0; i < n; i += 65536) mc_step(); mc_nontrivial(); mc_state((uint64_t)sc); mc_trace("%llu values", (unsigned long long)n);
}
void mc_setup(void) { }
int mc_scenarios(void) { return mc_mode == 0 || mc_mode == 3 ? 8 : mc_mode == 1 ? 4 : 3; }
void mc_run(int sc)
{
    mc_mem_begin(); vk_reset(); npos = 0; vk_base = 300;
    if (mc_mode == 0) moving(sc); else if (mc_mode == 3) many(sc); else if (mc_mode == 1) others(sc); else order(sc);
}
