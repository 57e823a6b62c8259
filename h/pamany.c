/*
 * Many fibers that wait for many sockets at the same time, on the real kernel: this process is the only one
 * that acts, so that each execution is determined by its choices.
 *
 * mode 0: every number of sockets, what their fibers do, in which order they become ready and how it ends.
 * mc_bound2: how many of the sizes are used (0: all).
 */
#define _GNU_SOURCE
#include "common.h"
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <rcpr/fiber.h>
#include <rcpr/psock.h>
#include <rcpr/uuid.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <unistd.h>
RCPR_IMPORT_psock; RCPR_IMPORT_fiber; RCPR_IMPORT_uuid;
const char* mc_name = "pamany";
#define OK(x) do { status s_ = (x); MC_CHECK(s_ == STATUS_SUCCESS, "setup", "%s failed: %x", #x, (unsigned)s_); } while (0)
enum { NMAX = 1100, BIG = 60000 };
static const rcpr_uuid HID = { .data = { 7, 7, 7 } };
static fiber_scheduler* sched; static allocator* al; static fiber_scheduler_discipline* hdisc;
static psock *ctl, *ps[NMAX]; static int ctlenv, env[NMAX], n, what, id_[2 * NMAX];
static bool once, fin[NMAX]; static int nread[NMAX], nwrote[NMAX], done[2 * NMAX]; static status st[2 * NMAX]; static fiber* ticker; static fiber* main_fib;
static uint8_t* big;

static status h_block(void* c, fiber* y, int ev, void* p) { (void)c; (void)ev; (void)y; (void)p; return STATUS_SUCCESS; }
static uint64_t value(int i, int r) { return 0x0101010101010101ull * (uint64_t)(i % 251) + (uint64_t)i * 1000 + (uint64_t)r; }
static status f_read(void* c)
{
    int i = *(int*)c; status s;
    for (;;)
    {
        uint64_t v = 0; s = psock_read_raw_uint64(ps[i], &v); if (s != STATUS_SUCCESS) break;
        MC_CHECK(v == value(i, nread[i]), "data", "fiber %d of %d read another value than the one that was sent to it", i, n);
        ++nread[i];
    }
    st[i] = s; ++done[i]; return STATUS_SUCCESS;
}
static status f_write(void* c)
{
    int i = *(int*)c; status s;
    do { s = psock_write_raw_data(ps[i], big, BIG); if (s == STATUS_SUCCESS) ++nwrote[i]; } while (s == STATUS_SUCCESS && !once);
    if (s == STATUS_SUCCESS) { fin[i] = true; return s; }
    st[NMAX + i] = s; ++done[NMAX + i]; return STATUS_SUCCESS;
}
/* each time it is run, the control socket gets a byte. */
static status f_tick(void* c)
{
    (void)c; const rcpr_uuid* id; int ev; void* p;
    for (;;) { if (fiber_discipline_yield(hdisc, 0, NULL, &id, &ev, &p) != STATUS_SUCCESS) return STATUS_SUCCESS; if (memcmp(id, &HID, sizeof HID)) return STATUS_SUCCESS; if (write(ctlenv, "x", 1) != 1) mc_fail("setup", "write"); }
}
static void tick(void) { OK(disciplined_fiber_scheduler_add_fiber_to_run_queue(sched, ticker, &HID, 1, NULL)); uint8_t b; OK(psock_read_raw_uint8(ctl, &b)); for (int i = 0; i < 2; ++i) (void)!fiber_scheduler_run(sched); }
static void feed(int i, int r) { uint64_t v = __builtin_bswap64(value(i, r)); if (write(env[i], &v, 8) != 8) mc_fail("setup", "write: %d", errno); }
static bool reads(int i) { return what == 0 || what == 2 || (what == 3 && i % 3 == 0); }
static bool writes(int i) { return what == 1 || what == 2 || (what == 3 && i % 3 == 1); }
static void reader_at(int i, int want, const char* when) { if (reads(i)) MC_CHECK(nread[i] == want && !done[i], "reader", "%s, fiber %d of %d has read %d values instead of %d", when, i, n, nread[i], want); }
static void drain(int i, size_t m)
{
    static uint8_t b[65536]; static size_t at[NMAX];
    if (!m) { at[i] = 0; return; }
    while (m) { ssize_t k = recv(env[i], b, m < sizeof b ? m : sizeof b, MSG_DONTWAIT); if (k <= 0) break; for (ssize_t j = 0; j < k; ++j) if (b[j] != big[(at[i] + (size_t)j) % BIG]) mc_fail("data", "socket %d sent a wrong byte at %zu", i, at[i] + (size_t)j); at[i] += (size_t)k; m -= (size_t)k; }
}
void mc_setup(void)
{
    struct rlimit r; if (!getrlimit(RLIMIT_NOFILE, &r)) { r.rlim_cur = r.rlim_max < 4096 ? r.rlim_max : 4096; (void)!setrlimit(RLIMIT_NOFILE, &r); }
    signal(SIGPIPE, SIG_IGN); big = malloc(BIG); for (size_t i = 0; i < BIG; ++i) big[i] = (uint8_t)(i * 7 + i / 251);
}
int mc_scenarios(void) { return 4; }
void mc_run(int scenario)
{
    static const int N[] = { 1, 2, 3, 8, 17, 33, 64, 65, 130, 257, 1030 };
    al = fa_init(); mc_mem_begin(); what = scenario; int ns = what == 0 ? 11 : 10; if (mc_bound2 && mc_bound2 < ns) ns = mc_bound2;
    int probe = dup(0); close(probe); struct rlimit lim; n = N[mc_choose(ns, "sockets")];
    if (!getrlimit(RLIMIT_NOFILE, &lim) && lim.rlim_cur < (rlim_t)(2 * n + 40)) return;
    int order = mc_choose(4, "order"), end = mc_choose(4, "end"), who = mc_choose(2, "order of creation"); mc_trace("%d sockets, what %d, order %d, end %d", n, what, order, end); mc_nontrivial(); mc_step();
    once = who; memset(fin, 0, sizeof fin); memset(nread, 0, sizeof nread); memset(nwrote, 0, sizeof nwrote); memset(done, 0, sizeof done); memset(st, 0, sizeof st);
    OK(fiber_scheduler_create_with_disciplines(&sched, al)); OK(disciplined_fiber_scheduler_main_fiber_get(&main_fib, sched));
    static fiber_scheduler_discipline_callback_fn hv[1] = { h_block };
    OK(fiber_scheduler_discipline_create(&hdisc, &HID, al, NULL, 1, hv)); OK(fiber_scheduler_discipline_add(sched, hdisc));
    int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) mc_fail("setup", "socketpair: %d", errno);
    ctlenv = p[1]; OK(psock_create_from_descriptor(&ctl, al, p[0])); OK(psock_create_wrap_async(&ctl, al, main_fib, ctl));
    OK(fiber_create(&ticker, al, sched, 65536, NULL, &f_tick)); OK(fiber_scheduler_add(sched, ticker));
    for (int x = 0; x < n; ++x)
    {
        int i = who ? n - 1 - x : x; if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) mc_fail("setup", "socketpair: %d", errno);
        env[i] = p[1]; int z = 4096; setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &z, sizeof z); drain(i, 0);
        OK(psock_create_from_descriptor(&ps[i], al, p[0])); OK(psock_create_wrap_async(&ps[i], al, main_fib, ps[i])); id_[i] = i;
        fiber* f; if (reads(i)) { OK(fiber_create(&f, al, sched, 65536, &id_[i], &f_read)); OK(fiber_scheduler_add(sched, f)); }
        if (writes(i)) { OK(fiber_create(&f, al, sched, 65536, &id_[i], &f_write)); OK(fiber_scheduler_add(sched, f)); }
    }
    tick();
    for (int i = 0; i < n; ++i) { reader_at(i, 0, "at first"); if (writes(i)) MC_CHECK(nwrote[i] == 0 && !done[NMAX + i], "writer", "fiber %d of %d ended its write with nobody to read", i, n); }
    /* data arrives, and what was written is read. */
    int fed = 1;
    if (order == 0) { for (int i = 0; i < n; ++i) feed(i, 0); tick(); }
    else if (order == 1) { for (int i = n - 1; i >= 0; --i) feed(i, 0); tick(); }
    else if (order == 2)
    {
        for (int k = 0; k < 2; ++k) { for (int i = k; i < n; i += 2) feed(i, 0); tick(); for (int i = 0; i < n; ++i) reader_at(i, i % 2 <= k, "after some of the data came"); }
    }
    else { for (int i = 0; i < n; ++i) feed(i, 0), feed(i, 1); tick(); fed = 2; }
    for (int i = 0; i < n; ++i) reader_at(i, fed, "after the data came");
    if (what)
    {
        /* only the writers whose peers read are to go on. */
        for (int r = 0; r < 400; ++r) { bool more = false; for (int i = order & 1; i < n; i += 2) if (writes(i) && !nwrote[i]) { drain(i, BIG); more = true; } if (!more) break; tick(); }
        for (int i = 0; i < n; ++i) if (writes(i)) { if (i % 2 == (order & 1)) MC_CHECK(nwrote[i] >= 1, "writer", "fiber %d of %d did not end its write although all of it was read", i, n); else MC_CHECK(!nwrote[i], "writer", "fiber %d of %d ended its write with nobody to read", i, n); }
        for (int i = 0; i < n; ++i) reader_at(i, fed, "after the writes");
        for (int i = 0; i < n; ++i) feed(i, fed);
        tick(); ++fed; for (int i = 0; i < n; ++i) reader_at(i, fed, "when data came after the writes");
    }
    /* the end. */
    if (end == 1 || end == 3)
    {
        for (int i = 0; i < n; ++i) if (end == 1 || i % 2) { close(env[i]); env[i] = -1; }
        tick(); tick();
        for (int i = 0; i < n; ++i)
        {
            bool gone = env[i] < 0;
            if (reads(i)) MC_CHECK(done[i] == gone && (gone ? st[i] != STATUS_SUCCESS : 1), "eof", "fiber %d of %d ended %d times after %s peer was closed", i, n, done[i], gone ? "its" : "another");
            if (writes(i) && !fin[i]) MC_CHECK(done[NMAX + i] == gone && (gone ? st[NMAX + i] != STATUS_SUCCESS : 1), "eof", "writing fiber %d of %d ended %d times after %s peer was closed", i, n, done[NMAX + i], gone ? "its" : "another");
        }
    }
    if (end >= 2)
    {
        OK(disciplined_fiber_scheduler_send_quiesce_request_to_all(sched)); for (int i = 0; i < 3; ++i) (void)!fiber_scheduler_run(sched);
        for (int i = 0; i < n; ++i)
        {
            bool gone = env[i] < 0;
            if (reads(i)) MC_CHECK(done[i] == 1 && (gone || st[i] == ERROR_FIBER_NO_UNEXPECTED_HANDLER), "interrupted", "fiber %d of %d ended %d times, with %x, after a request to all", i, n, done[i], (unsigned)st[i]);
            if (writes(i) && !fin[i]) MC_CHECK(done[NMAX + i] == 1 && (gone || st[NMAX + i] == ERROR_FIBER_NO_UNEXPECTED_HANDLER), "interrupted", "writing fiber %d of %d ended %d times, with %x, after a request to all", i, n, done[NMAX + i], (unsigned)st[NMAX + i]);
        }
    }
    for (int i = 0; i < n; ++i) { if (env[i] >= 0) close(env[i]); OK(resource_release(psock_resource_handle(ps[i]))); }
    OK(resource_release(psock_resource_handle(ctl))); close(ctlenv); OK(resource_release(fiber_scheduler_resource_handle(sched)));
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks leaked", mc_mem_live());
    int again = dup(0); close(again); MC_CHECK(again == probe, "leak", "descriptor %d is not closed", probe);
}
