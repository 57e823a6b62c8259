/*
 * The virtual kernel (mc/vk.c) and the real one, on every sequence of operations up to the
 * bound: results, errors, data, rights and readiness are compared after each operation.
 * mode 0: stream pair, mode 1: datagram pair, mode 2: a pipe (left reads), mode 3: a pipe (left writes).
 */
#define _GNU_SOURCE
#include "common.h"
#include "vk.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/epoll.h>
#include <unistd.h>
const char* mc_name = "vkconf";
int __real_close(int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); int __real_fcntl(int, int, ...); int __real_dup2(int, int); int __real_socketpair(int, int, int, int*);
int __real_epoll_create1(int); int __real_epoll_ctl(int, int, int, struct epoll_event*); int __real_epoll_wait(int, struct epoll_event*, int, int); int __real_poll(struct pollfd*, nfds_t, int); ssize_t __real_sendmsg(int, const struct msghdr*, int); ssize_t __real_recvmsg(int, struct msghdr*, int); int __real_getsockopt(int, int, int, void*, socklen_t*);
int __wrap_close(int); ssize_t __wrap_read(int, void*, size_t); ssize_t __wrap_write(int, const void*, size_t); int __wrap_fcntl(int, int, ...); int __wrap_dup2(int, int);
int __wrap_epoll_create1(int); int __wrap_epoll_ctl(int, int, int, struct epoll_event*); int __wrap_epoll_wait(int, struct epoll_event*, int, int); int __wrap_poll(struct pollfd*, nfds_t, int); ssize_t __wrap_sendmsg(int, const struct msghdr*, int); ssize_t __wrap_recvmsg(int, struct msghdr*, int); int __wrap_getsockopt(int, int, int, void*, socklen_t*);
enum { A, B, D, G, EP, X, Y, NS };   /* the pair, a duplicate of A, a received descriptor, the epoll descriptor, a pair to be passed. */
static int R[NS], V[NS];
static const char* SN[NS] = { "left", "right", "copy", "received", "epoll", "other", "peer of other" };
static void cmpr(const char* what, long r, int re, long v, int ve)
{
    mc_step(); mc_trace("%s: %ld %s, %ld %s", what, r, r < 0 ? strerror(re) : "", v, v < 0 ? strerror(ve) : "");
    MC_CHECK((r < 0) == (v < 0) && (r < 0 ? re == ve : r == v), "differs", "%s: the kernel gives %ld%s%s, the virtual kernel %ld%s%s", what, r, r < 0 ? " " : "", r < 0 ? strerror(re) : "", v, v < 0 ? " " : "", v < 0 ? strerror(ve) : "");
}
#define BOTH(what, r, v) do { errno = 0; long r_ = (r); int re_ = errno; errno = 0; long v_ = (v); int ve_ = errno; cmpr(what, r_, re_, v_, ve_); } while (0)
static int cmpev(const void* a, const void* b) { return (int)((const struct epoll_event*)a)->data.u32 - (int)((const struct epoll_event*)b)->data.u32; }
static void rd(int s, int n)
{
    uint8_t r[16] = { 0 }, v[16] = { 0 }; char b[64]; snprintf(b, sizeof b, "read %d bytes of %s", n, SN[s]);
    BOTH(b, __real_read(R[s], r, (size_t)n), __wrap_read(V[s], v, (size_t)n)); MC_CHECK(!memcmp(r, v, 16), "data", "%s: the data differ", b);
}
static int serial;
static void wr(int s, int n) { uint8_t d[8]; for (int i = 0; i < n; ++i) d[i] = (uint8_t)++serial; char b[64]; snprintf(b, sizeof b, "write %d bytes to %s", n, SN[s]); BOTH(b, __real_write(R[s], d, (size_t)n), __wrap_write(V[s], d, (size_t)n)); }
static void cl(int s) { char b[64]; snprintf(b, sizeof b, "close %s", SN[s]); BOTH(b, __real_close(R[s]), __wrap_close(V[s])); R[s] = R[s] < 0 ? R[s] : 1000 + s; V[s] = 1100 + s; }
static void ctl(int op, int s, uint32_t e)
{
    char b[64]; snprintf(b, sizeof b, "epoll_ctl %s %s %x", op == EPOLL_CTL_ADD ? "add" : op == EPOLL_CTL_MOD ? "change" : "remove", SN[s], e);
    struct epoll_event x = { .events = e, .data.u32 = (uint32_t)s }; BOTH(b, __real_epoll_ctl(R[EP], op, R[s], &x), __wrap_epoll_ctl(V[EP], op, V[s], &x));
}
static void ewait(int max)
{
    struct epoll_event r[8], v[8]; memset(r, 0, sizeof r); memset(v, 0, sizeof v); errno = 0; int a = __real_epoll_wait(R[EP], r, max, 0), b = __wrap_epoll_wait(V[EP], v, max, 0); cmpr("epoll_wait", a, 0, b, 0);
    qsort(r, (size_t)a, sizeof *r, cmpev); qsort(v, (size_t)a, sizeof *v, cmpev); for (int i = 0; i < a; ++i) MC_CHECK(r[i].events == v[i].events && r[i].data.u32 == v[i].data.u32, "events", "epoll_wait: the kernel gives %x for %u, the virtual kernel %x for %u", r[i].events, r[i].data.u32, v[i].events, v[i].data.u32);
    if (a) mc_nontrivial();
}
static void pl(int s, short ev)
{
    struct pollfd r = { R[s], ev, 0 }, v = { V[s], ev, 0 }; BOTH("poll", __real_poll(&r, 1, 0), __wrap_poll(&v, 1, 0)); MC_CHECK(r.revents == v.revents, "poll-events", "poll of %s: the kernel gives %x, the virtual kernel %x", SN[s], r.revents, v.revents);
}
static void fill(int s) { uint8_t b[512]; memset(b, 1, sizeof b); while (__real_write(R[s], b, sizeof b) > 0) ; errno = 0; for (int i = 0; i < 8; ++i) { if (__wrap_write(V[s], b, 16) <= 0) break; } errno = 0; mc_trace("fill from %s", SN[s]); }
static void drain(int s) { uint8_t b[65536]; while (__real_read(R[s], b, sizeof b) > 0) ; while (__wrap_read(V[s], b, sizeof b) > 0) ; errno = 0; mc_trace("drain %s", SN[s]); }
static ssize_t txr(bool real, int s, int n, const int* d)
{
    char c[64]; memset(c, 0, sizeof c); struct iovec io = { "xy", 1 }; struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = &io; m.msg_iovlen = 1; m.msg_control = c; m.msg_controllen = CMSG_SPACE((size_t)n * sizeof(int));
    struct cmsghdr* h = CMSG_FIRSTHDR(&m); h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS; h->cmsg_len = CMSG_LEN((size_t)n * sizeof(int)); memcpy(CMSG_DATA(h), d, (size_t)n * sizeof(int));
    return real ? __real_sendmsg(s, &m, 0) : __wrap_sendmsg(s, &m, 0);
}
static void rights(int s, int n) { int r[2] = { R[A], R[X] }, v[2] = { V[A], V[X] };   /* never one's own: the kernel collects cycles when it likes. */ char b[64]; snprintf(b, sizeof b, "send %d descriptors to %s", n, SN[s]); BOTH(b, txr(true, R[s], n, r), txr(false, V[s], n, v)); }
static void rxr(int s, size_t room)
{
    char c[2][64]; uint8_t d[2][4]; struct msghdr m[2]; struct iovec io[2]; memset(m, 0, sizeof m); memset(c, 0, sizeof c); memset(d, 0, sizeof d); long r[2]; int e[2];
    for (int i = 0; i < 2; ++i) { io[i] = (struct iovec){ d[i], 2 }; m[i].msg_iov = &io[i]; m[i].msg_iovlen = 1; m[i].msg_control = room ? c[i] : NULL; m[i].msg_controllen = room; errno = 0; r[i] = i ? __wrap_recvmsg(V[s], &m[1], 0) : __real_recvmsg(R[s], &m[0], 0); e[i] = errno; }
    cmpr("recvmsg", r[0], e[0], r[1], e[1]); if (r[0] < 0) return;
    MC_CHECK(!memcmp(d[0], d[1], 4), "data", "recvmsg: the data differ"); MC_CHECK(m[0].msg_flags == m[1].msg_flags && m[0].msg_controllen == m[1].msg_controllen, "recvmsg", "recvmsg: the kernel gives flags %x and %zu bytes of control data, the virtual kernel %x and %zu", m[0].msg_flags, m[0].msg_controllen, m[1].msg_flags, m[1].msg_controllen);
    struct cmsghdr *h = CMSG_FIRSTHDR(&m[0]), *g = CMSG_FIRSTHDR(&m[1]); MC_CHECK(!h == !g, "control", "recvmsg: one of them has control data"); if (!h) return;
    MC_CHECK(h->cmsg_len == g->cmsg_len && h->cmsg_level == g->cmsg_level && h->cmsg_type == g->cmsg_type, "control", "recvmsg: the control data differ: %zu and %zu bytes", (size_t)h->cmsg_len, (size_t)g->cmsg_len);
    int n = (int)((h->cmsg_len - CMSG_LEN(0)) / sizeof(int)); for (int i = 0; i < n; ++i) { int x, y; memcpy(&x, CMSG_DATA(h) + 4 * i, 4); memcpy(&y, CMSG_DATA(g) + 4 * i, 4); if (R[G] < 1000) { __real_close(R[G]); __wrap_close(V[G]); } R[G] = x; V[G] = y; int t = 0, u = 0; socklen_t tn = sizeof t, un = sizeof u; MC_CHECK(!__real_getsockopt(x, SOL_SOCKET, SO_TYPE, &t, &tn) && !__wrap_getsockopt(y, SOL_SOCKET, SO_TYPE, &u, &un) && t == u, "order", "the descriptors come in another order"); }
    mc_nontrivial();
}
void mc_setup(void) { signal(SIGPIPE, SIG_IGN); }
int mc_scenarios(void) { return 1; }
#define S_IN (EPOLLIN | EPOLLONESHOT)
#define S_OUT (EPOLLOUT | EPOLLONESHOT)
void mc_run(int scenario)
{
    (void)scenario; mc_mem_begin(); vk_reset(); vk_cap = 64; vk_qlen = 1 << 20; serial = 0; if (mc_mode == 1) vk_qlen = 8;
    int type = mc_mode == 1 ? SOCK_DGRAM : SOCK_STREAM, W = A, Q = B; bool pipes = mc_mode >= 2; if (mc_mode == 2) { W = B; Q = A; } for (int i = 0; i < NS; ++i) { R[i] = 1000 + i; V[i] = 1100 + i; }
    if (pipes) { int r[2], v[2]; if (pipe2(r, O_NONBLOCK)) abort(); vk_pipe(v); R[Q] = r[0]; R[W] = r[1]; V[Q] = v[0]; V[W] = v[1]; }
    else { if (__real_socketpair(AF_UNIX, type | SOCK_NONBLOCK, 0, R)) abort(); vk_pair(type, V); }
    if (__real_socketpair(AF_UNIX, SOCK_STREAM, 0, R + X)) abort();
    vk_pair(SOCK_STREAM, V + X); for (int i = 0; i < 2; ++i) __wrap_fcntl(V[i], F_SETFL, O_NONBLOCK); R[EP] = __real_epoll_create1(0); V[EP] = __wrap_epoll_create1(0);
    uint64_t h = 1; bool filled = false;   /* how a full buffer drains is the kernel's own affair. */
    for (int i = 0; i < mc_bound; ++i)
    {
        int op = mc_choose(mc_mode == 1 ? 20 : 19, "operation"); h = mc_hash(h, (uint64_t)op);
        switch (op)
        {
            case 0: wr(A, 2); break;   case 1: wr(B, 1); break;
            case 2: if (filled && Q == A) drain(A), filled = false; else rd(A, 3); break;
            case 3: if (filled && Q == B) drain(B), filled = false; else rd(B, 1); break;
            case 4: cl(A); break;      case 5: cl(B); break;
            case 6: { if (R[D] >= 1000) { R[D] = 900; V[D] = 900; } BOTH("dup2", __real_dup2(R[A], R[D]), __wrap_dup2(V[A], V[D])); break; }
            case 7: cl(D); break;
            case 8: ctl(EPOLL_CTL_ADD, A, S_IN); break;  case 9: ctl(EPOLL_CTL_MOD, A, S_IN); break;
            case 10: ctl(EPOLL_CTL_MOD, A, S_IN | S_OUT); break; case 11: ctl(EPOLL_CTL_ADD, B, S_OUT); break;
            case 12: ewait(8); break;  case 13: pl(A, POLLIN); break; case 14: pl(B, POLLOUT | POLLIN); break;
            case 15: fill(W); filled = true; break;   case 16: drain(Q); filled = false; break;
            case 17: { int t = 0, u = 0; socklen_t n = sizeof t, m = sizeof u; BOTH("getsockopt", __real_getsockopt(R[A], SOL_SOCKET, SO_TYPE, &t, &n), __wrap_getsockopt(V[A], SOL_SOCKET, SO_TYPE, &u, &m)); MC_CHECK(t == u, "type", "the types differ"); break; }
            case 18: if (mc_mode == 1) rights(A, 1); else if (filled && Q == A) drain(A), filled = false; else rd(A, 1); break;
            case 19: { int k = mc_choose(4, "kind"); if (k == 0) rights(A, 2); else if (filled) drain(B), filled = false; else rxr(B, k == 1 ? 0 : k == 2 ? CMSG_SPACE(sizeof(int)) : CMSG_LEN(sizeof(int))); break; }
        }
    }
    ewait(8);
    for (int i = 0; i < NS; ++i) if (R[i] < 1000) __real_close(R[i]);
    mc_state(h);
}
