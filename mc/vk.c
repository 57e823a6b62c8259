/* vk.c: see vk.h. */
#define _GNU_SOURCE
#include "vk.h"
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/epoll.h>
#include <unistd.h>
#include <limits.h>

typedef struct file file;
typedef struct { uint8_t* data; int n, nfds; file* fds[4]; } msg;
typedef struct { int fd; file* f; uint32_t events; epoll_data_t data; bool disabled; } watch;
struct file
{
    int kind, id, refs, type, pipe, flags; bool nonblock, dead, full; int err; file* peer;
    uint8_t* rx; int n;                                  /* stream. */
    msg q[16]; int nq;                                   /* datagrams. */
    file* pending[8]; int npending;                      /* listening. */
    watch w[16]; int nw;                                 /* epoll. */
};
const char* vk_op_name[VK_OPS] = { "socket", "bind", "listen", "connect", "accept", "read", "write", "sendmsg", "recvmsg", "getsockopt", "setsockopt", "fcntl F_GETFL", "fcntl F_SETFL", "epoll_create", "epoll_ctl", "epoll_wait", "poll", "socketpair", "dup2", "close", "gethostbyname2" };
int vk_base = 200; bool vk_all; int vk_cap = 4, vk_qlen = 2, vk_short, vk_faults; unsigned vk_fault_mask; int vk_failed_op = -1, vk_failed_errno, vk_nfailed;
long vk_count[VK_OPS], vk_badclose, vk_badfd; int vk_host4, vk_host6; char vk_host_name[64];
struct sockaddr_storage vk_connected, vk_bound; int vk_connect_peer, vk_sock_domain, vk_sock_type, vk_backlog; socklen_t vk_bound_len;
int vk_pair_domain, vk_pair_type, vk_pair_proto, vk_opt_level, vk_opt_name, vk_opt_len; unsigned char vk_opt_value[256];
bool (*vk_starve)(int, bool); void (*vk_before_wait)(void), (*vk_before_call)(int), (*vk_on_fault)(int op); bool vk_reorder; int vk_polled;
static file* fds[VK_NFD]; static int fdhi;
#define NFILES 256
static file pool[NFILES]; static int npool, dials;

static file* mk(int kind)
{
    for (int i = 0; i < npool; ++i) if (pool[i].kind == VK_FREE) { memset(&pool[i], 0, sizeof(file)); pool[i].kind = kind; pool[i].id = i; return &pool[i]; }
    if (npool == NFILES) { fprintf(stderr, "vk: too many files\n"); abort(); }
    file* f = &pool[npool]; memset(f, 0, sizeof *f); f->kind = kind; f->id = npool++; return f;
}
static void unref(file* f)
{
    if (--f->refs > 0) return;
    for (int i = 0; i < npool; ++i) if (pool[i].kind == VK_EPOLL) { file* e = &pool[i]; int k = 0; for (int j = 0; j < e->nw; ++j) if (e->w[j].f != f) e->w[k++] = e->w[j]; e->nw = k; }
    if (f->peer) { f->peer->dead = true; f->peer->full = f->n >= vk_cap; if (f->kind == VK_STREAM && f->n && !f->pipe) f->peer->err = ECONNRESET; f->peer->peer = NULL; f->peer = NULL; }
    int kind = f->kind; f->kind = VK_FREE;
    if (kind == VK_DGRAM) for (int i = 0; i < f->nq; ++i) { mc_xfree(f->q[i].data); for (int j = 0; j < f->q[i].nfds; ++j) unref(f->q[i].fds[j]); }
    if (kind == VK_LISTEN) for (int i = 0; i < f->npending; ++i) unref(f->pending[i]);
    if (f->rx) mc_xfree(f->rx);
    f->rx = NULL; f->nq = 0; f->npending = 0; f->nw = 0;
}
void vk_reset(void)
{
    for (int i = 0; i < fdhi; ++i) fds[i] = NULL;
    for (int i = 0; i < npool; ++i) { if (pool[i].kind == VK_DGRAM) for (int j = 0; j < pool[i].nq; ++j) mc_xfree(pool[i].q[j].data); if (pool[i].kind != VK_FREE && pool[i].rx) mc_xfree(pool[i].rx); pool[i].kind = VK_FREE; pool[i].rx = NULL; }
    fdhi = npool = dials = 0; vk_base = 200; vk_all = false; vk_cap = 4; vk_qlen = 2; vk_short = vk_faults = 0; vk_fault_mask = ~0u; vk_failed_op = -1; vk_failed_errno = vk_nfailed = 0; memset(vk_count, 0, sizeof vk_count); vk_badclose = vk_badfd = 0;
    vk_host4 = vk_host6 = 1; vk_host_name[0] = 0; memset(&vk_connected, 0, sizeof vk_connected); memset(&vk_bound, 0, sizeof vk_bound); vk_connect_peer = -1; vk_sock_domain = vk_sock_type = vk_backlog = -1; vk_bound_len = 0; vk_opt_len = -1; vk_starve = NULL; vk_before_wait = NULL; vk_before_call = NULL; vk_on_fault = NULL; vk_reorder = false; vk_polled = 0;
}
static int put(file* f) { for (int i = vk_base; i < VK_NFD; ++i) if (!fds[i]) { fds[i] = f; ++f->refs; if (i >= fdhi) fdhi = i + 1; return i; } errno = EMFILE; return -1; }
static file* get(int fd) { return fd >= 0 && fd < VK_NFD ? fds[fd] : NULL; }
static file* use(int fd) { file* f = get(fd); if (!f) { ++vk_badfd; errno = EBADF; } return f; }
static bool mine(int fd) { return vk_all || fd >= vk_base || fd < 0; }
static bool fails(int op)
{
    static const int E[VK_OPS][2] = { { EMFILE }, { EADDRINUSE }, { EOPNOTSUPP }, { ECONNREFUSED, EINTR }, { ECONNABORTED, EMFILE }, { ECONNRESET, EINTR }, { EPIPE, ENOBUFS }, { ENOBUFS, ECONNREFUSED }, { ENOMEM, ECONNREFUSED }, { ENOTSOCK }, { ENOPROTOOPT }, { EBADF }, { EINVAL }, { EMFILE }, { ENOMEM }, { EINTR }, { EINTR }, { EMFILE }, { EBUSY, EINTR }, { EIO }, { 1 } };
    ++vk_count[op]; if (vk_before_call) vk_before_call(op);
    if (vk_faults <= 0 || !(vk_fault_mask & (1u << op))) return false;
    int n = E[op][1] ? 3 : 2, k = mc_choose(n, vk_op_name[op]); if (!k) return false;
    --vk_faults; ++vk_nfailed; vk_failed_op = op; vk_failed_errno = errno = E[op][k - 1]; mc_trace("%s fails: %s", vk_op_name[op], strerror(errno)); if (vk_on_fault) { int e = errno; vk_on_fault(op); errno = e; } return true;
}
static int part(int m) { if (m <= 1 || vk_short <= 0) return m; int k = mc_choose(m > 2 ? 3 : 2, "short transfer"); if (k) --vk_short; return k == 0 ? m : k == 1 ? 1 : m - 1; }
static void starve(int fd, bool wr)
{ if (vk_starve && vk_starve(fd, wr)) return; mc_fail("hang", "%s of a blocking descriptor would never return", wr ? "a write" : "a read"); }
static int space(file* f) { return f->peer ? vk_cap - f->peer->n : 0; }
static int bits(file* f)
{
    int b = 0;
    switch (f->kind)
    {
        case VK_STREAM:
            if (f->pipe == 1) { if (f->n) b |= EPOLLIN; if (f->dead) b |= EPOLLHUP; break; }
            if (f->pipe == 2) { if (f->dead ? !f->full : space(f) > 0) b |= EPOLLOUT; if (f->dead) b |= EPOLLERR; break; }
            if (f->n || f->dead) b |= EPOLLIN; if (f->dead || space(f) > 0) b |= EPOLLOUT; if (f->dead) b |= EPOLLHUP | EPOLLRDHUP; if (f->err) b |= EPOLLERR; break;
        case VK_DGRAM: if (f->nq) b |= EPOLLIN; if (!f->peer || f->peer->nq < vk_qlen) b |= EPOLLOUT; break;
        case VK_LISTEN: if (f->npending) b |= EPOLLIN; break;
        case VK_SOCKET: b |= EPOLLOUT | EPOLLHUP; break;
        case VK_EPOLL: for (int i = 0; i < f->nw; ++i) if (!f->w[i].disabled && (bits(f->w[i].f) & (int)(f->w[i].events | EPOLLERR | EPOLLHUP))) b |= EPOLLIN; break;
    }
    return b;
}
static int do_read(file* f, void* p, int n, int* nf, file** ff)
{
    if (f->kind == VK_STREAM)
    {
        if (f->n == 0) { if (f->err) { errno = f->err; f->err = 0; return -1; } if (f->dead) return 0; errno = EAGAIN; return -1; }
        int m = n < f->n ? n : f->n; memcpy(p, f->rx, (size_t)m); memmove(f->rx, f->rx + m, (size_t)(f->n - m)); f->n -= m; return m;
    }
    if (f->nq == 0) { errno = EAGAIN; return -1; }
    msg g = f->q[0]; memmove(f->q, f->q + 1, sizeof(msg) * (size_t)(f->nq - 1)); --f->nq;
    int m = n < g.n ? n : g.n; memcpy(p, g.data, (size_t)m); mc_xfree(g.data);
    if (nf) { *nf = g.nfds; memcpy(ff, g.fds, sizeof g.fds); } else for (int i = 0; i < g.nfds; ++i) unref(g.fds[i]);
    return m;
}
static int do_write(file* f, const void* p, int n, int nf, file* const* ff)
{
    if (f->kind == VK_STREAM)
    {
        if (n == 0) return 0;
        if (f->dead) { errno = EPIPE; return -1; }
        int s = space(f); if (s <= 0) { errno = EAGAIN; return -1; }
        file* o = f->peer; int m = n < s ? n : s; if (!o->rx) o->rx = mc_xmalloc((size_t)vk_cap + 16); memcpy(o->rx + o->n, p, (size_t)m); o->n += m; return m;
    }
    if (f->dead) { f->dead = false; while (f->nq) { uint8_t b; int k; file* g[4]; do_read(f, &b, 1, &k, g); for (int i = 0; i < k; ++i) unref(g[i]); } errno = ECONNREFUSED; return -1; }
    if (!f->peer) { errno = ENOTCONN; return -1; }
    file* o = f->peer; if (o->nq >= vk_qlen || o->nq >= 16) { errno = EAGAIN; return -1; }
    msg* g = &o->q[o->nq++]; g->data = mc_xmalloc((size_t)n + 1); memcpy(g->data, p, (size_t)n); g->n = n; g->nfds = nf; for (int i = 0; i < nf; ++i) { g->fds[i] = ff[i]; ++ff[i]->refs; } return n;
}
static bool rw_ok(file* f, int wr) { if (f->pipe && f->pipe != 1 + wr) { errno = wr > 1 ? ENOTSOCK : EBADF; return false; } if (f->kind == VK_STREAM || f->kind == VK_DGRAM) return true; errno = f->kind == VK_EPOLL ? EINVAL : ENOTCONN; return false; }

/* ---- for harnesses ---- */
int vk_open_count(void) { int n = 0; for (int i = 0; i < fdhi; ++i) n += fds[i] != NULL; return n; }
int vk_files(void) { int n = 0; for (int i = 0; i < npool; ++i) n += pool[i].kind != VK_FREE; return n; }
bool vk_is_open(int fd) { return get(fd) != NULL; }
int vk_same_file(int a, int b) { return get(a) && get(a) == get(b); }
int vk_file_id(int fd) { return get(fd) ? get(fd)->id : -1; }
bool vk_nonblock(int fd) { return get(fd) && get(fd)->nonblock; }
void vk_set_type(int fd, int type) { if (get(fd)) get(fd)->type = type; }
bool vk_ready(int fd, bool wr) { file* f = get(fd); return f && (bits(f) & ((wr ? EPOLLOUT : EPOLLIN) | EPOLLHUP | EPOLLERR)); }
int vk_poll_bits(int fd) { file* f = get(fd); return f ? bits(f) : 0; }
int vk_watch(int fd) { file* f = get(fd); int r = -1; for (int i = 0; f && i < npool; ++i) if (pool[i].kind == VK_EPOLL) for (int j = 0; j < pool[i].nw; ++j) if (pool[i].w[j].f == f) r = pool[i].w[j].disabled ? 0 : (int)pool[i].w[j].events; return r; }
void vk_pair(int type, int fd[2])
{
    file *a = mk(type == SOCK_DGRAM ? VK_DGRAM : VK_STREAM); fd[0] = put(a); file* b = mk(a->kind); fd[1] = put(b); a->type = b->type = type; a->peer = b; b->peer = a;
}
void vk_pipe(int fd[2]) { vk_pair(SOCK_STREAM, fd); get(fd[0])->pipe = 1; get(fd[1])->pipe = 2; }
int vk_listener(void) { file* f = mk(VK_LISTEN); f->type = SOCK_STREAM; return put(f); }
int vk_dial(int lfd)
{
    file* l = get(lfd); if (!l || l->kind != VK_LISTEN || l->npending == 8) return -1;
    file *a = mk(VK_STREAM); int fd = put(a); file* b = mk(VK_STREAM); a->type = b->type = SOCK_STREAM; b->refs = 1; a->peer = b; b->peer = a; l->pending[l->npending++] = b; return fd;
}
int vk_push(int fd, const void* p, int n) { return do_write(get(fd), p, n, 0, NULL); }
int vk_pull(int fd, void* p, int n) { return do_read(get(fd), p, n, NULL, NULL); }
int vk_push_fds(int fd, const void* p, int n, const int* v, int k) { file* ff[4]; for (int i = 0; i < k; ++i) ff[i] = get(v[i]); return do_write(get(fd), p, n, k, ff); }
int vk_pull_fds(int fd, void* p, int n, int* v, int max, int* k)
{ file* ff[4]; int nf = 0, r = do_read(get(fd), p, n, &nf, ff); *k = 0; if (r >= 0) for (int i = 0; i < nf; ++i) { if (*k < max) v[(*k)++] = put(ff[i]); unref(ff[i]); } return r; }
int vk_drop(int fd) { file* f = get(fd); if (!f) return -1; fds[fd] = NULL; unref(f); return 0; }
int vk_buffered(int fd) { file* f = get(fd); return !f ? 0 : f->kind == VK_STREAM ? f->n : f->kind == VK_DGRAM ? f->nq : f->npending; }

/* ---- system calls ---- */
int __real_close(int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); int __real_fcntl(int, int, ...); int __real_dup2(int, int);
int __wrap_close(int fd)
{
    if (!mine(fd)) return __real_close(fd);
    file* f = get(fd); bool e = f && fails(VK_CLOSE);
    if (!f) { ++vk_badclose; errno = EBADF; return -1; }
    fds[fd] = NULL; unref(f); if (e) { errno = vk_failed_errno; return -1; } return 0;
}
ssize_t __wrap_read(int fd, void* p, size_t n)
{
    if (!mine(fd)) return __real_read(fd, p, n);
    file* f = use(fd); if (!f || !rw_ok(f, 0)) return -1; if (fails(VK_READ)) return -1;
    if (n == 0) return 0;
    while (!f->nonblock && f->kind == VK_STREAM ? f->n == 0 && !f->dead : !f->nonblock && f->nq == 0) starve(fd, false);
    int m = (int)(n < INT_MAX ? n : INT_MAX); if (f->kind == VK_STREAM) { if (m > f->n) m = f->n; m = part(m); }
    if (f->kind == VK_STREAM && m == 0) m = 1;
    return do_read(f, p, m, NULL, NULL);
}
static ssize_t wr(int fd, file* f, const void* p, size_t n)
{
    if (f->kind == VK_STREAM && f->nonblock) { int s = space(f); int m = (int)(n < (size_t)INT_MAX ? n : INT_MAX); if (s > 0 && m > s) m = s; return do_write(f, p, s > 0 ? part(m) : m, 0, NULL); }
    if (f->kind == VK_STREAM)
    {
        size_t want = (size_t)part((int)(n < INT_MAX ? n : INT_MAX)), d = 0;
        while (d < want) { while (!f->dead && space(f) <= 0) starve(fd, true); int k = do_write(f, (const char*)p + d, (int)(want - d), 0, NULL); if (k < 0) return d ? (ssize_t)d : -1; d += (size_t)k; }
        return (ssize_t)d;
    }
    while (!f->nonblock && !f->dead && f->peer && f->peer->nq >= vk_qlen) starve(fd, true);
    return do_write(f, p, (int)n, 0, NULL);
}
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
    if (!mine(fd)) return __real_write(fd, p, n);
    file* f = use(fd); if (!f || !rw_ok(f, 1)) return -1; if (fails(VK_WRITE)) return -1;
    return wr(fd, f, p, n);
}
ssize_t __wrap_recv(int fd, void* p, size_t n, int flags) { if (flags & ~MSG_NOSIGNAL) { fprintf(stderr, "vk: recv flags\n"); abort(); } return __wrap_read(fd, p, n); }
ssize_t __wrap_send(int fd, const void* p, size_t n, int flags) { if (flags & ~MSG_NOSIGNAL) { fprintf(stderr, "vk: send flags\n"); abort(); } return __wrap_write(fd, p, n); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int flags)
{
    (void)flags; file* f = use(fd); if (!f || !rw_ok(f, 2)) return -1; if (fails(VK_SENDMSG)) return -1;
    uint8_t* b; size_t n = 0; for (size_t i = 0; i < m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len;
    file* ff[4]; int nf = 0;
    if (m->msg_control) for (struct cmsghdr* c = CMSG_FIRSTHDR(m); c; c = CMSG_NXTHDR((struct msghdr*)m, c))
    {
        if (c->cmsg_level != SOL_SOCKET || c->cmsg_type != SCM_RIGHTS) { errno = EINVAL; return -1; }
        for (size_t i = 0; i < (c->cmsg_len - CMSG_LEN(0)) / sizeof(int); ++i) { int d; memcpy(&d, CMSG_DATA(c) + i * sizeof(int), sizeof d); file* g = get(d); if (!g) { ++vk_badfd; errno = EBADF; return -1; } if (nf < 4) ff[nf++] = g; }
    }
    if (f->kind == VK_STREAM && nf) { fprintf(stderr, "vk: rights on a stream\n"); abort(); }
    b = mc_xmalloc(n + 1); n = 0; for (size_t i = 0; i < m->msg_iovlen; ++i) { memcpy(b + n, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); n += m->msg_iov[i].iov_len; }
    ssize_t r;
    if (f->kind == VK_STREAM) r = wr(fd, f, b, n);
    else { while (!f->nonblock && !f->dead && f->peer && f->peer->nq >= vk_qlen) starve(fd, true); r = do_write(f, b, (int)n, nf, ff); }
    mc_xfree(b); return r;
}
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int flags)
{
    (void)flags; file* f = use(fd); if (!f || !rw_ok(f, 2)) return -1; if (fails(VK_RECVMSG)) return -1;
    size_t n = 0; for (size_t i = 0; i < m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len;
    while (!f->nonblock && (f->kind == VK_STREAM ? f->n == 0 && !f->dead : f->nq == 0)) starve(fd, false);
    if (f->kind == VK_STREAM && f->n) { size_t k = (size_t)f->n; if (n > k) n = k; n = (size_t)part((int)n); }
    bool trunc = f->kind == VK_DGRAM && f->nq && f->q[0].n > (int)n;
    uint8_t* b = mc_xmalloc(n + 1); file* ff[4]; int nf = 0; int r = do_read(f, b, (int)n, &nf, ff);
    if (r < 0) { mc_xfree(b); return -1; }
    size_t o = 0; for (size_t i = 0; i < m->msg_iovlen && o < (size_t)r; ++i) { size_t k = m->msg_iov[i].iov_len; if (k > (size_t)r - o) k = (size_t)r - o; memcpy(m->msg_iov[i].iov_base, b + o, k); o += k; }
    mc_xfree(b); m->msg_flags = trunc ? MSG_TRUNC : 0; m->msg_namelen = 0;
    size_t room = m->msg_control ? m->msg_controllen : 0; int fit = room < sizeof(struct cmsghdr) ? 0 : (int)((room - sizeof(struct cmsghdr)) / sizeof(int)); if (fit > nf) fit = nf;
    if (fit < nf) m->msg_flags |= MSG_CTRUNC;
    m->msg_controllen = 0;
    if (fit > 0)
    {
        struct cmsghdr h; memset(&h, 0, sizeof h); h.cmsg_level = SOL_SOCKET; h.cmsg_type = SCM_RIGHTS; h.cmsg_len = CMSG_LEN((size_t)fit * sizeof(int)); memcpy(m->msg_control, &h, sizeof h);
        for (int i = 0; i < fit; ++i) { int d = put(ff[i]); memcpy((uint8_t*)m->msg_control + CMSG_LEN(0) + (size_t)i * sizeof(int), &d, sizeof d); }
        size_t sp = CMSG_SPACE((size_t)fit * sizeof(int)); m->msg_controllen = sp < room ? sp : room;
    }
    for (int i = 0; i < nf; ++i) unref(ff[i]);
    return r;
}
int __wrap_socket(int domain, int type, int proto)
{ if (proto != 0 && (domain == AF_UNIX || proto != ((type & 0xF) == SOCK_STREAM ? IPPROTO_TCP : IPPROTO_UDP))) { errno = EPROTONOSUPPORT; return -1; } if (fails(VK_SOCKET_)) return -1; vk_sock_domain = domain; vk_sock_type = type & 0xF; file* f = mk(VK_SOCKET); f->type = type & 0xF; f->nonblock = (type & SOCK_NONBLOCK) != 0; return put(f); }
static bool addr_ok(const struct sockaddr* a, socklen_t n) { return n >= sizeof a->sa_family && n <= sizeof vk_bound && (a->sa_family != AF_INET || n >= sizeof(struct sockaddr_in)) && (a->sa_family != AF_INET6 || n >= 24); }
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t n) { file* f = use(fd); if (!f) return -1; if (fails(VK_BIND)) return -1; memcpy(&vk_bound, a, n < sizeof vk_bound ? n : sizeof vk_bound); vk_bound_len = n; return 0; }
int __wrap_listen(int fd, int n) { file* f = use(fd); if (!f) return -1; if (fails(VK_LISTEN_)) return -1; vk_backlog = n; f->kind = VK_LISTEN; return 0; }
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t n)
{
    file* f = use(fd); if (!f) return -1; if (!addr_ok(a, n)) { errno = EINVAL; return -1; } if (fails(VK_CONNECT)) return -1;
    memcpy(&vk_connected, a, n < sizeof vk_connected ? n : sizeof vk_connected); f->kind = VK_STREAM; file* p = mk(VK_STREAM); p->type = f->type; p->peer = f; f->peer = p; vk_connect_peer = put(p); return 0;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* n)
{
    file* f = use(fd); if (!f) return -1; if (f->pipe) { errno = ENOTSOCK; return -1; } if (f->kind != VK_LISTEN) { errno = EINVAL; return -1; } if (fails(VK_ACCEPT)) return -1;
    while (!f->nonblock && !f->npending) starve(fd, false);
    if (!f->npending) { errno = EAGAIN; return -1; }
    file* c = f->pending[0]; memmove(f->pending, f->pending + 1, sizeof(file*) * (size_t)(f->npending - 1)); --f->npending;
    struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons((uint16_t)(4000 + dials++)); s.sin_addr.s_addr = htonl(0x7F000001);
    if (a && n) { memcpy(a, &s, *n < sizeof s ? *n : sizeof s); *n = sizeof s; }
    int d = put(c); unref(c); return d;
}
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* n, int fl) { int d = __wrap_accept(fd, a, n); if (d >= 0 && (fl & SOCK_NONBLOCK)) get(d)->nonblock = true; return d; }
int __wrap_getsockopt(int fd, int level, int name, void* v, socklen_t* n)
{ file* f = use(fd); if (!f) return -1; if (fails(VK_GETSOCKOPT)) return -1; if (f->kind == VK_EPOLL || f->pipe || f->type < 0) { errno = ENOTSOCK; return -1; } int x = level == SOL_SOCKET && name == SO_TYPE ? f->type : 0; memcpy(v, &x, *n < sizeof x ? *n : sizeof x); *n = sizeof x; return 0; }
int __wrap_setsockopt(int fd, int level, int name, const void* v, socklen_t n)
{ file* f = use(fd); if (!f) return -1; if (fails(VK_SETSOCKOPT)) return -1; vk_opt_level = level; vk_opt_name = name; vk_opt_len = (int)n; memcpy(vk_opt_value, v, n < 256 ? n : 256); return 0; }
int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long x = va_arg(ap, long); va_end(ap);
    if (!mine(fd)) return __real_fcntl(fd, cmd, x);
    file* f = use(fd); if (!f) return -1;
    switch (cmd)
    {
        case F_GETFL: if (fails(VK_GETFL)) return -1; return (f->pipe == 1 ? O_RDONLY : f->pipe == 2 ? O_WRONLY : O_RDWR) | (f->nonblock ? O_NONBLOCK : 0) | f->flags;
        case F_SETFL: if (fails(VK_SETFL)) return -1; f->nonblock = ((int)x & O_NONBLOCK) != 0; f->flags = (int)x & (O_APPEND | O_ASYNC); return 0;
        case F_GETFD: return 0;
        case F_SETFD: return 0;
        default: errno = EINVAL; return -1;
    }
}
int __wrap_dup2(int a, int b)
{
    if (!mine(a) && !mine(b)) return __real_dup2(a, b);
    file* f = use(a); if (!f) return -1; if (b < 0 || b >= VK_NFD) { errno = EBADF; return -1; } if (fails(VK_DUP2)) return -1;
    if (a == b) return b;
    ++f->refs; if (fds[b]) { file* o = fds[b]; fds[b] = NULL; unref(o); } fds[b] = f; if (b >= fdhi) fdhi = b + 1; return b;
}
int __wrap_socketpair(int domain, int type, int proto, int sd[2]) { vk_pair_domain = domain; vk_pair_type = type; vk_pair_proto = proto; if (fails(VK_SOCKETPAIR)) return -1; vk_pair(type & 0xF, sd); if (type & SOCK_NONBLOCK) get(sd[0])->nonblock = get(sd[1])->nonblock = true; return 0; }
int __wrap_epoll_create1(int fl) { (void)fl; if (fails(VK_EPOLL_CREATE)) return -1; return put(mk(VK_EPOLL)); }
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev)
{
    file *e = use(ep), *f = use(fd); if (!e || !f) { errno = EBADF; return -1; } if (e->kind != VK_EPOLL || e == f) { errno = EINVAL; return -1; } if (op != EPOLL_CTL_ADD) ++vk_count[VK_EPOLL_CTL]; else if (fails(VK_EPOLL_CTL)) return -1;   /* only an addition needs memory. */
    int i = 0; while (i < e->nw && !(e->w[i].fd == fd && e->w[i].f == f)) ++i;
    if (op == EPOLL_CTL_ADD) { if (i < e->nw) { errno = EEXIST; return -1; } if (e->nw == 16) { fprintf(stderr, "vk: epoll full\n"); abort(); } e->w[e->nw++] = (watch){ fd, f, ev->events, ev->data, false }; return 0; }
    if (i == e->nw) { errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_MOD) { e->w[i].events = ev->events; e->w[i].data = ev->data; e->w[i].disabled = false; return 0; }
    for (--e->nw; i < e->nw; ++i) e->w[i] = e->w[i + 1];
    return 0;
}
int __wrap_epoll_wait(int ep, struct epoll_event* out, int max, int timeout)
{
    file* e = use(ep); if (!e) return -1; if (e->kind != VK_EPOLL || max <= 0) { errno = EINVAL; return -1; } if (vk_before_wait) vk_before_wait(); if (fails(VK_EPOLL_WAIT)) return -1;
    for (;;)
    {
        int n = 0;
        int many = 0; if (vk_reorder) for (int i = 0; i < e->nw; ++i) many += !e->w[i].disabled && (bits(e->w[i].f) & (int)(e->w[i].events | EPOLLERR | EPOLLHUP)); bool rev = many > 1 && mc_choose(2, "the other order");
        for (int j = 0; j < e->nw && n < max; ++j)
        {
            watch* w = &e->w[rev ? e->nw - 1 - j : j]; if (w->disabled) continue;
            uint32_t b = (uint32_t)bits(w->f) & (w->events | EPOLLERR | EPOLLHUP); if (!b) continue;
            out[n].events = b; out[n].data = w->data; ++n; if (w->events & EPOLLONESHOT) w->disabled = true;
        }
        if (n || timeout == 0) return n;
        if (timeout > 0) return 0;
        if (!vk_starve || !vk_starve(-1, false)) mc_fail("hang", "epoll_wait would never return");
    }
}
int __wrap_poll(struct pollfd* p, nfds_t n, int timeout)
{
    vk_polled = (int)n; if (vk_before_wait) vk_before_wait();
    if (fails(VK_POLL)) return -1;
    for (;;)
    {
        int k = 0;
        for (nfds_t i = 0; i < n; ++i)
        {
            p[i].revents = 0; if (p[i].fd < 0) continue;
            file* f = get(p[i].fd); if (!f) { p[i].revents = POLLNVAL; ++k; continue; }
            int b = bits(f), r = 0; if (b & EPOLLIN) r |= POLLIN; if (b & EPOLLOUT) r |= POLLOUT; r &= p[i].events; if (b & EPOLLHUP) r |= POLLHUP; if (b & EPOLLERR) r |= POLLERR; p[i].revents = (short)r; k += r != 0;
        }
        if (k || timeout == 0) return k;
        if (timeout > 0) return 0;
        if (!vk_starve || !vk_starve(-1, false)) mc_fail("hang", "poll would never return");
    }
}
struct hostent* __wrap_gethostbyname2(const char* name, int af)
{
    static struct hostent h; static uint8_t a4[2][4] = { { 10, 1, 2, 3 }, { 10, 9, 9, 9 } }, a6[2][16] = { { 0xfe, 0x80, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14 }, { 1 } }; static char* l[3];
    snprintf(vk_host_name, sizeof vk_host_name, "%s", name); ++vk_count[VK_RESOLVE];
    int n = af == AF_INET ? vk_host4 : vk_host6; if (!n) return NULL;
    memset(&h, 0, sizeof h); h.h_name = (char*)name; h.h_addrtype = af; h.h_length = af == AF_INET ? 4 : 16; for (int i = 0; i < n; ++i) l[i] = af == AF_INET ? (char*)a4[i] : (char*)a6[i]; l[n] = NULL; h.h_addr_list = l; return &h;
}
