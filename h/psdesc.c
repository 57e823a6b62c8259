/*
 * Sockets over descriptors, on the virtual kernel.
 *
 * mode 0: datagrams and descriptors that are passed in them.
 * mode 1: who owns which descriptor, over histories that create, wrap, accept and release.
 * mode 2: listen, connect, accept and options, each system call failing.
 * mode 3: reads that do not block.
 */
#define _GNU_SOURCE
#include "common.h"
#include "vk.h"
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <rcpr/fiber.h>
#include <rcpr/psock.h>
RCPR_IMPORT_psock; RCPR_IMPORT_fiber;
const char* mc_name = "psdesc";
int __wrap_close(int); int __wrap_fcntl(int, int, ...);
static int mode; static allocator* al; static uint64_t hist;
#define OK(x) do { status s_ = (x); MC_CHECK(s_ == STATUS_SUCCESS, "setup", "%s failed: %x", #x, (unsigned)s_); } while (0)
/* the descriptors' numbers: those made at first, those made later. Every descriptor is virtual where they are small. */
static const int BASE[][2] = { { 200, 200 }, { 0, 0 }, { 1, 0 }, { 255, 256 }, { 1030, 1030 } }; enum { NB = 5 };
static int lowfd, scanfd; static void number(int b) { vk_base = BASE[b][0]; vk_all = b != 0; lowfd = BASE[b][1]; scanfd = lowfd < vk_base ? lowfd : vk_base; }
static void later(void) { vk_base = lowfd; }
static void rel(psock* s) { OK(resource_release(psock_resource_handle(s))); }
static void leaks(int fds) { MC_CHECK(vk_open_count() == fds, "descriptor-leak", "%d descriptors are open, there should be %d", vk_open_count(), fds); MC_CHECK(vk_badclose == 0, "bad-close", "a descriptor that is not open was closed"); MC_CHECK(vk_badfd == 0, "bad-descriptor", "a descriptor that is not open was used"); }

/* ---- mode 0 ---- */
typedef struct { int n, first, nf, f[2]; } gram;
static gram Q[2][8]; static int nq[2], serial;
static int sdesc[2]; static psock* ps[2];
static void push(int to, gram g) { Q[to][nq[to]++] = g; }
static gram pop(int to) { gram g = Q[to][0]; memmove(Q[to], Q[to] + 1, sizeof(gram) * 7); --nq[to]; return g; }
static void bytes(uint8_t* b, int n, int first) { for (int i = 0; i < n; ++i) b[i] = (uint8_t)(first + i); }
static void run0(int sc)
{
    int kind = sc % 3; number(sc / 3); vk_qlen = 2; serial = 1; nq[0] = nq[1] = 0;
    int obj[2][2]; vk_pair(SOCK_STREAM, obj[0]); vk_pair(SOCK_STREAM, obj[1]); vk_pair(kind == 1 ? SOCK_STREAM : SOCK_DGRAM, sdesc);
    for (int i = 0; i < 2; ++i) { __wrap_fcntl(sdesc[i], F_SETFL, O_NONBLOCK); OK(psock_create_from_descriptor(&ps[i], al, sdesc[i])); }
    psock* buf = NULL; if (kind == 2) OK(psock_create_from_buffer(&buf, al, "abc", 3));
    MC_CHECK(psock_socket_type(ps[0]) == (kind == 1 ? PSOCK_SOCKET_TYPE_STREAM : PSOCK_SOCKET_TYPE_DATAGRAM), "socket-type", "the socket type is %d", (int)psock_socket_type(ps[0]));
    int base = vk_open_count(), held = 0; int id[2] = { vk_file_id(obj[0][0]), vk_file_id(obj[1][0]) };
    vk_fault_mask = 1u << VK_SENDMSG | 1u << VK_RECVMSG | 1u << VK_READ | 1u << VK_WRITE; later();
    for (int i = 0; i < mc_bound; ++i)
    {
        if (kind)
        {
            psock* p = buf ? buf : ps[i & 1]; int d = -7; status r = mc_choose(2, "operation") ? psock_read_raw_descriptor(p, &d) : psock_write_raw_descriptor(p, obj[0][0]);
            MC_CHECK(r == ERROR_PSOCK_UNSUPPORTED_TYPE, "unsupported", "a descriptor can be sent over something that is no datagram socket: %x", (unsigned)r); MC_CHECK(d < 0, "descriptor", "a descriptor was given"); mc_nontrivial(); mc_step(); leaks(base); continue;
        }
        int s = i == 0 ? 0 : mc_choose(2, "side"), o = 1 - s, op = mc_choose(7, "operation"); vk_faults = nq[0] + nq[1] + i > 0 ? mc_choose(2, "a call may fail") : 0; int nf0 = vk_nfailed; hist = mc_hash(hist, (uint64_t)(op * 2 + s));
        if (op == 0)
        {
            int k = mc_choose(3, "descriptor"); int d = k == 2 ? 999 : obj[k][0]; long bad = vk_badfd; mc_trace("side %d sends descriptor %d", s, d);
            status r = psock_write_raw_descriptor(ps[s], d);
            if (k == 2) { if (vk_nfailed == nf0) MC_CHECK(vk_badfd == bad + 1, "bad", "the descriptor was not used"); vk_badfd = bad; }
            status w = vk_nfailed > nf0 || k == 2 ? ERROR_PSOCK_SENDMSG_FAILED : nq[o] == vk_qlen ? ERROR_PSOCK_WRITE_WOULD_BLOCK : STATUS_SUCCESS;
            MC_CHECK(r == w, "send", "sending a descriptor gives %x, expected %x", (unsigned)r, (unsigned)w); if (!r) { push(o, (gram){ 1, 0, 1, { id[k] } }); mc_nontrivial(); }
        }
        else if (op == 1)
        {
            int d = 12345; mc_trace("side %d receives a descriptor", s); status r = psock_read_raw_descriptor(ps[s], &d);
            status w = vk_nfailed > nf0 ? ERROR_PSOCK_RECVMSG_FAILED : !nq[s] ? ERROR_PSOCK_READ_WOULD_BLOCK : !Q[s][0].nf ? ERROR_PSOCK_READ_GENERAL : STATUS_SUCCESS;
            MC_CHECK(r == w, "receive", "receiving a descriptor gives %x, expected %x", (unsigned)r, (unsigned)w);
            if (vk_nfailed == nf0 && nq[s])
            {
                gram g = pop(s); if (!r) { MC_CHECK(d >= 0 && d != 12345 && vk_is_open(d) && vk_file_id(d) == g.f[0], "wrong-descriptor", "the descriptor received is not the one sent"); ++held; MC_CHECK(vk_open_count() == base + held, "descriptor-leak", "a message with %d descriptors left %d open", g.nf, vk_open_count() - base - held + 1); mc_nontrivial(); }
            }
            if (r) MC_CHECK(d == -1 || d == 12345, "descriptor", "descriptor %d was given on failure", d);
        }
        else if (op == 6)
        {
            uint16_t v = 0x5A5A; mc_trace("side %d reads a 16 bit value", s); status r = psock_read_raw_uint16(ps[s], &v);
            status w = vk_nfailed > nf0 ? ERROR_PSOCK_READ_GENERAL : !nq[s] ? ERROR_PSOCK_READ_WOULD_BLOCK : Q[s][0].n < 2 ? ERROR_PSOCK_READ_INVALID_SIZE : STATUS_SUCCESS;
            MC_CHECK(r == w, "read-word", "reading a 16 bit value gives %x, expected %x", (unsigned)r, (unsigned)w);
            if (vk_nfailed == nf0 && nq[s]) { gram g = pop(s); uint8_t e[4]; bytes(e, 3, g.first); if (!r) MC_CHECK(v == (uint16_t)(e[0] << 8 | e[1]), "data", "the value read is %x", v); }
            if (r) MC_CHECK(v == 0x5A5A, "data", "a failed read changed its output");
        }
        else if (op == 2)
        {
            int n = 1 + 2 * mc_choose(2, "size"); uint8_t b[4]; bytes(b, n, serial); mc_trace("side %d writes %d bytes", s, n); status r = psock_write_raw_data(ps[s], b, (size_t)n);
            status w = vk_nfailed > nf0 ? ERROR_PSOCK_WRITE_GENERAL : nq[o] == vk_qlen ? ERROR_PSOCK_WRITE_WOULD_BLOCK : STATUS_SUCCESS; MC_CHECK(r == w, "write", "a write gives %x, expected %x", (unsigned)r, (unsigned)w);
            if (!r) { push(o, (gram){ n, serial, 0, { 0 } }); serial += n; }
        }
        else if (op == 3)
        {
            int n = 1 + 2 * mc_choose(2, "size"); uint8_t* p = NULL; long live = mc_mem_live(); mc_trace("side %d reads %d bytes", s, n); status r = psock_read_raw_data(ps[s], al, (void**)&p, (size_t)n);
            uint8_t e[4]; int got = 0, q = 0, pops = 0; status w = STATUS_SUCCESS; int fail_at = vk_nfailed > nf0 ? -2 : -1;
            /* each datagram gives its first bytes; the rest of it is lost. */
            while (got < n) { if (q == nq[s]) { w = ERROR_PSOCK_READ_WOULD_BLOCK; break; } gram g = Q[s][q++]; int k = g.n < n - got ? g.n : n - got; bytes(e + got, k, g.first); got += k; ++pops; }
            if (fail_at == -2) { MC_CHECK(r == ERROR_PSOCK_READ_GENERAL || r == w, "read", "a failed read gives %x", (unsigned)r); pops = nq[s] - vk_buffered(sdesc[s]); w = r; }
            MC_CHECK(r == w, "read", "a read of %d bytes gives %x, expected %x", n, (unsigned)r, (unsigned)w);
            if (!r) { MC_CHECK(!memcmp(p, e, (size_t)n), "data", "the data read differ"); OK(allocator_reclaim(al, p)); if (pops > 1) mc_nontrivial(); }
            MC_CHECK(mc_mem_live() == live, "leak", "%ld blocks are left", mc_mem_live() - live); while (pops-- > 0) pop(s);
        }
        else if (op == 4)
        {
            int k = mc_choose(3, "descriptors"), v[2] = { obj[0][0], obj[1][0] }; if (nq[s] == vk_qlen) { vk_faults = 0; continue; } uint8_t b[2]; bytes(b, 2, serial); mc_trace("a message with %d descriptors comes to side %d", k, s);
            vk_push_fds(sdesc[o], b, 2, v, k); push(s, (gram){ 2, serial, k, { id[0], id[1] } }); serial += 2;
        }
        else { uint8_t b[4]; size_t n = 3; status r = psock_read_raw(ps[s], b, &n); mc_trace("side %d reads what there is", s);
            status w = vk_nfailed > nf0 ? ERROR_PSOCK_READ_GENERAL : !nq[s] ? ERROR_PSOCK_READ_WOULD_BLOCK : STATUS_SUCCESS; MC_CHECK(r == w, "read-raw", "a read gives %x, expected %x", (unsigned)r, (unsigned)w);
            if (!r) { gram g = pop(s); size_t k = g.n < 3 ? (size_t)g.n : 3; uint8_t e[4]; bytes(e, 3, g.first); MC_CHECK(n == k && !memcmp(e, b, n), "data", "%zu bytes were read of a message of %d", n, g.n); } }
        vk_faults = 0; mc_step(); leaks(base + held); for (int j = 0; j < 2; ++j) MC_CHECK(vk_buffered(sdesc[j]) == nq[j], "messages", "%d messages wait, there should be %d", vk_buffered(sdesc[j]), nq[j]);
    }
    if (buf) rel(buf);
    for (int i = 0; i < 2; ++i) rel(ps[i]);
    leaks(base - 2 + held); MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks are left", mc_mem_live());
}

/* ---- mode 1 ---- */
#define NS 4
static struct { psock* p; psock_br* br; int fd, peer; bool async, listen; } S[NS];
static void run1(int sc)
{
    number(sc); memset(S, 0, sizeof S); int extra = 0, raw = -1; fiber_scheduler* fs = NULL; fiber* mainf = NULL; bool ep = false;
    OK(fiber_scheduler_create_with_disciplines(&fs, al)); OK(disciplined_fiber_scheduler_main_fiber_get(&mainf, fs)); long mem0 = mc_mem_live();
    for (int i = 0; i < mc_bound; ++i)
    {
        int s = 0; while (s < NS - 1 && S[s].p) ++s;
        int can[40], nc = 0, k; for (int o = 0; o < 8; ++o) for (int j = 0; j < NS; ++j)
        {
            bool each = o == 2 || o == 3 || o == 4 || o == 6; if (!each && j) continue;
            bool ok = o == 0 || o == 1 || o == 7 ? !S[s].p : o == 2 || o == 3 ? S[j].p && !S[j].br : o == 4 ? S[j].p && S[j].listen : o == 5 ? raw >= 0 && !S[s].p : S[j].p != NULL;
            if (ok) can[nc++] = o * NS + j;
        }
        int op = can[mc_choose(nc, "operation")]; k = op % NS; op /= NS;
        int f = mc_choose(3, "what fails"); int nf = vk_nfailed; long mf = mc_mem_failures();
        if (f == 1) mc_mem_fail_at(mc_choose(3, "which allocation")); else if (f == 2) { vk_faults = 1; vk_fault_mask = ~0u & ~(1u << VK_EPOLL_WAIT); }
        #define FAILED (vk_nfailed > nf || mc_mem_failures() > mf)
        hist = mc_hash(hist, (uint64_t)(op + 16 * f));
        switch (op)
        {
            case 0: case 1:   /* from a descriptor of our own. */
            {
                int fd[2]; if (op == 0) vk_pair(SOCK_STREAM, fd); else { fd[0] = vk_listener(); fd[1] = -1; }
                psock* p = (psock*)8; status r = psock_create_from_descriptor(&p, al, fd[0]); mc_trace("create from descriptor %d: %x", fd[0], (unsigned)r);
                if (r) { MC_CHECK(mc_mem_failures() > mf, "create", "a socket could not be created: %x", (unsigned)r); MC_CHECK(p == NULL, "output", "the output is not NULL on failure"); MC_CHECK(vk_is_open(fd[0]), "closed", "the caller's descriptor was closed on failure"); vk_drop(fd[0]); if (fd[1] >= 0) vk_drop(fd[1]); }
                else { S[s].p = p; S[s].fd = fd[0]; S[s].peer = fd[1]; S[s].listen = op == 1; }
                break;
            }
            case 2:   /* wrap. */
            {
                psock* p = (psock*)8; status r = psock_create_wrap_async(&p, al, mainf, S[k].p); mc_trace("wrap %d: %x", k, (unsigned)r);
                if (S[k].async) { MC_CHECK(r == ERROR_PSOCK_UNSUPPORTED_TYPE, "wrap-twice", "wrapping an asynchronous socket gives %x", (unsigned)r); }
                else if (r) MC_CHECK(FAILED, "wrap", "a socket could not be wrapped: %x", (unsigned)r);
                if (r) MC_CHECK(vk_is_open(S[k].fd), "closed", "the child's descriptor was closed on failure");
                else { MC_CHECK(vk_nonblock(S[k].fd), "blocking", "the descriptor of an asynchronous socket blocks"); S[k].p = p; S[k].async = true; mc_nontrivial(); }
                break;
            }
            case 3:
            {
                psock_br* b = (psock_br*)8; status r = psock_br_create_from_psock(&b, al, S[k].p); mc_trace("buffered reader for %d: %x", k, (unsigned)r);
                if (r) { MC_CHECK(mc_mem_failures() > mf, "reader", "a reader could not be created: %x", (unsigned)r); MC_CHECK(b == NULL, "output", "the output is not NULL on failure"); } else S[k].br = b;
                break;
            }
            case 4:   /* accept: the descriptor is the caller's. */
            {
                int c = vk_dial(S[k].fd); struct sockaddr_in a; socklen_t n = sizeof a; int d = -7; int before = vk_open_count(), b0 = vk_base; later(); status r = psock_accept(S[k].br ? psock_br_psock_adapter(S[k].br) : S[k].p, &d, (struct sockaddr*)&a, &n); vk_base = b0; mc_trace("accept from %d: %x", k, (unsigned)r);
                if (r) { MC_CHECK(FAILED, "accept", "accept failed: %x", (unsigned)r); MC_CHECK(vk_open_count() == before, "accept-failed", "a failed accept gave a descriptor"); }
                else { MC_CHECK(vk_is_open(d) && vk_open_count() == before + 1, "accept", "accept gave no descriptor of its own"); if (raw >= 0) { vk_drop(raw); --extra; } raw = d; ++extra; mc_nontrivial(); }
                ++extra; vk_drop(c); --extra;
                break;
            }
            case 5:   /* a socket for the accepted descriptor. */
            {
                psock* p = NULL; status r = psock_create_from_descriptor(&p, al, raw); if (!r) { S[s].p = p; S[s].fd = raw; S[s].peer = -1; raw = -1; --extra; mc_nontrivial(); } else MC_CHECK(vk_is_open(raw), "closed", "the caller's descriptor was closed on failure");
                break;
            }
            case 6:   /* release. */
            {
                mc_trace("release %d", k);
                if (S[k].br) { OK(resource_release(psock_br_resource_handle(S[k].br))); MC_CHECK(vk_is_open(S[k].fd), "closed", "the release of a reader closed the descriptor"); }
                long c = vk_count[VK_CLOSE]; rel(S[k].p); MC_CHECK(!vk_is_open(S[k].fd), "left-open", "the release of a socket left its descriptor open"); MC_CHECK(vk_count[VK_CLOSE] == c + 1, "close", "the release of a socket made %ld closes", vk_count[VK_CLOSE] - c);
                if (S[k].peer >= 0) vk_drop(S[k].peer); 
                memset(&S[k], 0, sizeof S[k]); break;
            }
            case 7:   /* connected and listening sockets made by the library. */
            {
                psock* p = (psock*)8; struct sockaddr_in a = { .sin_family = AF_INET, .sin_port = 7 }; bool l = mc_choose(2, "listen"); int b0 = vk_base; later(); status r = l ? psock_create_from_listen_address(&p, al, (struct sockaddr*)&a, sizeof a) : psock_create_from_hostname_and_port(&p, al, "name", 80); vk_base = b0; mc_trace("%s: %x", l ? "listen" : "connect", (unsigned)r);
                if (r) { MC_CHECK(FAILED, "create", "a socket could not be created: %x", (unsigned)r); MC_CHECK(p == NULL, "output", "the output is not NULL on failure"); if (vk_connect_peer >= 0 && !l) { vk_drop(vk_connect_peer); vk_connect_peer = -1; } }
                else { S[s].p = p; S[s].listen = l; S[s].peer = -1; if (!l) { S[s].peer = vk_connect_peer; vk_connect_peer = -1; } S[s].fd = -1; int lo = -1; for (int q = scanfd; q < scanfd + 60; ++q) { bool known = !vk_is_open(q) || q == raw; for (int z = 0; z < NS; ++z) known |= z != s && S[z].p && (S[z].fd == q || S[z].peer == q); known |= q == S[s].peer; if (!known && vk_poll_bits(q) >= 0 && lo < 0 && vk_file_id(q) >= 0 && vk_watch(q) == -1) { int t = 0; socklen_t tn = sizeof t; extern int __wrap_getsockopt(int, int, int, void*, socklen_t*); int sv = vk_faults; vk_faults = 0; if (!__wrap_getsockopt(q, SOL_SOCKET, SO_TYPE, &t, &tn)) lo = q; vk_faults = sv; } } S[s].fd = lo; MC_CHECK(lo >= 0, "no-descriptor", "the socket has no descriptor"); mc_nontrivial(); }
                break;
            }
        }
        vk_faults = 0; mc_mem_fail_at(-1);
        if (vk_count[VK_EPOLL_CREATE] && !ep) ep = true;
        int want = extra; for (int k = 0; k < NS; ++k) if (S[k].p) want += 1 + (S[k].peer >= 0);
        int eps = 0; for (int q = scanfd; q < scanfd + 100; ++q) if (vk_is_open(q)) { int t; socklen_t tn = sizeof t; extern int __wrap_getsockopt(int, int, int, void*, socklen_t*); if (__wrap_getsockopt(q, SOL_SOCKET, SO_TYPE, &t, &tn)) ++eps; }
        MC_CHECK(eps <= 1, "epoll-leak", "%d epoll descriptors are open", eps);
        leaks(want + eps); mc_step(); for (int k = 0; k < NS; ++k) if (S[k].p) MC_CHECK(vk_is_open(S[k].fd), "closed", "the descriptor of a live socket is closed");
    }
    for (int k = 0; k < NS; ++k) if (S[k].p) { if (S[k].br) OK(resource_release(psock_br_resource_handle(S[k].br))); rel(S[k].p); if (S[k].peer >= 0) vk_drop(S[k].peer); }
    if (raw >= 0) vk_drop(raw);
    (void)mem0; OK(resource_release(fiber_scheduler_resource_handle(fs))); leaks(0); MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks are left", mc_mem_live());
}

/* ---- mode 2 ---- */
static void run2(int sc)
{
    int bound = sc / 7 && mc_bound > 3 ? 3 : mc_bound; number(sc / 7); sc %= 7; if (sc < 2) later();
    if (sc == 6)
    {
        /* what a descriptor is taken for. */
        static const int T[] = { SOCK_STREAM, SOCK_DGRAM, SOCK_SEQPACKET, SOCK_RAW, SOCK_RDM, 7, 0, -1 }; int t = T[mc_choose(8, "type")], fd[2]; vk_pair(SOCK_STREAM, fd); vk_set_type(fd[0], t); psock* p; vk_faults = mc_choose(2, "a call fails");
        OK(psock_create_from_descriptor(&p, al, fd[0])); MC_CHECK(psock_socket_type(p) == (vk_nfailed ? PSOCK_SOCKET_TYPE_OTHER : t == SOCK_STREAM ? PSOCK_SOCKET_TYPE_STREAM : t == SOCK_DGRAM ? PSOCK_SOCKET_TYPE_DATAGRAM : PSOCK_SOCKET_TYPE_OTHER), "socket-type", "a socket of type %d is taken for %d", t, (int)psock_socket_type(p));
        vk_faults = 0; int d = -7; if (t != SOCK_DGRAM || vk_nfailed) { MC_CHECK(psock_write_raw_descriptor(p, fd[1]) == ERROR_PSOCK_UNSUPPORTED_TYPE, "unsupported", "a descriptor can be sent over a socket of type %d", t); MC_CHECK(psock_read_raw_descriptor(p, &d) == ERROR_PSOCK_UNSUPPORTED_TYPE, "unsupported", "a descriptor can be received from a socket of type %d", t); }
        mc_step(); mc_nontrivial(); rel(p); vk_drop(fd[1]); leaks(0); return;
    }
    static const unsigned PORT[] = { 0, 1, 80, 255, 256, 0x1234, 65535 };
    if (sc == 0)
    {
        unsigned port = PORT[mc_choose(7, "port")]; int h = mc_choose(4, "addresses"); vk_host4 = h & 1 ? 2 : 0; vk_host6 = h & 2 ? 2 : 0; int f = mc_choose(3, "what fails");
        if (f == 1) mc_mem_fail_at(mc_choose(2, "which allocation")); else if (f == 2) vk_faults = 1;
        vk_fault_mask &= ~(1u << VK_CLOSE); psock* p = (psock*)8; status r = psock_create_from_hostname_and_port(&p, al, "some.host", port); vk_faults = 0; mc_mem_fail_at(-1); mc_step();
        status w = !h ? ERROR_PSOCK_HOSTNAME_LOOKUP_FAILURE : vk_nfailed && vk_failed_op == VK_SOCKET_ ? ERROR_PSOCK_SOCKET_CREATE : vk_nfailed && vk_failed_op == VK_CONNECT ? ERROR_PSOCK_CONNECTION_REFUSED : mc_mem_failures() ? ERROR_GENERAL_OUT_OF_MEMORY : STATUS_SUCCESS;
        MC_CHECK(r == w, "connect", "connecting gives %x, expected %x", (unsigned)r, (unsigned)w); MC_CHECK(!strcmp(vk_host_name, "some.host"), "name", "another name was looked up");
        if (r) { MC_CHECK(p == NULL, "output", "the output is not NULL on failure"); leaks(vk_connect_peer >= 0 ? 1 : 0); if (h) mc_nontrivial(); }
        else
        {
            MC_CHECK(vk_sock_type == SOCK_STREAM && vk_sock_domain == (h & 1 ? AF_INET : AF_INET6) && vk_connected.ss_family == vk_sock_domain, "family", "the socket is of another kind than the address");
            if (h & 1) { struct sockaddr_in* a = (void*)&vk_connected; MC_CHECK(ntohs(a->sin_port) == port && ntohl(a->sin_addr.s_addr) == 0x0A010203, "address", "another address was connected to: port %u", ntohs(a->sin_port)); }
            else { struct sockaddr_in6* a = (void*)&vk_connected; MC_CHECK(a->sin6_flowinfo == 0 && a->sin6_scope_id == 0, "address", "the address has a flow or a scope that nobody asked for"); static const uint8_t e[16] = { 0xfe, 0x80, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14 }; MC_CHECK(ntohs(a->sin6_port) == port && !memcmp(&a->sin6_addr, e, 16), "address", "another address was connected to: port %u", ntohs(a->sin6_port)); }
            MC_CHECK(vk_count[VK_CONNECT] == 1, "connect", "%ld connections were made", vk_count[VK_CONNECT]); bool typ = vk_nfailed && vk_failed_op == VK_GETSOCKOPT; MC_CHECK(psock_socket_type(p) == (typ ? PSOCK_SOCKET_TYPE_OTHER : PSOCK_SOCKET_TYPE_STREAM), "socket-type", "the socket type is %d", (int)psock_socket_type(p));
            OK(psock_write_raw_uint8(p, 0x5A)); uint8_t b = 0; MC_CHECK(vk_pull(vk_connect_peer, &b, 1) == 1 && b == 0x5A, "peer", "what is written does not reach the peer"); rel(p); leaks(1);
        }
        if (vk_connect_peer >= 0) vk_drop(vk_connect_peer);
    }
    else if (sc == 1)
    {
        unsigned port = PORT[mc_choose(7, "port")]; int f = mc_choose(3, "what fails"); if (f == 1) mc_mem_fail_at(mc_choose(2, "which allocation")); else if (f == 2) vk_faults = 1 + mc_choose(2, "two failures");
        static const socklen_t AL[] = { sizeof(struct sockaddr_in), 0, 2, 8, sizeof(struct sockaddr_in6), 110, sizeof(struct sockaddr_storage) }; socklen_t an = AL[f ? 0 : mc_choose(7, "length of the address")];
        union { struct sockaddr_in a; uint8_t b[sizeof(struct sockaddr_storage)]; } a; for (size_t i = 0; i < sizeof a; ++i) a.b[i] = (uint8_t)(i + 3); a.a.sin_family = AF_INET; a.a.sin_port = htons((uint16_t)port); a.a.sin_addr.s_addr = htonl(0x7F000001); struct sockaddr* ap = mc_xmalloc(an); memcpy(ap, &a, an);
        psock* p = (psock*)8; int fo = -1; status r = psock_create_from_listen_address(&p, al, ap, an); bool same = !memcmp(ap, &a, an); mc_xfree(ap); vk_faults = 0; mc_mem_fail_at(-1); mc_step(); fo = vk_failed_op;
        if (r == STATUS_SUCCESS) { bool typ = vk_nfailed && fo == VK_GETSOCKOPT; MC_CHECK(vk_nfailed == typ && !mc_mem_failures(), "listen", "a failing call was not reported"); }
        else
        {
            status w = vk_nfailed == 2 || (vk_nfailed == 1 && fo == VK_CLOSE) ? ERROR_PSOCK_CREATE_FROM_ADDRESS_CLOSE : !vk_nfailed ? ERROR_GENERAL_OUT_OF_MEMORY : fo == VK_SOCKET_ ? ERROR_PSOCK_CREATE_FROM_ADDRESS_SOCKET_CREATE : fo == VK_BIND ? ERROR_PSOCK_CREATE_FROM_ADDRESS_BIND : ERROR_PSOCK_CREATE_FROM_ADDRESS_LISTEN;
            MC_CHECK(vk_nfailed || mc_mem_failures(), "listen", "a socket could not be created: %x", (unsigned)r); MC_CHECK(r == w || (vk_nfailed == 2 && fo != VK_CLOSE), "listen", "listening gives %x, expected %x", (unsigned)r, (unsigned)w); MC_CHECK(p == NULL, "output", "the output is not NULL on failure"); leaks(0); mc_nontrivial(); return;
        }
        MC_CHECK(vk_bound_len == an && !memcmp(&vk_bound, &a, an) && same, "address", "another address was bound"); MC_CHECK(vk_sock_domain == AF_INET && vk_sock_type == SOCK_STREAM && vk_backlog > 0, "kind", "the listening socket is of another kind"); MC_CHECK(vk_open_count() == 1, "descriptors", "%d descriptors are open", vk_open_count()); rel(p); leaks(0);
    }
    else
    {
        /* accept: in order, one each; a failure changes nothing. 3 and 5: through a buffered reader; 4, 5: the socket does not block. */
        int l = vk_listener(); if (sc >= 4) __wrap_fcntl(l, F_SETFL, O_NONBLOCK); psock* p; OK(psock_create_from_descriptor(&p, al, l)); psock_br* br = NULL; psock* q = p; if (sc & 1) { OK(psock_br_create_from_psock(&br, al, p)); q = psock_br_psock_adapter(br); }
        int client[12], nc = 0, na = 0, got[12]; later(); vk_fault_mask = 1u << VK_ACCEPT | 1u << VK_SETSOCKOPT;
        for (int i = 0; i < bound; ++i)
        {
            int op = sc < 4 && na == nc ? 2 * mc_choose(2, "operation") : mc_choose(3, "operation"); hist = mc_hash(hist, (uint64_t)op);
            if (op == 0) { client[nc] = vk_dial(l); ++nc; continue; }
            vk_faults = mc_choose(2, "fails"); int nf = vk_nfailed; mc_step();
            if (op == 1)
            {
                struct sockaddr_in a; memset(&a, 0x77, sizeof a); socklen_t n = sizeof a; int d = -7; status r = psock_accept(q, &d, (struct sockaddr*)&a, &n);
                status w = vk_nfailed > nf ? ERROR_PSOCK_ACCEPT_GENERAL : na == nc ? ERROR_PSOCK_ACCEPT_WOULD_BLOCK : STATUS_SUCCESS; MC_CHECK(r == w, "accept", "accept gives %x, expected %x", (unsigned)r, (unsigned)w);
                if (!r)
                {
                    MC_CHECK(d >= 0 && vk_is_open(d), "descriptor", "accept gave no open descriptor"); MC_CHECK(n == sizeof a && a.sin_family == AF_INET && ntohs(a.sin_port) == 4000 + na, "peer-address", "the address is not the peer's"); got[na] = d;
                    uint8_t x = (uint8_t)(10 + na), y = 0; vk_push(client[na], &x, 1); MC_CHECK(vk_pull(d, &y, 1) == 1 && y == x, "order", "connections are accepted out of order"); ++na; mc_nontrivial();
                }
            }
            else
            {
                static const int LV[] = { SOL_SOCKET, 6, 0, 41 }, NM[] = { 2, 0, 25, 0x10003 }; static const socklen_t LN[] = { 4, 2, 1, 16, 20, 0, 200 }; int k = (mc_choose(3, "option") + 2 * i + sc) % 7, lv = LV[k % 4], nm = NM[(k + i) % 4]; socklen_t ln = LN[k]; uint8_t v[200]; for (int j = 0; j < 200; ++j) v[j] = (uint8_t)(j * 3 + i); status r = psock_setsockopt(q, lv, nm, v, ln);
                status w = sc & 1 ? r : vk_nfailed > nf ? ERROR_PSOCK_SETSOCKOPT : STATUS_SUCCESS; MC_CHECK(r == w, "setsockopt", "setting an option gives %x, expected %x", (unsigned)r, (unsigned)w); if (r == STATUS_SUCCESS) MC_CHECK(vk_opt_level == lv && vk_opt_name == nm && vk_opt_len == (int)ln && !memcmp(vk_opt_value, v, (size_t)vk_opt_len), "option", "another option was set");
            }
            vk_faults = 0; leaks(1 + nc + na);
        }
        for (int i = 0; i < na; ++i) vk_drop(got[i]);
        for (int i = 0; i < nc; ++i) vk_drop(client[i]);
        if (br) OK(resource_release(psock_br_resource_handle(br)));
        rel(p); leaks(0);
    }
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks are left", mc_mem_live());
}

/* ---- mode 3 ---- */
static void run3(int sc)
{
    if (sc >= 4) { number(1); sc -= 4; }
    fiber_scheduler* fs; fiber* mainf; OK(fiber_scheduler_create_with_disciplines(&fs, al)); OK(disciplined_fiber_scheduler_main_fiber_get(&mainf, fs)); int fd[2]; vk_pair(SOCK_STREAM, fd); vk_cap = 64;
    psock *p, *q; psock_br* br = NULL; OK(psock_create_from_descriptor(&p, al, fd[0])); __wrap_fcntl(fd[0], F_SETFL, O_NONBLOCK); if (sc & 1) OK(psock_create_wrap_async(&p, al, mainf, p)); q = p; if (sc & 2) { OK(psock_br_create_from_psock(&br, al, p)); q = psock_br_psock_adapter(br); }
    int sent = 0, got = 0; bool closed = false, reset = false; vk_fault_mask = 1u << VK_READ; vk_short = mc_bound2;
    for (int i = 0; i < mc_bound; ++i)
    {
        int op = closed ? 4 + mc_choose(3, "operation") : mc_choose(8, "operation"); hist = mc_hash(hist, (uint64_t)op);
        if (op < 3) { uint8_t b[4]; for (int k = 0; k <= op; ++k) b[k] = (uint8_t)(1 + sent + k); vk_push(fd[1], b, op + 1); sent += op + 1; mc_trace("%d bytes come", op + 1); continue; }
        if (op == 3) { closed = true; vk_drop(fd[1]); mc_trace("the peer closes"); continue; }
        if (op == 7) { vk_faults = 1; mc_trace("a read may fail"); continue; }
        size_t n = (size_t)(op - 3); uint8_t b[8]; memset(b, 0xEE, sizeof b); int nf = vk_nfailed; int kern = vk_buffered(fd[0]); status r = psock_read_raw(q, b, &n); mc_step(); mc_trace("a read of at most %d bytes gives %x, %zu bytes", op - 3, (unsigned)r, n);
        int took = 0;
        if (r == STATUS_SUCCESS || r == ERROR_PSOCK_READ_WOULD_BLOCK)
        {
            MC_CHECK(n <= (size_t)(op - 3), "too-much", "%zu bytes were read of %d", n, op - 3); took = (int)n;
            for (int k = 0; k < took; ++k) MC_CHECK(b[k] == (uint8_t)(1 + got + k), "data", "byte %d read is %d, it should be %d", got + k, b[k], 1 + got + k);
            MC_CHECK(got + took <= sent, "data", "more bytes were read than came");
        }
        for (int k = took; k < 8; ++k) if (k >= op - 3) MC_CHECK(b[k] == 0xEE, "overrun", "the read wrote beyond its buffer");
        bool fault = vk_nfailed > nf;
        if (sent > got) { if (!fault) MC_CHECK(r == STATUS_SUCCESS && took > 0, "nothing-read", "bytes are there, and a read gives %x with %d bytes", (unsigned)r, took); }
        else if (!closed) { MC_CHECK(took == 0 && (fault || r == ERROR_PSOCK_READ_WOULD_BLOCK), "would-block", "nothing is there, and a read gives %x with %d bytes", (unsigned)r, took); }
        else MC_CHECK(took == 0 && r != ERROR_PSOCK_READ_WOULD_BLOCK, "end", "the peer is gone, and a read gives %x with %d bytes", (unsigned)r, took);
        got += took; if (!br) MC_CHECK(kern - vk_buffered(fd[0]) == took, "lost", "%d bytes were taken from the socket, %d were given", kern - vk_buffered(fd[0]), took); if (took) mc_nontrivial(); (void)reset;
    }
    vk_faults = 0; if (br) OK(resource_release(psock_br_resource_handle(br)));
    rel(p); if (!closed) vk_drop(fd[1]);
    OK(resource_release(fiber_scheduler_resource_handle(fs))); leaks(0); MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks are left", mc_mem_live());
}
void mc_setup(void) { mode = mc_mode; }
int mc_scenarios(void) { return mode == 0 ? 3 * NB : mode == 1 ? NB : mode == 2 ? 7 * NB : mode == 3 ? 8 : 1; }
void mc_run(int sc)
{
    tr_reset(); mc_mem_begin(); vk_reset(); lowfd = 200; al = fa_init(); hist = (uint64_t)sc;
    if (mode == 0) run0(sc); else if (mode == 1) run1(sc); else if (mode == 2) run2(sc); else run3(sc);
    mc_state(hist);
}
