/* vk.h: a virtual kernel: descriptors, sockets, epoll and poll, as seen by the code under test.
 *
 * The system calls named in VK_WRAPS are replaced (-Wl,--wrap). Descriptors from vk_base on are
 * virtual; others go to the real kernel, unless vk_all is set. Every open, close and transfer is
 * recorded, transfers may come up short, and each call may fail, as the exploration chooses.
 * h/vkconf.c compares this with the real kernel on every operation sequence up to a depth. */
#pragma once
#include "mc.h"
#include <sys/types.h>
#include <sys/socket.h>

#define VK_NFD 1200
#define VK_CAPMAX 65536
enum { VK_FREE, VK_STREAM, VK_DGRAM, VK_LISTEN, VK_EPOLL, VK_SOCKET };
enum { VK_SOCKET_, VK_BIND, VK_LISTEN_, VK_CONNECT, VK_ACCEPT, VK_READ, VK_WRITE, VK_SENDMSG, VK_RECVMSG, VK_GETSOCKOPT, VK_SETSOCKOPT, VK_GETFL, VK_SETFL, VK_EPOLL_CREATE, VK_EPOLL_CTL, VK_EPOLL_WAIT, VK_POLL, VK_SOCKETPAIR, VK_DUP2, VK_CLOSE, VK_RESOLVE, VK_OPS };
extern const char* vk_op_name[VK_OPS];

extern int vk_base;              /* first virtual descriptor. */
extern bool vk_all;              /* every descriptor is virtual. */
extern int vk_cap;               /* capacity of a stream, in bytes. */
extern int vk_qlen;              /* capacity of a datagram queue. */
extern int vk_short;             /* how many transfers may still come up short. */
extern int vk_faults;            /* how many calls may still fail, */
extern unsigned vk_fault_mask;   /* among these operations. */
extern int vk_failed_op, vk_failed_errno, vk_nfailed;
extern long vk_count[VK_OPS];    /* calls made. */
extern long vk_badclose;         /* closes of descriptors that are not open. */
extern long vk_badfd;            /* other uses of descriptors that are not open. */
extern int vk_host4, vk_host6;   /* how many addresses the name resolves to. */
extern char vk_host_name[64];
extern struct sockaddr_storage vk_connected; extern int vk_connect_peer; extern int vk_sock_domain, vk_sock_type;
extern int vk_backlog; extern struct sockaddr_storage vk_bound; extern socklen_t vk_bound_len;
extern int vk_pair_domain, vk_pair_type, vk_pair_proto, vk_opt_level, vk_opt_name, vk_opt_len; extern unsigned char vk_opt_value[256];

/* nothing can go on; make something happen and return true, or return false. fd is what is waited for, -1: epoll or poll. */
extern bool (*vk_starve)(int fd, bool write);
/* called before epoll_wait or poll looks at what is ready. */
extern void (*vk_before_wait)(void);
/* called before any other call does anything. */
extern void (*vk_before_call)(int op);
/* called when a call fails. */
extern void (*vk_on_fault)(int op);
extern int vk_polled;            /* how many descriptors were given to the last poll. */
extern bool vk_reorder;          /* epoll_wait may report what is ready in either order. */

void vk_reset(void);
int vk_open_count(void);         /* open descriptors. */
int vk_files(void);              /* open files, those inside messages included. */
bool vk_is_open(int fd);
int vk_same_file(int a, int b);
int vk_file_id(int fd);
bool vk_nonblock(int fd);
void vk_set_type(int fd, int type);   /* what SO_TYPE says, -1: that it is no socket. */
bool vk_ready(int fd, bool write);
int vk_poll_bits(int fd);        /* EPOLLIN and so on. */
int vk_watch(int fd);            /* what some epoll waits for on fd now: events, -1 when it is not registered. */
/* for the environment: no choice, no failure. */
void vk_pair(int type, int fd[2]);
void vk_pipe(int fd[2]);         /* reads, writes. */
int vk_listener(void);
int vk_dial(int listenfd);       /* the client's end, or -1. */
int vk_push(int fd, const void* p, int n);   /* -1 when it would block or the peer is gone. */
int vk_pull(int fd, void* p, int n);         /* 0 at the end, -1 when it would block. */
int vk_push_fds(int fd, const void* p, int n, const int* fds, int nfds);
int vk_pull_fds(int fd, void* p, int n, int* fds, int maxfds, int* nfds);
int vk_drop(int fd);             /* close. */
int vk_buffered(int fd);         /* bytes or datagrams that wait to be read. */
