"""What each check runs; see DESIGN.md.  Bounds: what mc_bound means is said at the top of each harness."""
ST = "stateless model checking of the implementation: exhaustive depth-first enumeration of "
FA = " The code under test is compiled from /repo unchanged (gcc, ASan+UBSan); within the bounds the enumeration is complete; the oracle, the interposed libc calls and the engine in mc/ are trusted."
NOT_APPLICABLE = {}
CHECKS = {
 "C01": dict(level="model_checking", technique=ST + "operation histories against a reference sequence", note="Every history up to the depth over two lists, with an out-of-memory choice at each insertion; lists of up to 65537 elements with one operation (thorough: two) in between." + FA, runs=[
    dict(h="seq", what="doubly linked list", mode=0, quick=dict(bound=4), thorough=dict(bound=5, deadline=500)),
    dict(h="long", what="long doubly linked lists", mode=0, quick=dict(bound=1, bound2=32), thorough=dict(bound=2, bound2=32, deadline=300)),
    dict(h="long", what="the longest ones", mode=0, quick=dict(bound=0, bound2=35), thorough=dict(bound=1, bound2=35, deadline=300)) ]),
 "C02": dict(level="model_checking", technique=ST + "operation histories against a reference sequence", note="Every history up to the depth over two lists, with an out-of-memory choice at each insertion; lists of up to 65537 elements with one operation (thorough: two) in between." + FA, runs=[
    dict(h="seq", what="singly linked list", mode=1, quick=dict(bound=4), thorough=dict(bound=5, deadline=500)),
    dict(h="long", what="long singly linked lists", mode=1, quick=dict(bound=1, bound2=32), thorough=dict(bound=2, bound2=32, deadline=300)),
    dict(h="long", what="the longest ones", mode=1, quick=dict(bound=0, bound2=35), thorough=dict(bound=1, bound2=35, deadline=300)) ]),
 "C03": dict(level="model_checking", technique=ST + "operation histories against a reference sequence", note="Every history up to the depth, with out-of-memory choices; queues of up to 65537 elements." + FA, runs=[
    dict(h="queue", what="queue", mode=0, quick=dict(bound=8), thorough=dict(bound=10, deadline=400)),
    dict(h="long", what="long queues", mode=2, quick=dict(bound=1, bound2=35), thorough=dict(bound=3, bound2=32, deadline=400)) ]),
 "C04": dict(level="model_checking", technique=ST + "operation histories against a reference map", note="Every history up to the depth over two trees and a small key set, every tree shape up to a size with each single operation, and trees of up to 4097 (thorough: 65537) keys in a few orders." + FA, runs=[
    dict(h="rbops", what="operation histories", mode=0, quick=dict(bound=3), thorough=dict(bound=4, deadline=350)),
    dict(h="rbops", what="operation histories, memory runs out", mode=1, quick=dict(bound=3), thorough=dict(bound=4, deadline=250)),
    dict(h="rbshape", what="every reachable tree up to a size", mode=0, quick=dict(bound=10), thorough=dict(bound=13, deadline=100)),
    dict(h="long", what="large trees", mode=3, quick=dict(bound=1, bound2=32), thorough=dict(bound=1, bound2=35, deadline=200)) ]),
 "C05": dict(level="model_checking", technique="explicit-state search over all reachable red-black trees, transitions executed on the implementation", note="All shapes and colourings reachable with up to the bound's number of keys; the red-black rules are checked in each." + FA, runs=[
    dict(h="rbshape", what="reachable trees", quick=dict(bound=14), thorough=dict(bound=17, deadline=700)),
    dict(h="long", what="large trees", mode=3, quick=dict(bound=1, bound2=32), thorough=dict(bound=1, bound2=35, deadline=200)) ]),
 "C06": dict(level="fault_enumeration", technique=ST + "operation histories and failing releases", note="Every history up to the depth with any one failing release or reclaim." + FA,
    rule="every operation history up to the depth, with each choice of the one contained resource whose release fails or the one reclaim that fails; non-trivial when a failure was actually met", runs=[
    dict(h="seq", what="doubly linked list, a release fails", mode=2, quick=dict(bound=3), thorough=dict(bound=4, deadline=150)),
    dict(h="seq", what="doubly linked list, a reclaim fails", mode=4, quick=dict(bound=3), thorough=dict(bound=4, deadline=150)),
    dict(h="seq", what="singly linked list, a release fails", mode=3, quick=dict(bound=3), thorough=dict(bound=4, deadline=150)),
    dict(h="seq", what="singly linked list, a reclaim fails", mode=5, quick=dict(bound=3), thorough=dict(bound=4, deadline=150)),
    dict(h="queue", what="queue, a release fails", mode=1, quick=dict(bound=6), thorough=dict(bound=9, deadline=100)),
    dict(h="queue", what="queue, a reclaim fails", mode=2, quick=dict(bound=6), thorough=dict(bound=8, deadline=100)),
    dict(h="rbops", what="red-black tree, a release fails", mode=2, quick=dict(bound=3), thorough=dict(bound=4, deadline=150)),
    dict(h="rbshape", what="every reachable red-black tree, the release of each resource fails", mode=1, quick=dict(bound=9), thorough=dict(bound=12, deadline=150)) ]),
 "A01": dict(level="model_checking", technique=ST + "request histories over every region size", note="Every region size up to 256 bytes at two alignments, every history up to the depth." + FA, runs=[
    dict(h="alloc", what="bump allocator", mode=0, quick=dict(bound=3), thorough=dict(bound=4, deadline=700)) ]),
 "A02": dict(level="model_checking", technique=ST + "request histories and allocation failures", note="Every history up to the depth over boundary sizes." + FA, runs=[
    dict(h="alloc", what="malloc allocator", mode=1, quick=dict(bound=4), thorough=dict(bound=5, deadline=700)) ]),
 "B01": dict(level="model_checking", technique=ST + "sizes, contents, failures and release orders", note="Every bit size up to the bound, and sizes near every power of two up to the largest." + FA, runs=[
    dict(h="values", what="big integers", mode=0, wraps=["mmap", "munmap"], quick=dict(bound=1100), thorough=dict(bound=8300, deadline=500)),
    dict(h="values", what="big integers around powers of two", mode=4, wraps=["mmap", "munmap"], quick=dict(bound=1), thorough=dict(bound=1, deadline=300)) ]),
 "U01": dict(level="model_checking", technique=ST + "byte values at each position and of each length", note="Single and paired deviations from canonical strings, not all 36-byte strings." + FA, runs=[
    dict(h="values", what="uuids", mode=1, wraps=["mmap", "munmap"], quick=dict(bound=1), thorough=dict(bound=2, deadline=700)) ]),
 "G01": dict(level="model_checking", technique=ST + "operation histories against a reference automaton", note="Every history up to the depth over two triggers; the listeners may use the trigger themselves." + FA, runs=[
    dict(h="values", what="auto-reset triggers", mode=2, wraps=["mmap", "munmap"], quick=dict(bound=6), thorough=dict(bound=8, deadline=700)) ]),
 "K01": dict(level="model_checking", technique=ST + "operation histories and mapping failures", note="Every history up to the depth; mmap and munmap are interposed." + FA, runs=[
    dict(h="values", what="stacks", mode=3, wraps=["mmap", "munmap"], quick=dict(bound=3), thorough=dict(bound=4, deadline=700)) ]),
 "S01": dict(level="model_checking", technique=ST + "strings up to a length over a small alphabet", note="Complete over the alphabet up to the length; of long strings, repeated units with short strings around them, up to 65537 characters." + FA, runs=[
    dict(h="str", what="trim and chomp", mode=0, quick=dict(bound=7), thorough=dict(bound=8, deadline=450)),
    dict(h="str", what="long strings", mode=10, quick=dict(bound=1), thorough=dict(bound=2, deadline=400)) ]),
 "S02": dict(level="model_checking", technique=ST + "strings up to a length over a small alphabet", note="Complete over the alphabet up to the length; of long strings, repeated units with short strings around them, up to 65537 characters." + FA, runs=[
    dict(h="str", what="words and splitting", mode=1, quick=dict(bound=6), thorough=dict(bound=8, deadline=450)),
    dict(h="str", what="long strings", mode=11, quick=dict(bound=1), thorough=dict(bound=2, deadline=400)) ]),
 "S03": dict(level="model_checking", technique=ST + "string pairs up to a length over a small alphabet", note="Complete over the alphabet up to the length; of long strings, repeated units with short strings around them, up to 65537 characters." + FA, runs=[
    dict(h="str", what="prefix, suffix, whitespace", mode=2, quick=dict(bound=5), thorough=dict(bound=7, deadline=450)),
    dict(h="str", what="long strings", mode=12, quick=dict(bound=1), thorough=dict(bound=2, deadline=400)) ]),
 "S04": dict(level="model_checking", technique=ST + "string lists up to a length, and memory failure", note="Complete over the alphabet up to the length; of long strings, repeated units with short strings around them, up to 65537 characters." + FA, runs=[
    dict(h="str", what="duplication and concatenation", mode=3, quick=dict(bound=5), thorough=dict(bound=6, deadline=450)),
    dict(h="str", what="long strings, many strings", mode=13, quick=dict(bound=1), thorough=dict(bound=2, deadline=400)) ]),
}
RW = ["read", "write", "close", "getsockopt"]
CHECKS["P01"] = dict(level="model_checking", technique=ST + "values and read segmentations over every kind of socket", note="All values of the 8 and 16 bit types, a menu of boundary values for the others, alone and in pairs." + FA, runs=[
    dict(h="psval", what="single values, every segmentation", mode=0, wraps=RW, quick=dict(bound=2), thorough=dict(bound=4, deadline=350)),
    dict(h="psval", what="pairs of values, short reads", mode=1, wraps=RW, quick=dict(bound=1), thorough=dict(bound=2, deadline=400)),
    dict(h="psval", what="long strings and data, short reads", mode=4, wraps=RW, quick=dict(bound=1), thorough=dict(bound=3, deadline=200)),
    dict(h="psval", what="short and failing writes", mode=3, wraps=RW, quick=dict(bound=2), thorough=dict(bound=3, deadline=200)) ])
CHECKS["P02"] = dict(level="fault_enumeration", technique=ST + "damaged encodings, read and write failures", note="Every truncation, every single-byte tag change, boundary sizes, each read, write or allocation failing." + FA,
    rule="each value of the menu over each kind of socket with each truncation, tag change, declared size, failing read, write or allocation; non-trivial when the defect was met", runs=[
    dict(h="psval", what="damaged encodings and failures", mode=2, wraps=RW, quick=dict(bound=1), thorough=dict(bound=1, deadline=350)),
    dict(h="psval", what="short and failing writes", mode=3, wraps=RW, quick=dict(bound=2), thorough=dict(bound=4, deadline=350)) ])
CHECKS["P04"] = dict(level="model_checking", technique=ST + "inputs, their segmentations and read sequences against a reference reader", note="Every input over two kinds of character up to a length and every segmentation of it, every operation sequence up to the depth; and inputs around the size of the internal buffer. One read may find that nothing is there yet." + FA, runs=[
    dict(h="psbuf", what="short inputs", mode=0, quick=dict(bound=4, bound2=5), thorough=dict(bound=5, bound2=6, deadline=400)),
    dict(h="psbuf", what="inputs around the buffer size", mode=1, quick=dict(bound=3), thorough=dict(bound=4, deadline=350)),
    dict(h="psbuf", what="short inputs, nothing is there yet", mode=4, quick=dict(bound=3, bound2=4), thorough=dict(bound=4, bound2=5, deadline=150)),
    dict(h="psbuf", what="inputs around the buffer size, nothing is there yet", mode=5, quick=dict(bound=2), thorough=dict(bound=3, deadline=150)) ])
CHECKS["P05"] = dict(level="model_checking", technique=ST + "write and read sequences around the block size, with allocation failures", note="Every sequence up to the depth; many equal writes with one other among them; inputs of up to 70000 bytes." + FA, runs=[
    dict(h="psbuf", what="in-memory output", mode=2, quick=dict(bound=3), thorough=dict(bound=4, deadline=400)),
    dict(h="psbuf", what="in-memory input", mode=3, quick=dict(bound=5), thorough=dict(bound=7, deadline=350)),
    dict(h="psbuf", what="in-memory output, many writes", mode=6, quick=dict(bound=1), thorough=dict(bound=1, deadline=100)),
    dict(h="psbuf", what="in-memory input, long inputs", mode=7, quick=dict(bound=3), thorough=dict(bound=4, deadline=100)) ])
MM = ["mmap", "munmap"]
def fm(what, mode, q, t): return dict(h="fmany", what=what, mode=mode, wraps=MM, quick=dict(bound=q), thorough=dict(bound=t, deadline=100))
def fb(what, mode, q, t, b2=3): return dict(h="fiber", what=what, mode=mode, wraps=MM, quick=dict(bound=q, bound2=b2), thorough=dict(bound=t, bound2=b2, deadline=340))
RM = "Each operation's outcome is compared with a reference model of the scheduler; up to three added fibers and the main and idle fibers." + FA
CHECKS["R01"] = dict(level="model_checking", technique=ST + "programs of several fibers against a reference scheduler", note=RM, runs=[
    fb("scheduling", 0, 6, 8), fb("scheduling, states visited before are not explored again", 20, 8, 11),
    fb("an idle fiber that was added to its scheduler", 41, 7, 8), fb("an idle fiber that was added, and management", 40, 4, 6), fm("many fibers", 3, 1, 1) ])
CHECKS["R02"] = dict(level="model_checking", technique=ST + "switches between fibers, with registers, stacks and modes observed", note="x86-64 System V only, the one platform present; with gcc -O2 and ASan and without optimisation." + FA, runs=[
    dict(h="ctx", what="fiber switches", mode=0, wraps=MM, quick=dict(bound=6), thorough=dict(bound=7, deadline=400)),
    dict(h="ctx", what="fiber switches, not instrumented, not optimised", mode=0, variant="o0", wraps=MM, quick=dict(bound=6, bound2=1), thorough=dict(bound=8, bound2=1, deadline=400)),
    fm("stacks of many sizes", 4, 1, 1) ])
CHECKS["R03"] = dict(level="model_checking", technique=ST + "programs that add, find and yield to disciplines", note=RM, runs=[
    fb("disciplines", 2, 4, 4, 1), fb("disciplines, memory runs out", 12, 3, 4, 1), dict(h="fiber", what="disciplines, states visited before are not explored again", mode=22, wraps=MM, quick=dict(bound=4, bound2=1), thorough=dict(bound=5, bound2=1, deadline=400)),
    fm("many disciplines and callbacks", 2, 1, 1) ])
CHECKS["R04"] = dict(level="model_checking", technique=ST + "programs of several fibers, the scheduler being released after each", note=RM, runs=[
    fb("everything", 8, 3, 4), fb("everything, states visited before are not explored again", 28, 4, 5),
    fb("an idle fiber that was added, and management", 40, 5, 6), fm("many fibers", 3, 1, 1) ])
CHECKS["R05"] = dict(level="model_checking", technique=ST + "programs of several fibers with management events and requests", note=RM, runs=[
    fb("management", 1, 5, 6), fb("management, states visited before are not explored again", 21, 6, 7), fb("request to a fiber that is ready to run", 6, 1, 1), fm("many fibers", 3, 1, 1) ])
CHECKS["R06"] = dict(level="model_checking", technique=ST + "programs of fibers over two schedulers with callbacks of their own", note="x86-64 System V only." + FA, runs=[
    dict(h="sched", what="programs", mode=0, wraps=MM, quick=dict(bound=5), thorough=dict(bound=6, deadline=400)),
    dict(h="sched", what="programs, an allocation fails", mode=1, wraps=MM, quick=dict(bound=4), thorough=dict(bound=5, deadline=300)) ])
CHECKS["M01"] = dict(level="model_checking", technique=ST + "programs of several fibers with mailboxes", note=RM, runs=[
    fb("messages", 3, 5, 6), fb("messages, states visited before are not explored again", 23, 5, 7), fb("messages and conditionals, interrupted", 5, 3, 4), fb("waits that are interrupted", 29, 7, 9), fb("waits that are interrupted, memory runs out", 39, 5, 7), fm("many mailboxes and messages", 0, 1, 1) ])
CHECKS["M02"] = dict(level="fault_enumeration", technique=ST + "programs of several fibers with mailboxes, with failing allocations", note=RM,
    rule="every program up to the depth, with no failing allocation or each allocation of each one operation failing; non-trivial when more than one fiber ran or an allocation failed", runs=[
    fb("messages, memory runs out", 13, 4, 5), fb("messages, states visited before are not explored again, memory runs out", 33, 5, 6), fb("messages", 3, 4, 5), fm("many mailboxes and messages", 0, 1, 1) ])
CHECKS["N01"] = dict(level="model_checking", technique=ST + "programs of several fibers with conditionals", note=RM, runs=[
    fb("conditionals", 4, 5, 6), fb("conditionals, states visited before are not explored again", 24, 6, 7), fb("conditionals, memory runs out", 14, 4, 5), fb("messages and conditionals, interrupted", 5, 3, 4), fb("waits that are interrupted", 29, 7, 9), fb("waits that are interrupted, memory runs out", 39, 5, 7), fm("many conditionals and waiters", 1, 2, 3) ])
CHECKS["F03"] = dict(level="fault_enumeration", technique=ST + "programs of several fibers, each with each failing allocation", note=RM,
    rule="every constructor with each allocation or mapping failing, and every program up to the depth with each allocation of each one operation failing; non-trivial when more than one fiber ran or an allocation failed", runs=[
    fb("creation, memory runs out", 7, 1, 1), fb("scheduling, memory runs out", 10, 4, 5), fb("management, memory runs out", 11, 4, 5), fb("everything, memory runs out", 18, 3, 4) ])

PTW = ["pthread_" + x for x in "attr_init attr_destroy attr_setstacksize attr_setdetachstate create join detach self equal exit mutex_init mutex_destroy mutex_lock mutex_trylock mutex_timedlock mutex_unlock cond_init cond_destroy cond_wait cond_timedwait cond_signal cond_broadcast".split()] + ["sched_yield"]
def th(what, mode, q, t, variant="hook", dl=230): return dict(h="thread", what=what, mode=mode, variant=variant, wraps=PTW, extra=["mc/vt.c"], quick=dict(bound=q[0], bound2=q[1]), thorough=dict(bound=t[0], bound2=t[1], deadline=dl))
TH = "The pthread functions are replaced by virtual threads (mc/vt.c) under a controlled scheduler; bounded preemptions, sequentially consistent memory plus a happens-before race detector." + FA.replace("ASan+UBSan", "its memory access hooks, and with ASan+UBSan")
CHECKS["H01"] = dict(level="model_checking", technique=ST + "programs of threads and their interleavings up to a preemption bound", note=TH, runs=[
    th("sections", 0, (2, 2), (3, 2)), th("sections, switches at every memory access", 10, (2, 2), (2, 3)), th("sections, with ASan", 0, (2, 1), (2, 2), "asan") ])
CHECKS["H02"] = dict(level="model_checking", technique=ST + "programs of threads and their interleavings up to a preemption bound", note=TH, runs=[
    th("waits and signals", 1, (2, 2), (3, 2)), th("waits and signals, switches at every memory access", 11, (2, 1), (2, 3)), th("bounded buffer, spurious wake-ups", 4, (4, 2), (5, 3)), th("waits and signals, with ASan", 1, (2, 1), (2, 2), "asan") ])
CHECKS["H03"] = dict(level="model_checking", technique=ST + "programs of threads, their interleavings up to a preemption bound and failing calls", note=TH, runs=[
    th("life of threads", 2, (2, 1), (3, 1)), th("life of threads, switches at every memory access", 12, (2, 1), (2, 2)), th("life of threads, with ASan", 2, (2, 1), (2, 2), "asan") ])
CHECKS["H04"] = dict(level="model_checking", technique=ST + "interleavings, at memory accesses, of pairs of workloads up to a preemption bound", note=TH, runs=[
    th("pairs of workloads", 13, (2, 1), (2, 2), dl=700), th("pairs of workloads, with ASan", 3, (2, 1), (2, 3), "asan") ])

VKW = "socket bind listen connect accept accept4 read write recv send sendmsg recvmsg getsockopt setsockopt fcntl dup2 close socketpair epoll_create1 epoll_ctl epoll_wait poll gethostbyname2".split()
def pd(what, mode, q, t, q2=0, t2=0, dl=250): return dict(h="psdesc", what=what, mode=mode, wraps=VKW, extra=["mc/vk.c"], quick=dict(bound=q, bound2=q2), thorough=dict(bound=t, bound2=t2, deadline=dl))
def vkc(what, mode, q=3, t=5): return dict(h="vkconf", what="conformance of the virtual kernel with the real one, " + what, mode=mode, wraps=VKW, extra=["mc/vk.c"], quick=dict(bound=q), thorough=dict(bound=t, deadline=200))
VK = "System calls are answered by a virtual kernel (mc/vk.c), compared with the real kernel on every operation sequence up to a depth by the conformance runs." + FA
CHECKS["P03"] = dict(level="model_checking", technique=ST + "histories of sends and receives, with failing system calls, against reference queues", note=VK, runs=[
    pd("messages and descriptors", 0, 3, 5), vkc("datagrams", 1, 4, 5) ])
CHECKS["P07"] = dict(level="model_checking", technique=ST + "histories of socket creation and release, with failing allocations and system calls", note=VK, runs=[
    pd("owners of descriptors", 1, 3, 4, dl=600), vkc("streams", 0) ])
CHECKS["P09"] = dict(level="fault_enumeration", technique=ST + "addresses, histories of connections and failing system calls", note=VK,
    rule="every address family combination, port of the menu and failing allocation or call; every history of arriving connections, accepts and options up to the depth, each failing or not; non-trivial when a connection was accepted or a call failed", runs=[
    pd("connect, listen and accept", 2, 5, 7), vkc("streams", 0) ])
CHECKS["P10"] = dict(level="model_checking", technique=ST + "histories of arriving bytes and reads, with short and failing system calls, against a reference stream", note=VK, runs=[
    pd("reads that do not block", 3, 5, 6, 2, 3, 500), vkc("streams", 0, 4, 5) ])
def pa(what, mode, q, t, platform="epoll", td=300, q2=20, t2=20): return dict(h="psasync", what=what, mode=mode, wraps=VKW + MM, extra=["mc/vk.c"], platform=platform, quick=dict(bound=q, bound2=q2), thorough=dict(bound=t, bound2=t2, deadline=td))
def pm(what, platform="epoll"): return dict(h="pamany", what=what, mode=0, platform=platform, quick=dict(bound=1), thorough=dict(bound=1, deadline=100))
PSA = " Fibers run on the virtual kernel; the environment acts whenever the process waits, and in some runs at every system call."
CHECKS["P06"] = dict(level="model_checking", technique=ST + "interleavings of fibers' operations with the peer's actions and one failing call, against blocking semantics", note=VK + PSA, runs=[
    pa("users of sockets and pipes", 0, 3, 5), pa("the peer acts at any system call", 0, 2, 3, q2=21, t2=21), pa("accepted connections", 4, 3, 4, q2=20, t2=21, td=120),
    pa("one call or allocation fails", 2, 2, 2, q2=10, t2=20, td=250), pa("poll: users of sockets and pipes", 0, 2, 3, "poll", 60), pa("poll: one call or allocation fails", 2, 1, 2, "poll", 60, 10, 10),
    pm("many sockets, on the real kernel"), pm("poll: many sockets, on the real kernel", "poll"),
    vkc("streams", 0), vkc("pipes, read", 2, 3, 4), vkc("pipes, written", 3, 3, 4) ])
CHECKS["P08"] = dict(level="model_checking", technique=ST + "interleavings of fibers' operations, interruptions and the peer's actions", note=VK + PSA, runs=[
    pa("shared sockets and interruptions", 1, 3, 5), pa("the peer acts at any system call", 1, 2, 3, q2=21, t2=21, td=150), pa("one call or allocation fails", 3, 1, 2, q2=10, t2=20, td=200),
    pa("accepted connections, interrupted", 4, 3, 4, td=60), pa("poll: shared sockets and interruptions", 1, 2, 3, "poll", 60), pm("many sockets, on the real kernel"), vkc("streams", 0), vkc("pipes, read", 2, 3, 4) ])
def su(what, mode, q, t): return dict(h="sockutil", what=what, mode=mode, wraps=VKW, extra=["mc/vk.c"], quick=dict(bound=q), thorough=dict(bound=t, deadline=500))
CHECKS["Z01"] = dict(level="model_checking", technique=ST + "arrangements of descriptors with failing system calls", note="Up to the bound's number of descriptors over eight places, and up to 17 in four orders. " + VK, runs=[
    su("moving and mapping", 0, 2, 3), su("moving and mapping many", 3, 1, 1), su("closing, flags and pairs", 1, 2, 2), vkc("streams", 0) ])
CHECKS["Z02"] = dict(level="model_checking", technique="exhaustive enumeration of the values converted", note="Complete for 16 and, in the thorough tier, 32 bits; 64 bit values with two arbitrary bytes." + FA, runs=[
    su("byte order", 2, 1, 2) ])

def enf(h, what, mode, q, t, q2=0, t2=0, **k): return dict(h=h, what="valid objects: " + what, mode=mode, variant="enf", quick=dict(bound=q, bound2=q2), thorough=dict(bound=t, bound2=t2, deadline=100), **k)
VX = dict(wraps=VKW, extra=["mc/vk.c"])
CHECKS["V01"] = dict(level="model_checking", technique=ST + "calls through forged vtables at every kind of place, and operation histories on valid objects", note="Compiled with RCPR_VTABLE_RUNTIME_ENFORCEMENT, with and without RCPR_VTABLE_CHECK_ASSERT; every aligned place within 64 bytes of the section's ends, and data, heap, NULL and the end of memory." + FA, runs=[
    dict(h="vtable", what="forged tables", mode=0, variant="enf", quick=dict(bound=1), thorough=dict(bound=1), **VX),
    dict(h="vtable", what="forged tables, the check is an assertion", mode=0, variant="enfa", wraps=VKW + ["__assert_fail"], extra=["mc/vk.c"], quick=dict(bound=1), thorough=dict(bound=1)),
    enf("seq", "lists", 0, 2, 3), enf("seq", "singly linked lists", 1, 2, 3), enf("queue", "queues", 0, 4, 6), enf("rbops", "trees", 0, 2, 3), enf("alloc", "bump allocators", 0, 1, 2), enf("alloc", "malloc allocators", 1, 3, 4),
    enf("values", "big integers", 0, 200, 400, wraps=MM), enf("values", "triggers", 2, 4, 6, wraps=MM), enf("values", "stacks", 3, 2, 3, wraps=MM), enf("str", "strings", 3, 3, 4),
    enf("psval", "encodings", 0, 1, 1, wraps=RW), enf("psbuf", "buffered readers", 0, 2, 3, 3, 4), enf("psbuf", "memory sockets", 2, 2, 3), enf("psdesc", "datagrams and descriptors", 0, 2, 3, **VX), enf("psdesc", "sockets", 1, 2, 3, **VX), enf("psdesc", "connections", 2, 3, 4, **VX),
    enf("fiber", "fibers", 8, 2, 3, 1, 3, wraps=MM), dict(enf("psasync", "asynchronous sockets", 0, 2, 3, 10, 20, **VX), wraps=VKW + MM), enf("thread", "threads", 0, 2, 2, 0, 1, wraps=PTW, extra=["mc/vt.c"]), enf("thread", "conditions", 1, 1, 2, 1, 1, wraps=PTW, extra=["mc/vt.c"]), enf("thread", "life of threads", 2, 1, 2, 1, 1, wraps=PTW, extra=["mc/vt.c"]) ])
def om(what, mode, **k): return dict(h="oom", what=what, mode=mode, wraps=VKW + MM, extra=["mc/vk.c"], quick=dict(bound=2), thorough=dict(bound=2), **k)
CHECKS["P11"] = dict(level="model_checking", technique=ST + "operation sequences and the answers of the user's methods, against the calls they should make", note="Answers: all bytes, fewer, none, the end, a failure; each set of optional methods." + FA, runs=[
    dict(h="psuser", what="user methods", mode=0, wraps=VKW, extra=["mc/vk.c"], quick=dict(bound=2), thorough=dict(bound=3, deadline=500)),
    dict(h="psuser", what="strings around the largest size", mode=1, wraps=VKW, extra=["mc/vk.c"], quick=dict(bound=1), thorough=dict(bound=1)) ])
OMR = "every object of a list, each allocation or mapping failing, or none, with each one or two of the reclaims failing; non-trivial when an operation failed or a reclaim did"
CHECKS["F01"] = dict(level="fault_enumeration", technique=ST + "failing allocations, mappings and reclaims of every constructor and release", note="Reclaims that fail while a scheduler with fibers is around are left out: they meet the known finding." + FA, rule=OMR, runs=[
    om("objects", 0), fb("creation of fibers and schedulers, memory runs out", 7, 1, 1) ])
CHECKS["F02"] = dict(level="fault_enumeration", technique=ST + "failing allocations, mappings and reclaims of every constructor and release", note=VK, rule=OMR, runs=[
    om("sockets", 1) ])

def ow(what, mode, q, q2, t, t2, td): return dict(h="own", what=what, mode=mode, wraps=VKW + MM, extra=["mc/vk.c"], quick=dict(bound=q, bound2=q2), thorough=dict(bound=t, bound2=t2, deadline=td))
CHECKS["A03"] = dict(level="model_checking", technique=ST + "assignments of allocators to objects, operation stories and one failing allocation", note="Three allocators with identity; eleven stories over every kind of object; sockets on the virtual kernel." + FA, runs=[
    ow("every assignment", 0, 3, 6, 3, 9, 400), ow("one allocation fails", 1, 3, 3, 3, 5, 400) ])

# Freed addresses are used again at once: what a cache keyed by address, or a stale pointer compared with a new object, needs to go wrong.
def reuse(pid, i, q, t, td=100):
    r = dict(CHECKS[pid]["runs"][i])
    r.update(what=r["what"] + ", freed addresses used again", env=dict(MC_REUSE="1"), quick=dict(r["quick"], bound=q), thorough=dict(r["thorough"], bound=t, deadline=td))
    CHECKS[pid]["runs"].append(r)
for a in [("C01", 0, 3, 4), ("C02", 0, 3, 4), ("C03", 0, 7, 8), ("C04", 0, 3, 3), ("C04", 1, 2, 3), ("R03", 0, 3, 4), ("R03", 1, 2, 3), ("R04", 0, 2, 3), ("R01", 0, 5, 6), ("M01", 0, 4, 5), ("M01", 2, 3, 3), ("M02", 0, 3, 4), ("N01", 0, 4, 5), ("N01", 2, 3, 4),
          ("F01", 0, 2, 2), ("P06", 0, 2, 3), ("P06", 2, 2, 3), ("P07", 0, 2, 3), ("P08", 0, 2, 3), ("P08", 2, 1, 1), ("H04", 1, 2, 2), ("H03", 2, 1, 2), ("H01", 2, 1, 2)]: reuse(*a)
