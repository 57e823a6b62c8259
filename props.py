"""The properties, in one place; gen.py writes properties.jsonl and MANIFEST.json from them."""
PROPS = []


def P(pid, title, statement, over, text, why, files, mech, observe, state=()):
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                   mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))


UT = "The unit tests run a few fixed calls from a fresh object; "

P("C01", "A doubly linked list is a sequence under every operation history",
  "After any history of insert, append, pop, remove, clear, traverse and swap calls on doubly linked lists, forward and backward traversal give exactly the sequence of elements the calls describe, with the right count, head, tail and parent for each node. "
  "An operation that runs out of memory reports it and leaves the sequence as it was. Each element taken out belongs to the caller, and every other element is released exactly once.",
  ["histories", "fault_sequences"], "every operation sequence up to the depth over two lists, at every position, with memory exhausted at any insertion",
  UT + "nobody tries all positions, swaps of non-empty lists followed by node operations, or failures in the middle of a history.",
  ["src/list", "include/rcpr/list.h"], [("node linking and unlinking", "src/list/list_insert.c, list_append.c, list_remove.c"), ("re-parenting on swap", "src/list/list_swap.c")],
  ["list_head", "list_tail", "list_node_next", "list_node_prev", "list_node_child", "resource release callbacks"], [("head, tail, count", "the sequence", "src/list/list_internal.h")])
P("C02", "A singly linked list is a sequence under every operation history",
  "After any history of insert, append, pop, remove, clear, traverse and swap calls on singly linked lists, traversal gives exactly the sequence of elements the calls describe, with the right count, head, tail and parent for each node. "
  "An operation that runs out of memory reports it and leaves the sequence as it was. Each element taken out belongs to the caller, and every other element is released exactly once.",
  ["histories", "fault_sequences"], "every operation sequence up to the depth over two lists, at every position, with memory exhausted at any insertion",
  UT + "nobody tries all positions, tail removal followed by appends, or swaps followed by node operations.",
  ["src/slist", "include/rcpr/slist.h"], [("node linking and unlinking", "src/slist/slist_insert.c, slist_append.c, slist_remove.c"), ("re-parenting on swap", "src/slist/slist_swap.c")],
  ["slist_head", "slist_tail", "slist_node_next", "slist_node_child", "resource release callbacks"], [("head, tail, count", "the sequence", "src/slist/slist_internal.h")])
P("C03", "A queue delivers in order and never loses or duplicates a resource",
  "Resources come out of a queue in the order their insertions define: appended ones first-in first-out, inserted ones at the front. The reported count always equals the number of resources inside, popping an empty queue yields nothing, and an insertion without memory changes nothing.",
  ["histories", "fault_sequences"], "every history of insert, append, pop and release up to the depth, with memory exhausted at any insertion or during creation",
  UT + "interleavings of front and back insertions with pops to empty and failed insertions are not covered.",
  ["src/queue", "include/rcpr/queue.h"], [("queue over a singly linked list", "src/queue")], ["queue_pop", "queue_count", "resource release callbacks"])
P("C04", "A red-black tree is an ordered map under every operation history",
  "Under any history of inserts, finds, deletes, clears and swaps, a tree holds exactly the resources whose insertion succeeded and that were not deleted; lookups find exactly those keys, minimum, maximum, successor and predecessor follow key order, and a duplicate insertion is refused without taking ownership. "
  "An insertion that runs out of memory leaves the tree unchanged, and releasing the tree releases every resource it holds exactly once.",
  ["histories", "fault_sequences"], "every operation history up to the depth over two trees and a small key set, with allocation failures",
  UT + "deletions of every shape with the remaining tree walked in both directions, and swap, are not enumerated.",
  ["src/rbtree", "include/rcpr/rbtree.h"], [("search, insertion, deletion", "src/rbtree/rbtree_insert.c, rbtree_delete.c, rbtree_find.c"), ("in-order walk", "src/rbtree/rbtree_successor_node.c, rbtree_predecessor_node.c")],
  ["rbtree_find", "rbtree_insert", "rbtree_delete", "rbtree_minimum_node", "rbtree_successor_node", "rbtree_count"], [("root, nil, count", "the map", "src/rbtree/rbtree_internal.h")])
P("C05", "Every reachable red-black tree keeps its balance guarantees",
  "Whatever sequence of inserts and deletes produced it, a tree satisfies the red-black rules: a black root, no red node with a red child, and the same number of black nodes on every path to a leaf, with all parent links consistent. So its height is at most twice the logarithm of its size plus one.",
  ["histories"], "every tree shape and colouring reachable by inserts and deletes up to a number of keys, and every delete and insert in each of them",
  "No test looks at the colours; a tree that degrades into a list still answers every lookup the tests make.",
  ["src/rbtree"], [("insertion fixup", "src/rbtree/rbtree_insert_fixup.c"), ("deletion fixup", "src/rbtree/rbtree_delete_fixup.c"), ("rotations", "src/rbtree/rbtree_left_rotate.c, rbtree_right_rotate.c")],
  ["tree structure after each operation"], [("node colour and links", "the balance state", "src/rbtree/rbtree_internal.h")])
P("C06", "Containers stay consistent and leak nothing when releases fail",
  "When the release of a contained resource or of a container's own memory fails, the failing operation reports the failure, every other resource is still released exactly once, no memory is leaked, and a container that is still owned by the caller remains usable.",
  ["fault_sequences", "histories"], "every operation history up to the depth with any one contained resource failing to release, or any one reclaim failing",
  "Tests use resources and allocators that never fail to release.",
  ["src/list", "src/slist", "src/queue", "src/rbtree"], [("release and clear paths", "src/list/list_clear.c, src/slist/slist_clear.c, src/rbtree/rbtree_clear.c")], ["status codes", "resource release callbacks", "live allocations"])
P("A01", "Bump allocations are aligned, disjoint and inside the region",
  "Over any region and any history of requests, each block a bump allocator returns is aligned, lies entirely inside the region, and overlaps no other live block; nothing outside the region is written. A request that does not fit is refused, whatever its size, leaving the allocator as it was, and a reset makes the whole region available again.",
  ["inputs", "histories"], "every region size in a range, two alignments, and every history over request sizes that include exact fits, off-by-one sizes and sizes near the top of the address range",
  UT + "sizes that overflow the arithmetic or meet the end of the region exactly are not tried.",
  ["src/allocator", "include/rcpr/allocator.h"], [("bump pointer arithmetic", "src/allocator/bump_allocator_create.c")], ["allocator_allocate", "allocator_control"])
P("A02", "The malloc allocator reports exhaustion and never loses a block",
  "Under any history of allocate, reallocate, reclaim and release, a malloc allocator returns usable disjoint blocks, keeps the contents across a reallocation, and on exhaustion reports out of memory, with the previous block still valid and owned by the caller.",
  ["histories", "fault_sequences"], "every history up to the depth over boundary sizes, each underlying allocation failing or not",
  UT + "they cannot exhaust memory, and reallocation to zero or to impossible sizes is not tried.",
  ["src/allocator", "include/rcpr/allocator.h"], [("malloc wrapper", "src/allocator/malloc_allocator_create.c")], ["allocator_allocate", "allocator_reallocate", "allocator_reclaim"])
P("A03", "Memory comes from the allocator given for it and goes back to it",
  "Every object takes its memory from the allocator it was created with, or the one the call names, and never from another. Every block goes back, exactly once, to the allocator it came from, whichever objects, containers, swaps, messages or sockets it passed through meanwhile, also when an allocation fails on the way. "
  "A call that is given an allocator for its output uses that one for the output.",
  ["histories", "fault_sequences"], "every assignment of distinct allocators to the objects of a story, every story over containers up to a number of steps, with each one allocation failing or none",
  "The tests give every object the same malloc allocator, and malloc accepts its blocks back from any other one, so a block that goes to the wrong place is never noticed.",
  ["src/allocator", "src/list", "src/slist", "src/rbtree", "src/queue", "src/bigint", "src/string", "src/message", "src/fiber", "src/psock", "src/platform/pthread/thread"],
  [("each object's own copy of its allocator", "src/*/…_internal.h, alloc"), ("exchange of two containers", "src/list/list_swap.c, src/slist/slist_swap.c, src/rbtree/rbtree_swap.c")],
  ["the allocate, reallocate and reclaim methods of the allocators given", "live blocks of each allocator"], [("alloc", "where the object's block goes back to", "src/*/…_internal.h")])
P("B01", "Big integers are created zero, are large enough, and clone independently",
  "For every bit size, a created big integer is zero and can hold that many bits; a clone has the same value and shares no storage, so changing or releasing either never affects the other. When memory runs out at any step the call reports it, sets its output to null, and leaks nothing.",
  ["inputs", "fault_sequences"], "every bit size up to a bound, with the failure of each allocation, all release orders, clones of clones",
  UT + "two or three sizes and no allocation failures.", ["src/bigint", "include/rcpr/bigint.h"], [("size rounding", "src/bigint/bigint_create_zero.c"), ("deep copy", "src/bigint/bigint_clone.c")], ["bigint_create_zero", "bigint_clone"])
P("U01", "UUID parsing accepts exactly the canonical form and round-trips",
  "A string parses as a UUID exactly when it has the canonical 8-4-4-4-12 hexadecimal form, in either case, and then yields the bytes it spells; any other string is refused and the output is unchanged, and no byte outside the given string is read. Formatting a UUID and parsing it again gives the same UUID.",
  ["inputs"], "every length, and at each position every one of the 256 byte values; every value of every byte for formatting",
  UT + "a handful of strings.", ["src/uuid", "include/rcpr/uuid.h"], [("hex decoding", "src/uuid/uuid_parse_string.c, uuid_parse_raw_string.c"), ("formatting", "src/uuid/uuid_to_string.c")], ["uuid_parse_string", "uuid_parse_raw_string", "uuid_to_string"])
P("G01", "An auto-reset trigger notifies its listener once per signal and then resets",
  "Whatever the order of signals, registrations and steps, a step runs the registered listener, once and with its own context, exactly when a signal is pending, and consumes both; no other call runs a listener. "
  "A signal without a listener, or a listener without a signal, is kept for a later step, a second listener is refused while one is registered, and what a listener does to its trigger counts for the next step.",
  ["histories", "fault_sequences"], "every history of signal, register, step and release up to the depth over two triggers, where the listener itself may signal, register again or step, with an allocation failure on creation", UT + "only two orders.",
  ["src/auto_reset_trigger", "include/rcpr/auto_reset_trigger.h"], [("pending flag and listener slot", "src/auto_reset_trigger")], ["listener invocations"])
P("K01", "Stacks are mapped with the requested size and always unmapped",
  "A created stack is writable over at least its requested size, distinct stacks never overlap, and each one is given back to the system exactly once, with its exact extent. If memory or the mapping is refused, the call reports it, sets its output to null, and leaves nothing mapped.",
  ["histories", "fault_sequences"], "every history up to the depth of creations over several sizes and releases in any order, with each allocation or mapping failing, and release failing",
  UT + "one size, no failures, and no look at the unmapping.", ["src/stack", "include/rcpr/stack.h"], [("mmap and munmap", "src/stack")], ["mmap and munmap calls", "stack memory"])
P("S01", "Trimming removes exactly the leading and trailing whitespace",
  "For every string, left trim, right trim, trim and chomp give exactly the string with the leading, trailing or both whitespace, or the trailing line end, removed, in place, touching no byte outside the string.",
  ["inputs"], "every string up to a length over an alphabet of all whitespace characters, letters and high bytes", UT + "a few strings.", ["src/string", "include/rcpr/string.h"], [("in-place scanning", "src/string")], ["the string after the call"])
P("S02", "Word and delimiter splitting yields exactly the pieces, in order",
  "For every string and delimiter, splitting yields exactly the pieces between delimiters, in order, including empty ones where documented, then reports the end; word iteration yields exactly the maximal runs of non-whitespace. The pieces lie inside the original string and nothing outside it is touched.",
  ["inputs"], "every string up to a length over an alphabet with delimiters and whitespace, walked to the end", UT + "a few strings.", ["src/string", "include/rcpr/string.h"], [("iterators", "src/string")], ["the pieces returned"])
P("S03", "Prefix, suffix and whitespace queries agree with their definition",
  "For every pair of strings, the prefix and suffix tests are true exactly when one begins or ends with the other, and whitespace queries are true exactly for whitespace; no byte outside the strings is read.",
  ["inputs"], "every pair of strings up to a length, and every character value", UT + "a few pairs.", ["src/string", "include/rcpr/string.h"], [("comparison loops", "src/string")], ["return values"])
P("S04", "String duplication and concatenation are exact under any memory failure",
  "Duplicating a string or concatenating any number of strings gives a freshly allocated, terminated string with exactly the inputs in order; without memory the call reports it and leaks nothing. The inputs never change.",
  ["inputs", "fault_sequences"], "every list of up to three strings up to a length, with the allocation failing or not", UT + "two fixed strings.", ["src/string", "include/rcpr/string.h"], [("length arithmetic and copy", "src/string")], ["the result string", "live allocations"])
P("P01", "Typed values written to a socket are read back unchanged, in order",
  "Every sequence of typed values written to a process socket, in memory, over a stream descriptor, through user-supplied methods or a buffered reader, is read back by the matching typed reads with the same types, values and sizes, and nothing is left over. "
  "This holds however the kernel splits the bytes into short reads and short writes.",
  ["inputs", "schedules"], "every value of the small types and boundary values of the others, alone and in pairs, over every kind of socket and every segmentation of the stream",
  "The unit tests write a value to a socket pair and read it at once, so the kernel never splits it, and use one or two values per type.", ["src/psock", "include/rcpr/psock.h"],
  [("boxed encodings", "src/psock/psock_write_boxed_*.c, psock_read_boxed_*.c"), ("read to completion", "src/psock/psock_read_raw_*.c")], ["psock_read_boxed_*", "psock_write_boxed_*"])
P("P02", "Damaged or truncated values are refused and leak nothing",
  "A typed read of an encoding that is truncated, carries another type's tag, or declares a size that cannot be satisfied reports the failure, gives the caller nothing to free, and reads no memory outside of what was received. "
  "A read, write or allocation that fails at any step is reported, never answered with success or partial data, and leaks nothing.",
  ["inputs", "fault_sequences"], "every truncation, tag change and boundary size of each value in a menu, and every single failing read, write or allocation",
  "The unit tests read well-formed streams only.", ["src/psock", "include/rcpr/psock.h"], [("tag and size checks", "src/psock/psock_read_boxed_*.c"), ("write to completion", "src/psock/psock_write_raw_*.c")], ["psock_read_boxed_* status", "live allocations"])
P("P04", "Buffered reading delivers every byte once, in order, at every segmentation",
  "For every input, however it is split into reads, and every mix of line reads and plain reads with any buffer sizes, a buffered reader returns exactly the bytes of the input in order, none lost, repeated or invented. "
  "A line read ends at the line feed, at the end of the buffer or at the end of the stream and says which of these it was, and nothing outside of the caller's buffer is written.",
  ["inputs", "histories", "schedules"], "every short input, segmentation and operation sequence up to the depth, and inputs around the size of the internal buffer",
  "The unit tests use a few lines that all arrive in one read.", ["src/psock", "include/rcpr/psock.h"], [("refill and copy", "src/psock/psock_br_read_line.c, psock_br_psock_read.c, psock_br_fill.c")], ["psock_br_read_line", "psock_read_raw on the reader's socket adapter"])
P("P05", "In-memory sockets hold exactly what was written and nothing more",
  "An output buffer contains exactly the concatenation of all successful writes, whatever their sizes, also after writes that ran out of memory. A read from an input buffer yields exactly the requested bytes in order, or the end of file status once they are exhausted, and the input is never changed or read past its end.",
  ["histories", "inputs", "fault_sequences"], "every sequence up to the depth of sizes around the block size, with each allocation failing", UT + "the output is a few bytes in one block.",
  ["src/psock", "include/rcpr/psock.h"], [("block queue", "src/psock/psock_from_buffer_write.c, psock_from_buffer_read.c"), ("gathering the output", "src/psock/psock_from_buffer_get_output_buffer.c")], ["psock_from_buffer_get_output_buffer", "psock_read_raw"])
P("R01", "The disciplined scheduler runs every runnable fiber, in order, and nothing else",
  "Under a disciplined scheduler, a fiber added to the run queue runs after all those queued before it, one set to run next runs before them, each is resumed exactly once per request and with the event given there, and a fiber that blocked, stopped or was never added does not run. "
  "When no fiber is runnable the idle fiber runs if one is set, and otherwise the yielding fiber goes on and is told that the scheduler is exhausted.",
  ["histories", "schedules"], "every history of add, yield, block, wake, stop, run and idle-fiber operations up to the depth over three fibers", UT + "one or two fibers, in one order.",
  ["src/fiber", "include/rcpr/fiber.h"], [("run queue", "src/fiber/common/fiber_scheduler_create_with_disciplines.c"), ("idle fiber", "src/fiber/common/disciplined_fiber_scheduler_idle_fiber_yield.c, disciplined_fiber_scheduler_set_idle_fiber.c")],
  ["which fiber runs after each scheduler call"], [("run queue", "fibers that are runnable", "src/fiber/common/fiber_internal.h")])
P("R02", "A fiber switch preserves registers, stack and resume values",
  "Whatever the order in which fibers are switched, each resumes exactly where it yielded with the registers, floating point modes and stack contents its caller may rely on unchanged, and with exactly the identifier, event and parameter that the scheduler's callback chose. "
  "A fiber is entered once, with its context and an aligned stack of its own, and when its entry point returns, the scheduler learns its status and the fiber is stopped.",
  ["schedules", "histories"], "every sequence up to the depth of yields, refused yields, runs, additions, nested calls, returns and stops, with every choice of the next fiber at each switch", UT + "the switches follow one order, and nothing looks at registers across a switch.",
  ["src/fiber", "include/rcpr/fiber.h"], [("assembly switch and entry", "src/fiber/platform/sysv/x86_64/fiber_switch.s, fiber_make.s"), ("yield", "src/fiber/common/fiber_scheduler_yield.c, fiber_scheduler_run.c, fiber_scheduler_add.c"), ("entry and stop", "src/fiber/common/fiber_entry.c")],
  ["the state of each fiber across each switch", "the scheduler's callback"])
P("R03", "Discipline yields reach the right callback, and unexpected resumes are reported",
  "A yield through a discipline invokes exactly the callback registered for its code, with the yielding fiber, that code and the given parameter, whatever disciplines were added and in whatever order; an out-of-range or unregistered code never reaches another discipline's callback. "
  "Finding a discipline by its identifier yields exactly the one added, adding a duplicate is refused, and an unexpected resume event is answered by the fiber's own handler or by an error when there is none.",
  ["histories", "fault_sequences"], "every history up to the depth of adding and finding disciplines of several sizes and of yielding each code to them, including out-of-range ones, interleaved with other fibers", UT + "one discipline at a time, with its valid codes.",
  ["src/fiber", "include/rcpr/fiber.h"], [("callback vector", "src/fiber/common/fiber_scheduler_discipline_add.c, fiber_discipline_yield.c"), ("lookup", "src/fiber/common/fiber_scheduler_discipline_find.c"), ("unexpected events", "src/fiber/common/fiber_unexpected_event.c")], ["discipline callbacks", "status codes"])
P("R04", "Releasing a scheduler at any moment releases everything exactly once",
  "Whenever a scheduler is released, whatever fibers are runnable, blocked, stopped or never run and whatever messages and disciplines are pending, each fiber, stack, message payload, discipline and context it owns is released exactly once and nothing leaks. A fiber removed from the scheduler belongs to its remover and is left alone.",
  ["histories", "crash_points"], "every history up to the depth over all operations of scheduling, management, messages and conditionals, the scheduler being released at the end of each", UT + "each test releases after one orderly history.",
  ["src/fiber", "src/message", "src/condition"], [("release", "src/fiber/common/fiber_scheduler_resource_release.c, fiber_scheduler_create_with_disciplines.c")], ["live allocations", "mapped stacks", "payload release callbacks"])
P("R05", "Management events reach every addressed fiber exactly once",
  "A fiber that waits for management events is told of the next fiber that is added or stops, with that fiber, before anything else runs; nobody is told twice, and a fiber that no longer waits is not told. "
  "A quiesce or terminate request, to one running fiber or to all others, resumes each addressed fiber once with that request and then lets the sender go on; a request to a fiber that is not running is refused. Only a fiber that was added can be removed, and a removed one is the caller's to release.",
  ["histories", "schedules"], "every history up to the depth of waits, stops, quiesce and terminate requests to one or to all, and removals, over three fibers and the main fiber", UT + "a single fiber is stopped or quiesced in a fixed order.",
  ["src/fiber", "include/rcpr/fiber/disciplines"], [("management discipline", "src/fiber/common/fiber_scheduler_create_with_disciplines.c, disciplined_fiber_scheduler_receive_management_event.c"), ("requests", "src/fiber/common/disciplined_fiber_scheduler_send_quiesce_request_to_all.c, disciplined_fiber_scheduler_send_terminate_request_to_all.c")], ["resume events of each fiber", "received management events"])
P("R06", "A user-defined scheduler sees each event once, and its answer is obeyed",
  "The callback of a user-defined scheduler is called exactly once for the main fiber, for each yield, run, addition and stop, and for the release, with its own context, the fiber that yields and what that fiber passed; the fiber it names goes on, and an error it answers reaches the caller with no switch and with ownership unchanged. "
  "A scheduler exists only if its callback resumed the main fiber as asked, a failed creation leaves a null output and nothing allocated, and a release reports the callback's failure yet releases the main fiber and the scheduler. Schedulers nest: one driven from a fiber of another changes nothing in it.",
  ["histories", "fault_sequences"], "every program up to the depth of yields, refused yields, runs, additions, stops, creations with every kind of answer and releases, over two schedulers, the second used from any fiber of the first", UT + "one scheduler, whose callback answers as it should, in one order.",
  ["src/fiber", "include/rcpr/fiber.h"], [("creation and release", "src/fiber/common/fiber_scheduler_create.c, fiber_scheduler_resource_release.c, fiber_create_for_thread.c"), ("events", "src/fiber/common/fiber_scheduler_yield.c, fiber_scheduler_add.c, fiber_scheduler_run.c, fiber_entry.c")], ["calls of the callback", "status codes", "live allocations"])
P("M01", "Every message is delivered once, in order, to a receiver of its mailbox",
  "Each message sent to a mailbox is received exactly once, unchanged, with its return address and payload, in the order in which the messages were sent to that mailbox; a receiver blocks only while its mailbox is empty and is resumed when a message arrives. "
  "An interrupted receive reports the interruption and loses no message.",
  ["histories", "schedules"], "every history up to the depth of create, send, receive and close over several mailboxes and three fibers, also with management events interrupting the receivers", UT + "one sender and one receiver in one order.",
  ["src/message", "include/rcpr/message.h"], [("mailbox queues", "src/message")], ["message_receive", "message_send status"], [("mailbox tree", "messages not yet received and the blocked receiver", "src/message/message_internal.h")])
P("M02", "Message ownership is exact on failure, and closing a mailbox strands nobody",
  "A message whose sending succeeds belongs to the mailbox until received, and one whose sending fails stays with the sender unchanged; sending to or receiving from an address that does not exist or was closed fails. "
  "Closing a mailbox releases its undelivered messages exactly once and resumes a fiber blocked on it, and addresses of open mailboxes are distinct.",
  ["histories", "fault_sequences"], "every history up to the depth of mailbox operations with each single allocation failing, and every history in which a mailbox closes while messages wait or a receiver is blocked", UT + "no failing allocations, and closed mailboxes are not used again.",
  ["src/message", "include/rcpr/message.h"], [("close and send callbacks", "src/message")], ["status codes", "payload release callbacks"])
P("N01", "Conditionals wake exactly the waiting fibers they should, in order",
  "Notifying one resumes the fiber that has waited longest on that conditional, notifying all resumes every waiter exactly once, and neither touches fibers waiting elsewhere or fibers that start to wait later; a notification with nobody waiting has no effect. "
  "Closing a conditional resumes its waiters with a failure, an interrupted wait reports the interruption and leaves no waiter behind, and using a closed conditional fails.",
  ["histories", "schedules", "fault_sequences"], "every history up to the depth of create, wait, notify one, notify all and close over several conditionals and three fibers, with interruptions and with allocation failures", UT + "one or two waiters in one order.",
  ["src/condition", "include/rcpr/condition.h"], [("wait queues", "src/condition")], ["which fibers are resumed and with what status"])
P("F03", "Running out of memory in any fiber operation is reported and loses no fiber",
  "When any single allocation or stack mapping fails while a scheduler, fiber, discipline, mailbox or conditional is created, or during a scheduling, management, message or conditional operation, the operation reports it, outputs are null, nothing leaks, and every fiber, message and waiter is afterwards exactly where it was or where the completed operation puts it.",
  ["fault_sequences", "histories"], "each allocation of each constructor failing, and every operation history up to the depth with any one operation's allocation failing", "The unit tests cannot make an allocation fail in the middle of a history.",
  ["src/fiber", "src/message", "src/condition"], [("unwinding", "src/fiber/common/fiber_scheduler_create_with_disciplines.c, fiber_create.c"), ("queue insertion without memory", "src/fiber/common")], ["status codes", "live allocations", "which fibers run afterwards"])

PT = "include/rcpr/thread.h"
P("H01", "At most one thread holds a mutex's lock, and no acquire is lost",
  "Under every interleaving of threads that acquire and release locks, at most one thread is between a successful acquire of a mutex and the release of its lock, what one section writes is seen by the next, and different mutexes do not exclude each other. "
  "A thread that asks for a lock gets it once the lock is free, and a failed acquire is reported, gives no lock and leaves its output NULL.",
  ["schedules", "fault_sequences"], "every program of two or three threads up to a number of locked sections, nested ones too, every schedule up to a number of preemptions with a switch possible at every pthread call and memory access of the library, any one lock call failing",
  "A test runs the schedule the machine happens to take; a lock on the wrong mutex, a missing unlock on one path or an unprotected access shows only in rare ones.",
  ["src/platform/pthread/thread/thread_mutex_lock_acquire.c", "src/platform/pthread/thread/thread_mutex_create.c", PT], [("locking and unlocking", "src/platform/pthread/thread/thread_mutex_lock_acquire.c, thread_mutex_create.c")],
  ["thread_mutex_lock_acquire", "resource_release of a thread_mutex_lock"], [("mutex and its lock resource", "who is inside", "src/platform/pthread/thread/thread_internal.h")])
P("H02", "A signalled thread wakes up, holding the lock, and no other does",
  "While a thread waits on a condition variable, its lock is free for others; signal_one wakes exactly one of the threads that wait on that variable and signal_all wakes each of them, and a thread that wakes up holds the lock again. "
  "Signals to one variable wake no thread that waits on another, a signal is never lost and never remembered, and a failed wait or signal is reported and leaves the lock with its caller.",
  ["schedules", "fault_sequences"], "every program of two or three threads up to a number of waits and signals on two variables, every schedule up to a number of preemptions, any one call failing, and a bounded buffer with spurious wake-ups",
  "A lost wake-up needs a signal at one particular moment between a check and a wait; tests that pass by luck of timing cannot exclude it.",
  ["src/platform/pthread/thread/thread_cond_wait.c", "src/platform/pthread/thread/thread_cond_signal_one.c", "src/platform/pthread/thread/thread_cond_signal_all.c", "src/platform/pthread/thread/thread_cond_create.c", PT],
  [("waiting", "src/platform/pthread/thread/thread_cond_wait.c"), ("signalling", "src/platform/pthread/thread/thread_cond_signal_one.c, thread_cond_signal_all.c")], ["thread_cond_wait", "thread_cond_signal_one", "thread_cond_signal_all"])
P("H03", "A thread runs its function once and its release waits for it",
  "A created thread calls its function exactly once, with its context and at least the asked-for stack; releasing it returns only after the function returned, gives the function's status, and reclaims everything. "
  "When creating a thread, mutex or condition variable fails, the failure is reported, the output is NULL, no thread runs and nothing is leaked; a failure while releasing one is reported and its memory is reclaimed all the same.",
  ["schedules", "fault_sequences"], "every program of up to three threads, some of which create threads or take a lock themselves, every order of releases, every schedule up to a number of preemptions, every pthread or memory call failing",
  "A new thread that runs before its creator returns, or ends long after it is released, is a matter of timing that tests do not control; nor do they make pthread calls fail.",
  ["src/platform/pthread/thread/thread_create.c", "src/platform/pthread/thread", PT], [("creation and joining", "src/platform/pthread/thread/thread_create.c")],
  ["thread_create", "resource_release of a thread", "the thread's function"])
P("H04", "Threads that use different objects do not disturb each other",
  "Code that runs in different threads and shares no rcpr object behaves in each as if it ran alone: the library keeps no hidden state that two threads could both touch without synchronisation, in containers, strings, values, sockets, allocators, fibers or messages.",
  ["schedules"], "every pair of a menu of workloads over all parts of the library, every schedule up to a number of preemptions with a switch possible at every memory access of the library",
  "Tests run one thread; a static buffer or a cache that was added for speed works in every one of them.",
  ["src", "include/rcpr"], [("absence of static mutable state", "src")], ["results of every call of the workloads", "memory accesses of the library"])

PS = "include/rcpr/psock.h"
P("P03", "Messages and the descriptors in them arrive once, in order and unmixed",
  "Over a datagram socket each write is one message; a read that spans messages takes them in order, and what a read leaves of a message is dropped. A descriptor that is sent arrives as a new descriptor of the same open file while the sender keeps its own, in order with the other messages. "
  "A message without a descriptor is reported, descriptors beyond the first are not leaked, a failed send delivers nothing, and sockets that are no datagram sockets refuse descriptors.",
  ["histories", "fault_sequences"], "every history up to the depth of sends and receives of descriptors and data in both directions, messages with none, one or two descriptors from the peer, full and empty queues, and any one system call failing",
  "The one unit test passes one descriptor over a fresh pair of sockets.", ["src/psock/psock_read_raw_descriptor.c", "src/psock/psock_write_raw_descriptor.c", "src/psock/psock_from_descriptor_recvmsg.c", "src/psock/psock_from_descriptor_sendmsg.c", PS],
  [("control messages", "src/psock/psock_read_raw_descriptor.c, psock_write_raw_descriptor.c")], ["psock_read_raw_descriptor", "psock_write_raw_descriptor", "open descriptors"])
P("P07", "Every descriptor has one owner and is closed exactly once",
  "A socket that was made from a descriptor owns it and closes it once, when it is released; a wrapper owns the socket it wraps, a buffered reader does not. A failed constructor leaves the descriptor or socket it was given open and with its caller, and closes what it opened itself; an accepted descriptor is the caller's. "
  "No descriptor that is not open is ever used or closed.",
  ["histories", "fault_sequences"], "every history up to the depth of creating, connecting, listening, wrapping, buffering, accepting and releasing over four sockets, with any one allocation or system call of each operation failing",
  "Unit tests never look at which descriptors are open, nor make system calls fail.", ["src/psock", PS], [("release", "src/psock/psock_from_descriptor_release.c, psock_create_wrap_async.c, psock_br_release.c"), ("unwinding", "src/psock/psock_create_from_listen_address.c, psock_create_from_hostname_and_port.c")],
  ["open descriptors", "psock constructors", "resource_release"])
P("P09", "Connecting, listening, accepting and options do what was asked or report why not",
  "Connecting looks up the given name and connects a stream socket to its first address and the given port; listening binds the given address and listens; each failing step is reported with its own status, sets the output to NULL and leaves nothing open. "
  "Each pending connection is accepted once, in order, with its peer's address, also through a buffered reader, and an accept that would block says so; options reach the descriptor unchanged.",
  ["inputs", "histories", "fault_sequences"], "every combination of address families, a menu of ports and each failing allocation or system call; every history up to the depth of arriving connections, accepts and options, each of which may fail",
  "No unit test connects, listens or accepts.", ["src/psock/psock_create_from_hostname_and_port.c", "src/psock/psock_create_from_listen_address.c", "src/psock/psock_from_descriptor_accept.c", "src/psock/psock_from_descriptor_setsockopt.c", PS],
  [("resolve and connect", "src/psock/psock_create_from_hostname_and_port.c"), ("bind and listen", "src/psock/psock_create_from_listen_address.c"), ("accept", "src/psock/psock_accept.c, psock_from_descriptor_accept.c, psock_br_psock_accept.c")], ["psock_create_from_hostname_and_port", "psock_create_from_listen_address", "psock_accept", "psock_setsockopt"])
P("P10", "A read that does not block returns what is there and loses nothing",
  "psock_read_raw on a non-blocking descriptor, an asynchronous wrapper or a buffered reader over either never waits: it gives at least one and at most the requested number of bytes when bytes are there, in order, says that it would block when there are none, and reports the end or failure of the stream only when all bytes before it were given. "
  "The size it returns is the number of bytes that it stored, whatever its status, and it writes nothing beyond them.",
  ["histories", "fault_sequences"], "every history up to the depth of arriving bytes, the peer's close, reads of several sizes, short and failing system calls, over the four kinds of socket",
  "No unit test reads without blocking from a socket that is empty, ends or fails half way.", ["src/psock/psock_read_raw.c", "src/psock/psock_from_descriptor_read.c", "src/psock/psock_wrap_async_read.c", "src/psock/psock_br_fill.c", PS],
  [("reading without blocking", "src/psock/psock_read_raw.c, psock_wrap_async_read.c, psock_br_psock_read.c")], ["psock_read_raw"])
AS = "src/psock/psock_read_block.c"
P("P06", "Operations of an asynchronous socket complete as those of a blocking one would",
  "A fiber that reads from, writes to, accepts from, or sends a descriptor or message through a socket wrapped by psock_create_wrap_async gets the result that the same call on a blocking socket would give, whatever other fibers do meanwhile and whenever the peer sends, receives, connects or closes: all the bytes asked for, in order, nothing lost or sent twice, or an error only when the peer ended the stream or a system call failed. "
  "Such a call suspends only the calling fiber and never blocks the process, never reports that it would block, and leaves no descriptor, memory or stack behind once its socket and scheduler are released.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of up to two fibers' operations on sockets, pipes and listening sockets with what the peer does, up to a number of operations and peer actions, with short buffers and with one failing system call or allocation; the epoll and the poll event loop",
  "The unit tests run one fixed exchange between two fibers; they cannot choose when the peer acts or which call fails.", ["src/psock/psock_create_wrap_async.c", "src/psock/psock_wrap_async_read.c", "src/psock/psock_wrap_async_write.c", "src/psock/psock_wrap_async_accept.c", "src/psock/psock_wrap_async_sendmsg.c", "src/psock/psock_wrap_async_recvmsg.c", AS, "src/psock/psock_write_block.c", "src/psock/platform/epoll/psock_idle_fiber_entry.c", "src/psock/platform/poll/psock_idle_fiber_entry.c"],
  [("waiting", "src/psock/psock_read_block.c, psock_write_block.c, platform/*/psock_fiber_scheduler_disciplined_*_wait_callback_handler.c"), ("event loop", "src/psock/platform/*/psock_idle_fiber_entry.c"), ("operations", "src/psock/psock_wrap_async_*.c")], ["psock_create_wrap_async", "psock_read_raw_data", "psock_write_raw_data", "psock_accept", "psock_read_block", "psock_write_block"])
P("P08", "A fiber that waits for a socket is neither forgotten nor woken for another",
  "A fiber that waits to read or to write a socket is resumed once the socket can be read or written or its peer is gone, whatever other fibers wait for, share or stop waiting for, and only one fiber at a time may wait to read, and one to write, the same socket: a second one gets ERROR_PSOCK_DOUBLE_BLOCK_UNSUPPORTED and disturbs nobody. "
  "When another event, such as a quiesce or termination request, resumes it, its own unexpected event handler is called once with the event received and the one expected, and the operation is continued if the handler returns success, and otherwise ends with the handler's status, losing no data that was not read and leaving the socket usable; without a handler it ends with ERROR_FIBER_NO_UNEXPECTED_HANDLER.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of up to three fibers that use the same or different sockets, of the interruptions sent to them and their handlers' decisions, and of what the peer does, up to a number of operations and actions",
  "No unit test interrupts a fiber that waits for a socket, or has two fibers wait for one.", [AS, "src/psock/psock_write_block.c", "src/psock/psock_br_read_line.c", "src/psock/platform/epoll/psock_idle_fiber_entry.c", "src/psock/platform/poll/psock_idle_fiber_entry.c", "src/fiber/common/fiber_unexpected_event.c"],
  [("registering a wait", "src/psock/psock_read_block.c, psock_write_block.c"), ("resuming and re-arming", "src/psock/platform/epoll/psock_idle_fiber_entry.c"), ("a buffered reader", "src/psock/psock_br_read_line.c")], ["psock_read_block", "psock_write_block", "disciplined_fiber_scheduler_send_quiesce_request_to_fiber", "fiber_unexpected_event_callback_add"])
SU = "include/rcpr/socket_utilities.h"
P("Z01", "Moving, mapping and closing descriptors touches exactly the ones it was given",
  "socket_utility_move_descriptors leaves every listed descriptor open at or above the threshold, each at a place of its own that its variable names, and socket_utility_setfds puts each at the place it is mapped to, in every arrangement of old and new places that does not overlap; no descriptor that is not listed or replaced is closed, and a failure loses none. "
  "socket_utility_close_other_fds and close_standard_fds close all descriptors above the given one, or the standard three, and no other; set_nonblock adds O_NONBLOCK and keeps the other flags, and socketpair gives two connected descriptors or reports why not.",
  ["inputs", "configurations", "fault_sequences"], "every arrangement of up to a number of descriptors, a bystander, threshold or map over eight places, valid or not, with any one call failing; every subset of open descriptors around the boundaries",
  "The unit tests move descriptors that are far apart and never into each other's places.", ["src/socket_utilities", SU], [("moving", "src/socket_utilities/vsocket_utility_move_descriptors.c, vsocket_utility_setfds.c"), ("closing", "src/socket_utilities/socket_utility_close_other_fds.c")],
  ["socket_utility_move_descriptors", "socket_utility_setfds", "socket_utility_close_other_fds", "socket_utility_set_nonblock", "open descriptors"])
P("Z02", "Network byte order is big endian and converts back",
  "For every 16, 32 and 64 bit value, signed ones too, the bytes of the converted value in memory are the value's bytes from the most to the least significant, and converting back gives the value.",
  ["inputs"], "all 16 bit values, all 32 bit values, and all 64 bit values with two arbitrary bytes on a ground of zeros or of ones", "A test samples a few values; a conversion that goes through a narrower or signed type fails for some.",
  ["src/socket_utilities", SU], [("conversion", "src/socket_utilities/socket_utility_hton64.c, socket_utility_ntoh64.c")], ["socket_utility_hton16", "socket_utility_hton32", "socket_utility_hton64", "socket_utility_ntoh16", "socket_utility_ntoh32", "socket_utility_ntoh64"])
P("V01", "With the run-time check compiled in, nothing is called through a foreign vtable",
  "When RCPR_VTABLE_RUNTIME_ENFORCEMENT is set, an operation on a resource, an allocator or a socket whose vtable does not lie in rcpr's vtable section calls none of its functions, makes no system call, leaves outputs and other objects as they were and reports ERROR_GENERAL_BAD_VTABLE, or fails an assertion when that was configured. "
  "This holds wherever the forged table lies and also for resources inside containers, sockets behind other sockets and the allocators of objects; every genuine object passes the check in every operation.",
  ["inputs", "configurations", "histories"], "every operation that goes through a vtable, every place of a forged table out of a list with all aligned addresses around both ends of the section, both configurations; for genuine objects every history up to a small depth",
  "No test is compiled with the check, which the default configuration leaves out.", ["include/rcpr/vtable.h", "src/resource", "src/allocator", "src/psock"],
  [("range check", "include/rcpr/vtable.h, src/resource/resource_vtable_read.c"), ("callers", "src/resource/resource_release.c, src/allocator/allocator_allocate.c, src/psock")], ["status codes", "calls through the forged tables", "system calls", "live allocations"])
P("P11", "A socket of user methods calls exactly those methods and reports what they say",
  "An operation on a socket made by psock_create_from_user_methods calls the user's method with that socket, its context and the caller's arguments, as often as the data asks for and not after one fails, and gives the caller its status and its results; an operation whose method was left out fails with its own status and calls nothing. "
  "Integers, raw data, boxed values, descriptors, messages, options, accepts and buffered lines all work over such methods, however few bytes each takes or gives, and the release method is called once, when the socket is released.",
  ["histories", "inputs", "fault_sequences"], "every sequence up to a length of operations on two sockets, directly or through a buffered reader, with each set of optional methods, every answer of each call, one failing or giving less; strings around the largest size",
  "One unit test makes a socket with methods that always succeed.", ["src/psock/psock_create_from_user_methods.c", "src/psock/psock_setsockopt.c", "src/psock/psock_accept.c", "src/psock/psock_sendmsg.c", "src/psock/psock_recvmsg.c", PS],
  [("adapters", "src/psock/psock_create_from_user_methods.c, psock_from_user_*.c"), ("loops over short transfers", "src/psock/psock_read_raw_data.c, psock_write_raw_data.c")], ["calls of the user's methods", "psock_setsockopt", "psock_read_raw", "psock_write_raw_data", "psock_br_read_line"])
P("F01", "A constructor that fails leaves nothing behind, a release forgets nothing",
  "When an allocation or mapping fails while a container, big integer, string, trigger, allocator, message, fiber, scheduler, discipline, mailbox or conditional is created, the constructor reports it, sets its output as documented, reclaims what it allocated even when a reclaim fails meanwhile, keeps nothing that it was given, and succeeds when it is called again. "
  "A release during which a reclaim fails says so, and still reclaims everything that it can.",
  ["fault_sequences"], "for each constructor each allocation or mapping failing, and in each of these cases each one, or two, of the reclaims made while unwinding; for each object each one, or two, of the reclaims of its release failing",
  "The unit tests use an allocator that never fails, and never count what is left.", ["src/list", "src/slist", "src/queue", "src/rbtree", "src/stack", "src/bigint", "src/string", "src/uuid", "src/auto_reset_trigger", "src/allocator", "src/message", "src/condition", "src/fiber"],
  [("unwinding", "the cleanup labels of each constructor")], ["status codes", "outputs", "live allocations and mappings", "what the next call does"])
P("F02", "A socket operation that runs out of memory reports it and leaves nothing behind",
  "When an allocation fails while a socket, an asynchronous wrapper or a buffered reader is made, or while data is read into a new buffer, written to an output buffer or taken out of it, the operation reports it, leaves outputs as documented, closes no descriptor that it was given and leaves none of its own open, reclaims what it allocated even when a reclaim fails meanwhile, and succeeds when it is repeated. "
  "A release during which a reclaim fails says so, closes the descriptor, and still reclaims everything that it can.",
  ["fault_sequences"], "for each constructor and each operation that allocates, each allocation or mapping failing, and in each of these cases each one, or two, of the reclaims made while unwinding; for each kind of socket each one, or two, of the reclaims of its release failing",
  "The unit tests use an allocator that never fails, and never count what is left.", ["src/psock", PS], [("unwinding", "the cleanup labels of src/psock/psock_create_*.c, psock_read_*_data.c, psock_read_boxed_string.c"), ("output buffers", "src/psock/psock_from_buffer_write.c, psock_from_buffer_get_output_buffer.c")],
  ["status codes", "outputs", "live allocations", "open descriptors"])
