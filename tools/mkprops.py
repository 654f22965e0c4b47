#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays readable)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })

SCHED = "src/kern/core/hev-task-system-schedule.c"
TASK = "src/kern/task/hev-task.c"
TIMER = "src/kern/time/hev-task-timer.c"

prop("C01", "Each run of a task calls its entry exactly once; run() drains every task",
     "Each time a stopped task is run, its entry is called exactly once, as that task and with the given data, and the task stops for good (until run again) when the entry returns or the task exits. "
     "Running the task system returns exactly when no started task is left, counting tasks started by tasks, and the system can then be run again. "
     "A task reports stopped before it starts and after it ends, running while it is runnable and waiting while suspended, and the task, with its stack and its data, stays valid until its last reference is dropped.",
     ["histories", "schedules"],
     "All programs that create, reference, run, re-run, suspend, wake, exit and drop tasks, from the thread or from other tasks, in every interleaving.",
     "The tests start a handful of tasks in one fixed order each; whether a task can be dropped, run twice, or forgotten depends on the mix of exits, restarts, references and wakes in a history.",
     [SCHED, TASK, "src/kern/task/hev-task-executer.c", "src/kern/core/hev-task-system.c"],
     [("task accounting (total/running counts) and removal of ended tasks", SCHED), ("reference count of a task", TASK)],
     ["entry calls per run", "return of hev_task_system_run", "hev_task_get_state / get_data / self", "stack mappings released"])

prop("C02", "A task resumes exactly where it stopped, and is never switched involuntarily",
     "Across any number of suspensions in any interleaving with other tasks, a task resumes exactly where it stopped, with its local variables, call stack and callee-saved registers unchanged. "
     "Control moves to another task only when the running task yields, waits or ends; starting, waking, re-prioritising or joining tasks that have ended never switches, and code between two suspension points runs without interference from other tasks of that thread.",
     ["schedules", "histories"],
     "All interleavings of any number of tasks with any stack sizes and call depths.",
     "The tests switch between a few shallow tasks holding almost no state; corrupted registers or stacks show only for particular depths, sizes and interleavings.",
     [SCHED, "src/kern/task/hev-task-executer.c", "src/kern/task/hev-task-execute.S", "src/kern/task/hev-task-stack-mmap.c", "src/kern/task/hev-task-stack-heap.c"],
     [("saved jump contexts per task and per thread", SCHED), ("separate stack per task", "src/kern/task/hev-task-execute.S")],
     ["canaries in locals, registers and stack frames", "owner of the processor between suspension points"])

prop("C03", "Wake-ups are never lost, duplicated or invented",
     "Waking a suspended task makes it runnable and it resumes exactly once for it; waking a task that is already runnable has no effect, and never affects any other task. "
     "A task that waits resumes only after something woke it after it suspended (another task's wake or join, its own timer, or an event on a descriptor registered for it), and every such wake leads to a resume.",
     ["schedules", "histories"],
     "All orders of waits, yields, wakes (including repeated and self-targeted wakes) and task ends over any set of tasks.",
     "A lost or spurious wake needs a wake that lands between particular steps of the target; tests use one waker and one sleeper.",
     [SCHED, TASK],
     [("state test before insertion into the run queue", SCHED), ("run queue insertion/removal", SCHED)],
     ["resume events per task against the wakes issued", "deadlock: every task waiting although a wake was issued"])

prop("C04", "Runnable tasks are served by priority weight and never starved",
     "While a runnable task of priority value p waits for its turn, every other task whose priority value q is at least 1 gets at most max(1, ceil(p/q)) turns, whatever mix of yields, waits, wakes and new tasks the others perform. "
     "Tasks started before the system runs, or made runnable by one running task between two of its switches, get their next turn in increasing order of priority value and, for equal values, in the order they became runnable. "
     "A new priority is reported at once, takes effect at the latest after the task's next turn, and out-of-range values are clamped to [0, 15].",
     ["schedules", "histories"],
     "All mixes of runnable, waiting, woken and newly started tasks of every priority, for unbounded runs (default clock-less scheduling configuration).",
     "Tests check the order of two tasks once; starvation or unfairness builds up over long histories of yields and wakes.",
     [SCHED, "src/lib/rbtree/hev-rbtree.c", "src/lib/rbtree/hev-rbtree-cached.c", TASK],
     [("schedule key advanced by priority per turn; woken tasks placed relative to the smallest key", SCHED), ("ordered tree with cached first", "src/lib/rbtree/hev-rbtree-cached.c")],
     ["sequence of turns of all tasks"])

prop("C05", "Sleeps never end early as complete and every deadline is honoured",
     "A sleep returns zero only if at least the requested time has elapsed on the monotonic clock (to the resolution of the returned unit), and otherwise returns the time that was left when it was woken. "
     "Every sleeping task becomes runnable once its own deadline has passed and sleepers with earlier deadlines have had their turn, whatever other sleepers start, get woken early or finish meanwhile, so that sleepers in an otherwise idle system wake in deadline order and on time, for every requested duration.",
     ["histories", "inputs", "schedules"],
     "All sets of concurrent sleepers, all durations representable in the argument, all start times, and any early wakes.",
     "Tests sleep a few hundred microseconds with up to three sleepers on the real clock; second boundaries, long durations and re-arming after early wakes are not reached.",
     [TIMER, "src/kern/time/hev-task-timer-timerfd.c", "src/kern/time/hev-task-timer-timerfd.h", TASK, "src/lib/rbtree/hev-rbtree.c"],
     [("ordered tree of deadlines and one timer descriptor armed for the earliest", TIMER)],
     ["return value and virtual time at return of every sleep", "time each sleeper became runnable"])

prop("C06", "Readiness of a registered descriptor always wakes its task, and only it",
     "After a descriptor is registered for a task with a set of events, each time such an event becomes ready (including one that is ready already when registering or modifying, and errors or hang-ups) the task, if waiting, is woken, even while other tasks keep the processor busy by yielding. "
     "The registered set can be changed and removed: events outside the current set (errors and hang-ups aside), of removed or closed descriptors, or of descriptors registered for other tasks do not wake it; registering twice, or changing or removing what is not registered, fails with -1 and changes nothing.",
     ["schedules", "histories"],
     "All sequences of add, change, remove, close and readiness changes on any number of pipe and socket descriptors, with any batch order reported by the kernel.",
     "Tests use one descriptor per task with an idle system; missed edges and stale registrations need specific orders of readiness and suspension.",
     ["src/kern/io/hev-task-io-reactor.c", "src/kern/io/hev-task-io-reactor-epoll.h", SCHED, TASK],
     [("edge-triggered epoll registration carrying the task", "src/kern/io/hev-task-io-reactor-epoll.h"), ("poll at every scheduling step when some task waits", SCHED)],
     ["resumes of the owner against readiness edges produced", "return values of add/mod/del"])

prop("C07", "A task mutex excludes all others and its waiters always make progress",
     "At most one task holds a mutex at any time: lock returns only when the caller holds it and try-lock succeeds exactly when nobody holds it, failing with -1 without waiting otherwise. "
     "Whenever a mutex is released while tasks wait for it some task acquires it, no waiter is forgotten, and once contention ends every waiter has acquired it, also when waiting tasks are woken for other reasons.",
     ["schedules", "histories"],
     "All interleavings of lock, try-lock, unlock, yields inside and outside the critical section, and unrelated wake-ups, over any number of tasks and mutexes.",
     "The test has a fixed handful of tasks; forgotten waiters or double ownership depend on barging, spurious wakes and waiter order.",
     ["src/kern/sync/hev-task-mutex.c"],
     [("lock flag and list of waiting tasks", "src/kern/sync/hev-task-mutex.c")],
     ["ownership as seen by the tasks", "acquisitions per waiter", "deadlock"])

prop("C08", "A condition variable wakes exactly the waiters it should",
     "A signal releases exactly one of the tasks waiting at that moment and a broadcast exactly all of them, no other event releases a plain wait, and every wait returns with the mutex held by the caller. "
     "A timed wait returns 0 if and only if it was released by a signal or broadcast and -1 only after its time has passed (less at most one millisecond per unrelated wake-up), and a wait that times out leaves every other waiter still reachable by later signals and broadcasts.",
     ["schedules", "histories"],
     "All interleavings of wait, timed wait, signal, broadcast, time-outs, unrelated wake-ups and mutex contention over any number of tasks.",
     "The test has one timed waiter and no concurrent time-outs; a waiter lost by another one's time-out needs two waiters and a specific order.",
     ["src/kern/sync/hev-task-cond.c", "src/kern/sync/hev-task-mutex.c"],
     [("list of waiters with per-waiter release flag", "src/kern/sync/hev-task-cond.c")],
     ["returns of waits against signals and broadcasts issued", "virtual time at time-out", "mutex ownership at return"])

prop("C09", "Channels deliver every datagram once, in order and intact",
     "Every datagram written to one end of a channel is read at the other end exactly once, in order, with exactly the bytes written, cut only to the buffer size of a buffered channel and to the size the reader asked for. "
     "A write to an unbuffered channel returns only after its datagram was read (or the peer was destroyed); on a channel with n buffers a write returns without waiting while fewer than n datagrams are unread and waits while more than n are unread; a read waits only while nothing is unread.",
     ["inputs", "schedules", "histories"],
     "All datagram sizes (including 0 and odd sizes), buffer sizes and counts, both directions, and all interleavings of one task per end, with unrelated wake-ups.",
     "The test writes two ints; ring wrap-around, truncation, size classes and back-pressure depend on sizes and interleavings.",
     ["src/kern/itc/hev-task-channel.c", "src/kern/itc/hev-task-channel-private.h"],
     [("ring of datagram buffers with read/write index and use count per end", "src/kern/itc/hev-task-channel.c")],
     ["datagrams written against datagrams read", "unread count at return of each write/read"])

prop("C10", "Destroying a channel end is safe at any time and seen by its peer",
     "After one end of a channel is destroyed, the other end can still read every datagram already accepted for it, then gets -1; a write from the other end, including one already waiting, returns -1, and no task blocked on the other end stays blocked. "
     "Either end can be destroyed at any moment no task is blocked on that same end, in any order and by any task (including after the tasks that used it have ended), without touching freed memory or leaking any.",
     ["histories", "schedules"],
     "All points at which either end is destroyed relative to reads, writes, waits and ends of the tasks using the pair.",
     "Tests always destroy ends from the task using them, after finishing; teardown with unread data, blocked peers or ended users is not reached.",
     ["src/kern/itc/hev-task-channel.c"],
     [("peer link cleared and both users woken on destroy", "src/kern/itc/hev-task-channel.c"), ("reference held on the peer by a writer", "src/kern/itc/hev-task-channel.c")],
     ["return values after destroy", "AddressSanitizer/stack quarantine reports", "live allocation count"])

prop("C11", "Channel select returns ready channels, misses none and honours its timeout",
     "A read select returns a channel added to the selector that has an unread datagram, and waits only while none has; a write select over buffered channels returns one that can accept a datagram without waiting, and waits only while none can, waking as soon as a peer's write or read makes one ready. "
     "It returns nothing only when the selector is empty or the timeout has passed (0 does not wait, negative waits without limit, less at most one millisecond per unrelated wake-up), and a removed channel is never returned and works on as an ordinary channel.",
     ["histories", "schedules"],
     "All sequences of adding and removing channels, reads and writes on both ends, timeouts and unrelated wake-ups; selector, added channels and selecting task as documented (the task that adds selects).",
     "The test adds channels once and never lets a buffered writer fill up and drain; readiness bookkeeping depends on the history of fills, drains, adds and removes.",
     ["src/kern/itc/hev-task-channel-select.c", "src/kern/itc/hev-task-channel-select-private.h", "src/kern/itc/hev-task-channel.c"],
     [("lists of readable and writable channels maintained by read/write", "src/kern/itc/hev-task-channel-select-private.h")],
     ["returned channel against a model of unread counts", "virtual time at return", "deadlock"])

prop("C12", "Join returns 0 exactly when the joined task has ended, however it ended",
     "A join on a task returns 0 only once that task has ended, whether its entry returned or it called exit, and never stays blocked after that; joining a task that has already ended (or was never run) returns 0 at once. "
     "While one task is joining, a second join on the same task returns -1 at once; joins never disturb tasks other than the joined one, and a task that was joined can be run and joined again.",
     ["schedules", "histories"],
     "All orders of start, suspension, end (return or exit), join, wake-up and re-run over any set of joined and joining tasks holding references.",
     "The test joins one sleeping task that returns; exit, already ended, contended and repeated joins are not run.",
     [TASK, "src/kern/task/hev-task-executer.c", SCHED],
     [("joiner recorded in the task and woken at its end", "src/kern/task/hev-task-executer.c")],
     ["state of the target at return of join", "return values", "deadlock"])

prop("C13", "Allocated blocks are disjoint, big enough, aligned, and keep their contents",
     "Every block returned by the allocator is at least as large as requested, aligned for any type, does not overlap any other live block, and keeps its contents until freed or resized; zeroed and array allocations are entirely zero even when memory is reused. "
     "Resizing keeps the contents up to the smaller size; a request that cannot be satisfied or whose size overflows returns a null pointer and leaves existing blocks intact.",
     ["inputs", "histories"],
     "All sequences of allocate, allocate-zeroed, array-allocate, resize and free of all sizes, in each thread.",
     "The test makes five allocations; reuse across size classes, eviction, large sizes and overflow need long and extreme sequences.",
     ["src/mem/slice/hev-memory-allocator-slice.c", "src/mem/simple/hev-memory-allocator-simple.c", "src/mem/api/hev-memory-allocator-api.c", "src/mem/base/hev-memory-allocator.c"],
     [("slice header with size class, per-class free lists", "src/mem/slice/hev-memory-allocator-slice.c")],
     ["address ranges of live blocks", "fill patterns at free/resize", "underlying allocation size"])

prop("C14", "The allocator keeps a bounded cache and gives everything back",
     "Memory freed to the allocator and kept for reuse never exceeds its configured maximum number of cached blocks (1000 by default), whatever the sequence of sizes, and blocks above the configured maximum size are never kept. "
     "A freed block of a cached size is reused for a later request of the same size class instead of asking the system again, and when the task system is finished all cached memory goes back to the system.",
     ["histories", "inputs"],
     "All sequences of allocations and frees of any sizes and any number of init/fini cycles.",
     "The test never fills the cache; growth without bound and memory lost on eviction need thousands of operations.",
     ["src/mem/slice/hev-memory-allocator-slice.c", "src/mem/base/hev-memory-allocator.c", "src/kern/core/hev-task-system.c"],
     [("cached count with eviction from the least recently used size class", "src/mem/slice/hev-memory-allocator-slice.c"), ("allocator released on fini", "src/kern/core/hev-task-system.c")],
     ["system allocations outstanding minus live blocks", "system allocation calls per request"])

prop("C15", "A circular buffer is an exact bounded byte queue",
     "At every moment the readable regions of a circular buffer list, in order, exactly the bytes that were committed and not yet consumed, and the writable regions together have exactly the remaining capacity; all regions are non-empty, lie inside the buffer and do not overlap. "
     "The reported used size never exceeds the maximum and always equals bytes committed minus bytes consumed, and the buffer lives until its last reference is dropped.",
     ["inputs", "histories"],
     "All capacities of at least 1 and all sequences of partial commits and partial consumes within the offered regions, also with consumes between the offer of a region and its commit.",
     "The test runs one short sequence; wrap-around errors show only at particular offsets and sizes.",
     ["src/lib/io/buffer/hev-circular-buffer.c"],
     [("read position and used size modulo capacity", "src/lib/io/buffer/hev-circular-buffer.c")],
     ["bytes read out against a reference queue", "region bounds"])

prop("C16", "Task I/O calls act like blocking calls on the stream, one attempt at a time",
     "A read, write (plain or vectored), accept or connect through the task I/O calls waits, without stopping other tasks, until the operation can proceed and then returns exactly what the operating system's call returned: the bytes moved are the next bytes of the stream, never lost, repeated or reordered, and end of file and errors (with the error code) are reported as such. "
     "A would-block condition never reaches the caller; with a yielder the call consults it before each wait with the wait type and the given data, returns -2 as soon as it answers non-zero, and consumes or produces no data in that case.",
     ["inputs", "schedules", "fault_sequences"],
     "All sizes and vectors, all fragmentations, spurious wakes, would-block answers and errors from the operating system, on pipes, local sockets and TCP connections, amid other tasks' activity.",
     "The tests move a few bytes that are always available; retry paths run only under back-pressure, fragmentation and errors.",
     ["src/lib/io/basic/hev-task-io.c", "src/lib/io/socket/hev-task-io-socket.c"],
     [("retry loop around the non-blocking call with yielder", "src/lib/io/basic/hev-task-io.c")],
     ["byte streams at both ends", "result and errno against the intercepted system call", "yielder calls"])

prop("C17", "Wait-all transfers are exact and message calls keep their meaning",
     "With the wait-all flag, the send and receive calls (plain, addressed and message forms) move exactly the requested bytes across any fragmentation, and return less only because of end of stream, an error or a yielder's stop, then the count moved so far (or the error or -2), with all scattered pieces filled or sent in order exactly once. "
     "Without it one operating-system call decides the result; caller-supplied vectors and message headers of a send are not modified, ancillary data is sent exactly once, and a message receive reports the source address, ancillary data, and flags like the operating system's call does.",
     ["inputs", "schedules", "fault_sequences"],
     "All lengths, vector shapes (including empty pieces), fragmentations, would-block answers and stream ends.",
     "The tests transfer six bytes that arrive in one piece, so the resume arithmetic over partial transfers is never run.",
     ["src/lib/io/socket/hev-task-io-socket.c"],
     [("private copy of the vector advanced after each partial transfer", "src/lib/io/socket/hev-task-io-socket.c")],
     ["byte streams at both ends", "message header fields after the call", "descriptors received"])

prop("C18", "Splicing forwards both directions without losing, adding or reordering bytes",
     "While two descriptor pairs are spliced, the bytes delivered on each output are at every moment a prefix of the bytes supplied on the matching input, in both directions independently, under any back-pressure and fragmentation, and forwarding never stalls while an input has data and its output has room. "
     "When an input ends, all bytes read from it are delivered before splicing ends, splicing goes on until the other direction ends too if both pairs have separate input and output descriptors and ends otherwise, and when it ends (also through the yielder) it leaves the caller's descriptors open and releases everything it created.",
     ["schedules", "inputs", "fault_sequences"],
     "All arrival patterns, sizes, buffer sizes, back-pressure and orders of ending, for sockets and pipe pairs, with both the system-call and the buffer implementation.",
     "The test forwards 64 bytes one way with no back-pressure; losses occur around full buffers, partial moves and closing.",
     ["src/lib/io/basic/hev-task-io.c", "src/lib/io/buffer/hev-circular-buffer.c"],
     [("per-direction intermediate pipe or buffer with count of bytes in flight", "src/lib/io/basic/hev-task-io.c")],
     ["byte streams at the four outer ends", "open descriptors before and after", "deadlock"])

prop("C19", "Descriptors opened through the library are non-blocking and leak-free",
     "Every descriptor returned by the open, creat, openat, dup, dup2, pipe, socket, socketpair and accept calls is in non-blocking mode and otherwise equivalent to what the plain system call returns for the same arguments (access mode, creation mode, flags, target number, peer address). "
     "When such a call fails at any step it returns a negative value and leaves no descriptor open that was not open before.",
     ["inputs", "fault_sequences"],
     "All flag and mode combinations, and a failure of each system call involved.",
     "The tests check one descriptor of each kind on the success path.",
     ["src/lib/io/basic/hev-task-io.c", "src/lib/io/pipe/hev-task-io-pipe.c", "src/lib/io/socket/hev-task-io-socket.c"],
     [("non-blocking flag at open or by ioctl, close on failure", "src/lib/io/socket/hev-task-io-socket.c")],
     ["F_GETFL/fstat of the result against the plain call", "open descriptor set"])

prop("C20", "Task poll reports readiness like poll, without blocking the thread",
     "Polling a set of descriptors returns a positive count with the same ready events poll itself reports at that moment as soon as any of them is ready (also when it was ready before the call), returns 0 only when none was ready and the timeout has passed (0 does not wait, negative waits without limit, less at most one millisecond per unrelated wake-up), and returns -1 on an error. "
     "Other tasks keep running meanwhile, and negative descriptors are ignored as by poll.",
     ["schedules", "inputs"],
     "All sets of pipe, socket and ordinary file descriptors (also listed repeatedly), masks of readable and writable, timeouts, arrival times of readiness and unrelated wake-ups.",
     "The test polls one descriptor that becomes ready once; sets, timeouts, early wakes and already-ready descriptors are not run.",
     ["src/lib/io/poll/hev-task-io-poll.c", TASK],
     [("registration of all descriptors for the calling task, sleep, re-poll", "src/lib/io/poll/hev-task-io-poll.c")],
     ["revents against poll at return", "virtual time at return", "progress of other tasks"])

prop("C21", "Chained I/O delivers the byte stream intact through any chain",
     "Data written to one end of a chain of I/O layers (descriptor, socket, buffers of any size, stacked in any number) and flushed arrives at the other end exactly once, in order and intact; reads return the next bytes, peeking shows the next bytes without consuming them, the exact forms move exactly the requested count unless the stream ends or fails, null layers return end of file and discard writes, and a chain without a bottom layer fails every transfer it cannot buffer. "
     "Nothing written may be lost or stay behind after a successful flush, errors of the bottom layer (would-block excepted) reach the caller with their code, and datagram calls keep message boundaries and addresses. "
     "With a yielder, each of these calls waits only in it and returns -2 as soon as it answers non-zero.",
     ["inputs", "schedules", "fault_sequences"],
     "All chain shapes and buffer sizes, all mixes of read, write, vector (including empty pieces), exact, peek and flush calls, all fragmentations and would-block answers.",
     "The tests push 64 bytes through one buffer of 2048; wrap-around, partial flush and stacked buffers are not run.",
     ["src/lib/cio/base/hev-task-cio.c", "src/lib/cio/base/hev-task-cio.h", "src/lib/cio/buffer/hev-task-cio-buffer.c", "src/lib/cio/fd/hev-task-cio-fd.c", "src/lib/cio/socket/hev-task-cio-socket.c", "src/lib/cio/null/hev-task-cio-null.c"],
     [("forwarding of calls and error code to the next layer", "src/lib/cio/base/hev-task-cio.h"), ("read/write circular buffers and flush", "src/lib/cio/buffer/hev-task-cio-buffer.c")],
     ["byte streams at both ends", "return values and error codes", "deadlock"])

prop("C22", "Splicing two chains forwards every byte, flushed, in both directions",
     "While two I/O chains are spliced, each byte available on one is forwarded to the other exactly once and in order, and is pushed out of the receiving chain's buffers without waiting for more input, as soon as the receiving side accepts it. "
     "When one chain ends, everything it delivered before the end has been forwarded and flushed before splicing returns; a yielder can stop it, and splicing leaves both chains usable and releases what it allocated.",
     ["schedules", "inputs", "fault_sequences"],
     "All pairs of chains (plain descriptors, sockets, buffered, stacked), sizes, fragmentations, would-block answers and orders of ending.",
     "The test splices one small message with ample socket buffers; the flush retry after a full output is not run.",
     ["src/lib/cio/base/hev-task-cio.c", "src/lib/cio/buffer/hev-task-cio-buffer.c"],
     [("forward loop with circular buffer and flush after write", "src/lib/cio/base/hev-task-cio.c")],
     ["byte streams at the outer ends", "deadlock with bytes outstanding"])

prop("C23", "Objects die exactly once at the last unref, with all they own",
     "An object (plain, atomic, or I/O layer) is destructed exactly once, exactly when its reference count drops to zero, and never while a reference is held; the atomic kind keeps this when references are taken and dropped concurrently by several threads, with all of their earlier accesses visible to the destructor. "
     "Destructing a chain drops the reference it holds on the next layer, popping returns the next layer intact, and every descriptor owned by a layer is closed exactly once when the layer dies and not before.",
     ["histories", "schedules"],
     "All sequences of ref, unref, push and pop over any chains and any number of threads.",
     "The tests build a chain and drop it once from one thread.",
     ["src/lib/object/hev-object.c", "src/lib/object/hev-object-atomic.c", "src/lib/cio/base/hev-task-cio.c", "src/lib/cio/base/hev-task-cio.h", "src/lib/cio/fd/hev-task-cio-fd.c", "src/lib/cio/socket/hev-task-cio-socket.c", "src/lib/cio/buffer/hev-task-cio-buffer.c"],
     [("reference counts", "src/lib/object/hev-object.c"), ("atomic reference count", "src/lib/object/hev-object-atomic.c")],
     ["destructor calls", "close calls", "ThreadSanitizer reports"])

prop("C24", "Name lookups give each caller its own answer without stopping other tasks",
     "A name lookup from a task returns exactly what the system resolver returns for those arguments (result, error code and error number), to the task that asked, for any number of tasks and threads looking up at the same time, including each thread's first lookup. "
     "While a lookup is in progress the thread's other tasks keep running, and finishing the task system right after lookups is safe.",
     ["schedules", "histories", "inputs"],
     "All interleavings of lookups from several tasks and threads, resolver delays and failures, wake-ups of the waiting task, and init/fini cycles.",
     "The test makes one lookup of each kind from one thread; mixed-up answers and start-up races need concurrency.",
     ["src/lib/dns/hev-task-dns.c", "src/lib/dns/hev-task-dns-proxy.c", "src/kern/aide/hev-task-aide.c"],
     [("request handed over a socket pair to a helper thread, one at a time per thread", "src/lib/dns/hev-task-dns-proxy.c"), ("one-time start of the helper thread", "src/kern/aide/hev-task-aide.c")],
     ["answers tagged per request by a stand-in resolver", "progress of other tasks", "sanitizer reports"])

prop("C25", "Task systems in different threads are independent and race-free",
     "Any number of threads can each initialise, run and finish their own task system at the same time, using all facilities on their own tasks and objects, without any data race on shared memory and with the results they would have alone. "
     "A thread's tasks, timers, memory and descriptors are never affected by another thread's task system starting, running or finishing.",
     ["schedules", "configurations"],
     "All timings of threads starting, running every facility and finishing, including concurrent first use of each facility.",
     "All tests but one are single-threaded; races on first use show only under particular timings.",
     ["src/kern/core/hev-task-system.c", "src/mem/base/hev-memory-allocator.c", "src/kern/task/hev-task-stack-mmap.c", "src/lib/object/hev-object.c", "src/lib/cio/base/hev-task-cio.c", "src/kern/aide/hev-task-aide.c"],
     [("per-thread context and default allocator in thread-specific data", "src/kern/core/hev-task-system.c"), ("one-time initialisation", "src/kern/core/hev-task-system.c")],
     ["ThreadSanitizer reports", "per-thread results against a single-threaded run"])

prop("C26", "Valid programs cause no memory error and end with everything released",
     "No valid use of the library, in any history and mix of facilities, reads or writes freed, unallocated or out-of-bounds memory or executes undefined arithmetic, and none crashes or aborts. "
     "After all tasks have ended, the objects were dropped and the task system was finished, all memory, stack mappings and descriptors the library obtained have been given back, however often init, run and fini are repeated.",
     ["histories", "inputs", "schedules"],
     "All valid programs combining tasks, timers, descriptors, mutexes, conditions, channels, selectors, buffers, chains and calls.",
     "Tests exercise facilities one at a time without sanitizers or leak accounting.",
     ["src"],
     [("ownership and release paths of every facility", "src"), ("fini releases timer, reactor, detector, allocator", "src/kern/core/hev-task-system.c")],
     ["AddressSanitizer, UBSan, leak checks", "descriptor and mapping counts after fini"])

prop("C27", "A failed system call or allocation is reported and leaves no trace",
     "If a memory allocation, mapping or system call fails while the system is initialised or a task, channel, selector, buffer, I/O layer, call stack, splice or lookup is set up, the call reports failure in its documented way (a null pointer, a negative value, or for splice a return without transfer) instead of crashing. "
     "After the failure nothing is leaked, existing objects still work, and the same call succeeds once resources are available again. "
     "Initialising again in a thread that already has a task system is refused and leaves that system as it was.",
     ["fault_sequences", "crash_points"],
     "Each single failing allocation, mapping, descriptor or registration call in each set-up operation (a second initialisation included), and random multiple failures.",
     "No test makes any system call or allocation fail.",
     ["src/kern/core/hev-task-system.c", TASK, "src/kern/itc/hev-task-channel.c", "src/lib/io/basic/hev-task-io.c", "src/kern/task/hev-task-stack-mmap.c", "src/kern/task/hev-task-stack-heap.c", "src/kern/io/hev-task-io-reactor.c", "src/kern/time/hev-task-timer-timerfd.c", "src/lib/dns/hev-task-dns-proxy.c"],
     [("error paths releasing what was acquired", "src/kern/core/hev-task-system.c")],
     ["result of the call under each injected failure", "allocations, mappings and descriptors after it", "retry result"])

prop("C28", "Each task has its whole requested stack, and overflowing it is caught",
     "A task can use the stack size it was created with, properly aligned on entry, while any other tasks' stacks are unaffected. "
     "A task whose stack use grows past the end of its stack never silently overwrites other memory: the process reports a stack overflow naming the task and dies by a signal, in any thread that runs a task system and however many task systems were initialised or finished before.",
     ["inputs", "schedules", "histories"],
     "All stack sizes, depths of use up to and beyond the size, numbers of tasks, and threads (default mapped-stack configuration).",
     "No test uses a stack deeply or overflows one.",
     ["src/kern/task/hev-task-stack-mmap.c", "src/lib/misc/hev-task-stack-detector.c", "src/kern/task/hev-task-execute.S", TASK],
     [("guard page below the stack", "src/kern/task/hev-task-stack-mmap.c"), ("signal handler on an alternate stack that looks for the overflowing task", "src/lib/misc/hev-task-stack-detector.c")],
     ["canaries at the far end of the stack", "alignment at entry", "exit signal and message of an overflowing child process"])

prop("C29", "A call on a separate stack behaves like an ordinary call",
     "A call through a call object runs the given function exactly once on the call's own stack of the requested size (less a few words of bookkeeping), hands back the value it set, and returns to the caller with the caller's locals and registers intact, any number of times and nested. "
     "The function may suspend and resume the calling task like any other code, and different tasks' calls do not interfere.",
     ["schedules", "inputs"],
     "All stack sizes and sequences of calls, nesting and suspensions inside calls over any number of tasks.",
     "The test makes two calls that do not suspend or use the stack.",
     ["src/kern/task/hev-task-call.c", "src/kern/task/hev-task-execute.S"],
     [("switch to the call's stack and back", "src/kern/task/hev-task-execute.S")],
     ["return values, canaries in caller and callee, stack addresses inside the call object"])

prop("C30", "Waiting costs nothing: the system never spins",
     "While every task waits and nothing they wait for happens, the process sleeps in the kernel: no task is run and no processor time is used until a registered event, a timer or a wake-up. "
     "A task inside a waiting library call (I/O, accept, connect, poll, select, splice, lookup, lock, condition, channel, join, sleep) is run again only a bounded number of times for each event, transfer or wake-up, whatever the back-pressure or half-closed state of the streams.",
     ["histories", "configurations"],
     "All sets of waiting tasks over every waiting call and every stuck state of the streams they wait for.",
     "A busy loop gives the right results; no test looks at processor time.",
     ["src/kern/core/hev-task-system-schedule.c", "src/lib/io/basic/hev-task-io.c", "src/lib/cio/base/hev-task-cio.c", "src/lib/io/poll/hev-task-io-poll.c", "src/kern/aide/hev-task-aide.c"],
     [("blocking wait when no task is runnable", "src/kern/core/hev-task-system-schedule.c"), ("edge-triggered registration", "src/kern/io/hev-task-io-reactor-epoll.h"), ("splice yields only after progress", "src/lib/io/basic/hev-task-io.c")],
     ["processor time, returns from the kernel's wait and voluntary switches of a process whose tasks all wait"])

prop("C31", "The program's own fault handling keeps working",
     "While task systems exist in any threads, a memory fault that is not the overflow of a task's stack is passed, once and with its signal, address and context, to the fault handler the program had installed before, in every task and in every thread with or without a task system, so that a program that repairs faults carries on. "
     "Once the task systems are finished, the program's fault handlers and each thread's alternate signal stack are what they were before. "
     "Such a fault is not reported as a stack overflow, and a handler that runs on the alternate signal stack always has at least the room of the one its thread had set up.",
     ["histories", "schedules", "inputs"],
     "All histories of task systems started and finished in any threads, and faults at any moment in tasks, beside them and in threads without a task system.",
     "No test installs a handler or causes a fault.",
     ["src/lib/misc/hev-task-stack-detector.c", "src/kern/core/hev-task-system.c"],
     [("handlers shared by all threads, with those that were installed before", "src/lib/misc/hev-task-stack-detector.c")],
     ["calls of the program's handler per fault", "handlers and signal stacks before and after"])

prop("C32", "Signals the program handles never disturb its tasks",
     "While task systems run in any threads, a signal that the program handles may arrive at any moment (while tasks run, during the library's calls, or while every task waits) and in any thread, including one that is looking up names for others. "
     "It is handled when it arrives, and the tasks go on as if it had not come: no wait, sleep, transfer or lookup ends early, fails or is lost, no task is woken by it and the process does not die (a poll may report the interruption, like poll itself). "
     "The library never changes the signal mask of a thread or the handlers of signals other than memory faults.",
     ["histories", "schedules", "faults"],
     "All programs that handle signals with restarting handlers, and all moments and threads at which the signals arrive.",
     "No test receives a signal; an interrupted wait in the kernel is a window of the scheduler's and the helper thread's loops that a test never hits.",
     ["src/kern/core/hev-task-system-schedule.c", "src/kern/aide/hev-task-aide.c", "src/kern/io/hev-task-io-reactor-epoll.h", "src/lib/dns/hev-task-dns-proxy.c"],
     [("the wait for events and what follows when it is interrupted", "src/kern/core/hev-task-system-schedule.c")],
     ["the oracles of the other properties, while waits are interrupted and signals arrive", "signals sent and handled", "signal mask and handlers after each case"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
