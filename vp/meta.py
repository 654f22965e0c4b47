"""What counts as a case, what has to be observed, what is taken for granted."""

A = "one evaluation is one generated program run to its end under the monitors; "
B = "; distinct cases differ in the hash of the observed event sequence"

VT = "time is a virtual clock that advances only when every task waits"
ONE = "one thread runs the task system (several threads are the subject of C25)"

META = {
    "C01": (A + "non-trivial: tasks were started, suspended and ended in an interleaving" + B,
            ["task starts", "task ends", "ends by exit", "runs of active tasks", "references dropped",
             "runs again in a later round", "state observations", "wake-ups of waiting tasks"],
            [VT, ONE]),
    "C02": (A + "non-trivial: more than ten switches between tasks whose frames and registers were compared" + B,
            ["register sets compared", "frames compared", "task switches", "calls that must not switch",
             "tasks started by tasks", "tasks woken without a switch", "ended tasks joined"],
            [ONE, "the floating-point environment and errno are not part of the saved context"]),
    "C03": (A + "non-trivial: waits and wake-ups occurred" + B,
            ["waits ended", "wake-ups of waiting tasks", "wake-ups of runnable tasks", "sleeps ended"],
            [VT, ONE, "a task that ended is not woken (the library aborts)"]),
    "C04": (A + "non-trivial: turns of runnable tasks were counted against each other's bound" + B,
            ["fairness bound evaluated", "queue order evaluated", "wake-ups of waiting tasks", "yields",
             "waits ended by a descriptor", "sleeps ended"],
            [VT, ONE, "default configuration without a scheduling clock"]),
    "C05": (A + "non-trivial: more than two sleeps" + B,
            ["complete sleeps", "interrupted sleeps", "deadlines checked at idle", "clock jumps", "early wakes",
             "busy turns past a deadline", "sleeps on the real clock"],
            [VT + " (a part of the cases uses the real clock, with lower bounds only)", ONE]),
    "C06": (A + "non-trivial: tasks waited and descriptors became ready" + B,
            ["readiness edges", "error or hang-up edges", "wake-ups observed", "idle points checked", "changes",
             "removes", "descriptors closed", "registration errors", "due wake-ups checked", "busy turns",
             "descriptors fired in bursts", "edges with rare events"],
            [VT, ONE, "descriptors are sockets and pipes; what they report is asked from the kernel by poll"]),
    "C07": (A + "non-trivial: at least two locks were contended" + B,
            ["contended locks", "failed try-locks", "successful try-locks", "unrelated wakes", "idle points checked"],
            [VT, ONE]),
    "C08": (A + "non-trivial: at least two waits" + B,
            ["released waits", "timed out waits", "signals with waiters", "broadcasts with waiters",
             "signals without waiters", "unrelated wakes", "contended locks"],
            [VT, ONE]),
    "C09": (A + "non-trivial: more than three datagrams and a blocked task" + B,
            ["reads that waited", "writes that waited", "reads at once", "writes at once", "unrelated wakes"],
            [VT, ONE, "one task per end, as documented"]),
    "C10": (A + "non-trivial: more than two ends were destroyed" + B,
            ["destructions under a blocked peer", "reads interrupted by destruction",
             "writes interrupted by destruction", "reads of a destroyed peer", "writes to a destroyed peer"],
            [VT, ONE, "one task per end, as documented"]),
    "C11": (A + "non-trivial: more than two selects and a blocked task" + B,
            ["selects at once", "selects that waited", "selects timed out", "selects on an empty selector",
             "channels removed", "unrelated wakes", "destructions"],
            [VT, ONE, "the task that adds channels selects; write selects only over buffered channels"]),
    "C12": (A + "non-trivial: a join waited and completed" + B,
            ["joins completed", "joins of ended tasks", "joins refused", "ends by exit",
             "runs again in a later round"],
            [VT, ONE]),
    "C13": (A + "non-trivial: every case; blocks are filled with patterns of their own and verified at every step" + B,
            ["blocks verified", "blocks checked", "resizes", "zeroed blocks", "failures injected",
             "impossible requests"],
            ["null pointers are not resized or freed"]),
    "C14": (A + "non-trivial: more than a hundred blocks were cached at a time" + B,
            ["cache sizes checked", "blocks reused", "blocks reused at once", "big blocks freed",
             "cases that filled the cache"],
            ["default limits: 1000 blocks, 4096 bytes"]),
    "C15": (A + "non-trivial: every case; all regions are compared with a byte queue after each step" + B,
            ["states with wrapped data", "states with wrapped room", "full states", "empty states",
             "consumes between offer and commit", "impossible capacities"],
            ["capacity at least 1"]),
    "C16": (A + "non-trivial: every case; each call is compared with the system call it made and the stream model" + B,
            ["read", "readv", "write", "writev", "would-block answers", "ends of stream",
             "errors from the operating system", "yielder stops", "accepted connections", "connections made",
             "refused connections", "unrelated wake-ups", "streams compared to the end"],
            [VT, ONE, "the vector has at least one piece"]),
    "C17": (A + "non-trivial: every case; each call is compared with the system calls it made and the stream model" + B,
            ["complete wait-all transfers", "partial wait-all transfers", "wait-all transfers in several parts",
             "control buffers inspected", "sends with ancillary data", "datagrams compared", "message receives",
             "would-block answers", "yielder stops", "empty pieces"],
            [VT, ONE]),
    "C18": (A + "non-trivial: every case; each byte at an output is compared with the byte supplied" + B,
            ["bytes delivered", "inputs ended", "outputs broken", "yielder stops", "splices to the end",
             "idle points checked", "unrelated wake-ups"],
            [VT, ONE, "buffer size at least 1"]),
    "C19": (A + "non-trivial: every case; each descriptor is compared with the one of the plain system call" + B,
            ["descriptors compared", "failures compared", "accepts compared", "failing steps",
             "failing steps of accept", "dup2"],
            ["files are made in a scratch directory"]),
    "C20": (A + "non-trivial: every case; each result is compared with poll at that moment" + B,
            ["ready after waiting", "ready at once", "time-outs", "immediate polls, none ready",
             "unrelated wake-ups", "idle points checked", "errors at once", "errors after waiting",
             "half-closed peers reported"],
            [VT, ONE]),
    "C21": (A + "non-trivial: every case; each call on the chain is compared with models of both streams" + B,
            ["bytes in", "bytes out", "flushes", "peeks", "ends of file", "lasting read errors",
             "lasting write errors", "passing errors", "datagrams in", "datagrams out", "null reads",
             "reads from null", "writes to null", "calls without a bottom layer",
             "yielder stops", "idle points checked"],
            [VT, ONE, "an error after a part of a vector was moved may be reported by the next call"]),
    "C22": (A + "non-trivial: every case; each byte at an output is compared with the byte supplied" + B,
            ["bytes delivered", "inputs ended", "outputs broken", "yielder stops", "splices to the end",
             "chains used after splicing", "idle points checked"],
            [VT, ONE, "buffer size at least 1"]),
    "C23": (A + "non-trivial: every case with objects, or (threads) a case in which the threads alternated" + B,
            ["objects made", "objects died", "pops", "pushes", "references taken", "references dropped",
             "references taken and dropped", "words read by destructors", "switches between threads"],
            ["a layer is not pushed over one that already has a next layer"]),
    "C24": (A + "non-trivial: every case; each answer is compared with what the resolver returned for the question" + B,
            ["lookups", "answers passed on", "failures passed on", "concurrent first lookups",
             "steps of other tasks during lookups", "spurious wake-ups", "cycles",
             "lookups by the system's resolver"],
            ["the resolver is a stand-in with controlled delays and answers, except in the cases that use the "
             "system's resolver on numeric names (no network)"]),
    "C25": (A + "one process per case, so that every facility is used for the first time; non-trivial: the threads "
            "alternated; distinct cases differ in the observed order of threads",
            ["switches between threads", "cycles", "ran: lookups", "ran: sleeping", "ran: streams",
             "ran: memory", "ran: chains", "references taken and dropped"],
            ["races are decided by ThreadSanitizer, built with the library's context switches made known to it",
             "failures that also occur with one thread are left to the other checks"]),
    "C26": (A + "non-trivial: programs of at least two kinds ran together" + B,
            ["found everything released", "injected would-blocks and short transfers", "ran: sleeping",
             "ran: lookups", "ran: streams", "ran: chains", "ran: splicing", "ran: selector", "ran: calls"],
            ["only memory errors, undefined behaviour, crashes and leaks count here; a program that computes "
             "something wrong is left to the other checks"]),
    "C27": ("one evaluation is one set-up operation, done once without failures to count its fallible calls, then "
            "once for each of them failing, then four times with random failures; non-trivial: a call failed; "
            "distinct cases differ in the operation and the calls that failed",
            ["single failures", "several random failures", "reported a failure", "used what existed before",
             "failures during a first lookup", "another init refused"],
            ["failures are injected at the libc boundary; undoing a signal set-up does not fail, too"]),
    "C28": (A + "non-trivial: every case" + B,
            ["stack bytes used", "overflow reports", "overflowing processes", "suspensions", "overflows after other faults", "overflows with a signal stack of the program"],
            ["mapped stacks; the overflow grows downwards page by page, as compiled code does"]),
    "C31": (A + "non-trivial: some fault was passed on" + B,
            ["faults in tasks passed on", "faults beside tasks passed on", "faults in other threads passed on",
             "handlers found restored", "handlers that used a large stack"],
            ["the handlers are installed before the first task system and not changed while one lives"]),
    "C32": (A + "non-trivial: a signal was handled in it" + B,
            ["waits interrupted", "signals handled around calls", "signals at any moment"],
            ["handlers return and preserve errno, as handlers have to; they use no function of the library",
             "a case that fails in the same way without signals is left to the other checks"]),
    "C29": (A + "non-trivial: every case" + B,
            ["calls completed", "register sets compared", "suspensions", "task switches"],
            [ONE]),
    "C30": (A + "non-trivial: every case; processor time, kernel waits and switches of a process whose tasks all wait "
            "are measured; distinct cases differ in what the tasks wait in",
            ["tasks waiting", "microseconds watched"] +
            ["waiting in: " + x for x in
             ("read", "write", "accept", "splice", "chain splice", "poll", "select", "condition", "lookup",
              "sleep", "join", "wait-all send", "wait-all receive", "channel read", "channel write",
              "wait after a hang-up", "wait with unread data", "connect", "wait after a lookup")],
            ["real time; only upper bounds that a loaded machine makes easier to meet"]),
}
