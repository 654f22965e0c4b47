/* Tasks: lifecycle, wake-ups, scheduling order and fairness, joins.
 *
 * A random program is executed by the tasks themselves; every API call is
 * mirrored in a model, and the oracles compare what the tasks observe with it.
 */
#include "vp.h"
#include <hev-task-system.h>
#include <hev-task.h>
#include <hev-memory-allocator.h>

#define MAXT 130
#define NGROUP 64

enum
{
    STOPPED,
    RUNNABLE,
    WAITING
};

enum
{
    OP_YIELD,
    OP_WAIT,
    OP_WAKE,
    OP_WAKE_MANY,
    OP_NEW,
    OP_RUN,
    OP_RERUN_ACTIVE,
    OP_REF,
    OP_UNREF,
    OP_PRIO,
    OP_STATE,
    OP_EXIT,
    OP_SLEEP,
    OP_JOIN,
    OP_JOIN_ENDED,
    OP_CALL,
    OP_FD,
    OP_MAX
};

typedef struct
{
    HevTask *h;
    int used;
    int refs; /* held by the harness, not counting the system's own */
    int st;
    int fdwait;    /* suspended until its pipe has data */
    int sleeping;  /* suspended in a call that may end by its timer */
    int fuzzy;     /* state not exactly known (timer or descriptor) */
    int woken;
    int uncertain_order; /* priority changed since queued */
    int prio, pmin, pmax; /* range in force since the turn before last */
    int nmin, nmax; /* range set since the last turn */
    int joiner; /* index+1 of the task currently joining it */
    int joining;
    int quota;
    int keeper;
    uint64_t runs, entries, ends;
    uint64_t token[4], *data; /* what it may get, what it was given */
    int alt; /* which entry it was given */
    int group; /* slice in which it became runnable, -1 none */
    int gprio;
    uint64_t gseq;
    uint32_t cnt[MAXT]; /* turns others got since it was queued */
    int qmin[MAXT];     /* and the smallest priority value they had */
    int pipe[2];
} T;

typedef struct
{
    int ntasks;
    int quota;
    int rounds;
    int w[OP_MAX];
    int fair;     /* fairness and order oracles on */
    int strict;   /* a wait resumes only when woken */
    int keeper_sleeps;
    int rt;       /* priority 0 allowed */
    int max_tasks;
} Cfg;

static T ts[MAXT];
static Cfg cfg;
static int cur; /* index of the task owning the processor, -1 none */
static uint64_t turn_no, seq_no;
static int active; /* tasks started and not ended */
static int slice_id;
static uint64_t n_switch;
static int starts_left;

static void entry (void *data);
static void entry_alt (void *data);

static int
alloc_slot (void)
{
    int i;
    for (i = 0; i < cfg.max_tasks; i++)
        if (!ts[i].used)
            return i;
    return -1;
}

static int
new_task (int prio)
{
    static const int sizes[] = { 0, 1, 4096, 8192, 16384, 20000, 40000, -1 };
    int i = alloc_slot (), sz;
    T *t;

    if (i < 0)
        return -1;
    t = &ts[i];
    memset (t, 0, sizeof (*t));
    sz = sizes[vp_range (ARRAY_LEN (sizes))];
    if (sz >= 0)
        sz += 64 * 1024;
    t->h = hev_task_new (sz);
    VP_CHECK (t->h, "create", "hev_task_new(%d) failed", sz);
    t->used = 1;
    t->refs = 1;
    t->st = STOPPED;
    t->pipe[0] = t->pipe[1] = -1;
    t->group = -1;
    t->prio = HEV_TASK_PRIORITY_DEFAULT;
    VP_CHECK (hev_task_get_priority (t->h) == HEV_TASK_PRIORITY_DEFAULT,
              "priority", "new task has priority %d",
              hev_task_get_priority (t->h));
    VP_CHECK (hev_task_get_state (t->h) == HEV_TASK_STOPPED, "state",
              "new task is not stopped");
    if (prio >= 0) {
        hev_task_set_priority (t->h, prio);
        t->prio = prio;
    }
    vp_ev ("tasks created");
    return i;
}

/* u just became runnable */
static void
queued (int u)
{
    T *t = &ts[u];
    memset (t->cnt, 0, sizeof (t->cnt));
    t->group = slice_id;
    t->gseq = ++seq_no;
    t->uncertain_order = 0;
}

static void
start_task (int u)
{
    T *t = &ts[u];

    t->runs++;
    starts_left--;
    t->data = &t->token[vp_range (ARRAY_LEN (t->token))];
    t->alt = vp_chance (30);
    t->st = RUNNABLE;
    t->fuzzy = t->sleeping = t->woken = 0;
    t->refs--; /* handed to the system */
    t->quota = 1 + vp_range (cfg.quota);
    t->pmin = t->pmax = t->nmin = t->nmax = t->prio;
    t->gprio = t->prio;
    queued (u);
    active++;
    vp_ev ("task starts");
    hev_task_run (t->h, t->alt ? entry_alt : entry, t->data);
}

/* checks and bookkeeping when a task gets the processor */
static void
on_turn (int me)
{
    T *t = &ts[me];
    int i;

    VP_CHECK (cur == -1, "overlap", "task %d resumed while %d holds the thread",
              me, cur);
    cur = me;
    turn_no++;
    n_switch++;
    slice_id++;
    vp_mix (me * 31 + 7);
    VP_CHECK (hev_task_self () == t->h, "self", "hev_task_self() is not task %d",
              me);
    if (cfg.fair) {
        for (i = 0; i < cfg.max_tasks; i++) {
            T *o = &ts[i];
            int bound;
            if (i == me || !o->used || o->st != RUNNABLE || o->fuzzy)
                continue;
            if (!o->cnt[me] || t->pmin < o->qmin[me])
                o->qmin[me] = t->pmin;
            o->cnt[me]++;
            if (o->qmin[me] < 1)
                continue;
            bound = (o->pmax + o->qmin[me] - 1) / o->qmin[me];
            if (bound < 1)
                bound = 1;
            VP_CHECK ((int)o->cnt[me] <= bound, "starved",
                      "task %d (priority %d) waits while task %d (priority %d) "
                      "got %u turns, allowed %d",
                      i, o->pmax, me, o->qmin[me], o->cnt[me], bound);
            vp_ev ("fairness bound evaluated");
            /* order among tasks made runnable in the same slice */
            if (o->group >= 0 && o->group == t->group && !o->uncertain_order &&
                !t->uncertain_order) {
                int before = o->gprio < t->gprio ||
                             (o->gprio == t->gprio && o->gseq < t->gseq);
                VP_CHECK (!before, "order",
                          "task %d (priority %d, queued #%lu) ran before task "
                          "%d (priority %d, queued #%lu)",
                          me, t->gprio, (unsigned long)t->gseq, i, o->gprio,
                          (unsigned long)o->gseq);
                vp_ev ("queue order evaluated");
            }
        }
    }
    t->group = -1;
    /* changes of priority made before the last turn have taken effect */
    t->pmin = t->nmin;
    t->pmax = t->nmax;
    t->nmin = t->nmax = t->prio;
    t->fuzzy = 0;
}

static void
leave (int me, int st)
{
    VP_CHECK (cur == me, "overlap",
              "task %d runs while the model says task %d does", me, cur);
    slice_id++;
    ts[me].st = st;
    ts[me].woken = 0;
    if (st == WAITING && ts[me].pipe[0] >= 0)
        ts[me].fuzzy = 1; /* an event may be on its way */
    ts[me].gprio = ts[me].prio;
    if (st == RUNNABLE) {
        queued (me);
        ts[me].group = -1;
    }
    cur = -1;
}

static void
do_yield (int me)
{
    leave (me, RUNNABLE);
    vp_mix (1);
    hev_task_yield (HEV_TASK_YIELD);
    on_turn (me);
    vp_ev ("yields");
}

static void
do_wait (int me)
{
    T *t = &ts[me];

    leave (me, WAITING);
    vp_mix (2);
    hev_task_yield (HEV_TASK_WAITIO);
    on_turn (me);
    if (cfg.strict)
        VP_CHECK (t->woken, "spurious",
                  "task %d resumed from a wait although nothing woke it", me);
    VP_CHECK (t->st == RUNNABLE || !cfg.strict, "spurious", "task %d state", me);
    t->st = RUNNABLE;
    vp_ev ("waits ended");
    vp_scribble ();
}

static void
model_wake (int u)
{
    T *t = &ts[u];

    if (t->st == WAITING) {
        t->st = RUNNABLE;
        t->woken++;
        queued (u);
        if (t->fuzzy) {
            /* may have been queued earlier by its timer */
            t->group = -1;
        } else {
            vp_ev ("wake-ups of waiting tasks");
        }
        if (t->uncertain_order)
            t->group = -1;
    } else {
        vp_ev ("wake-ups of runnable tasks");
    }
}

static void
do_wake (int me, int u)
{
    uint64_t n = n_switch;

    vp_mix (3 + u * 64);
    if (ts[u].fdwait && vp_chance (80)) {
        if (write (ts[u].pipe[1], "x", 1) != 1)
            VP_HARNESS (errno == EAGAIN);
        return;
    }
    model_wake (u);
    hev_task_wakeup (ts[u].h);
    VP_CHECK (n == n_switch && cur == me, "involuntary",
              "waking a task switched tasks");
}

static void
do_sleep (int me)
{
    T *t = &ts[me];
    unsigned us = 1 + vp_range (vp_chance (50) ? 50 : 5000), left;

    leave (me, WAITING);
    t->fuzzy = t->sleeping = 1;
    vp_mix (4);
    left = hev_task_usleep (us);
    on_turn (me);
    VP_CHECK (left == 0 || t->woken || !cfg.strict, "spurious",
              "usleep(%u) of task %d ended early (%u left), nothing woke it",
              us, me, left);
    t->sleeping = 0;
    t->st = RUNNABLE;
    vp_ev ("sleeps ended");
    vp_scribble ();
}

/* waits for a byte that another task writes */
static void
do_fd (int me)
{
    T *t = &ts[me];
    char b[64];
    ssize_t n;

    if (t->pipe[0] < 0) {
        vp_pipe (t->pipe);
        vp_nonblock (t->pipe[0]);
        vp_nonblock (t->pipe[1]);
        VP_CHECK (hev_task_add_fd (t->h, t->pipe[0], POLLIN) == 0, "add-fd",
                  "a descriptor cannot be registered");
    }
    t->fdwait = 1;
    leave (me, WAITING);
    vp_mix (8);
    hev_task_yield (HEV_TASK_WAITIO);
    on_turn (me);
    t->fdwait = 0;
    t->st = RUNNABLE;
    n = read (t->pipe[0], b, sizeof (b));
    if (n > 0)
        vp_ev ("waits ended by a descriptor");
}

static int
pick (int (*pred) (int))
{
    int c[MAXT], n = 0, i;

    for (i = 0; i < cfg.max_tasks; i++)
        if (ts[i].used && pred (i))
            c[n++] = i;
    return n ? c[vp_range (n)] : -1;
}

static int
is_waiting (int i)
{
    return ts[i].st == WAITING;
}

static int
is_active (int i)
{
    return ts[i].st != STOPPED;
}

static int
is_startable (int i)
{
    return ts[i].st == STOPPED && ts[i].refs > 0 && !ts[i].keeper &&
           !ts[i].joiner &&
           starts_left > 0;
}

static int
is_owned (int i)
{
    return ts[i].refs > 0;
}

static int
is_any (int i)
{
    (void)i;
    return 1;
}

static void
check_state (int u)
{
    T *t = &ts[u];
    HevTaskState s;

    /* a timer or a joiner may have woken it meanwhile */
    if (t->fuzzy || t->joiner)
        return;
    s = hev_task_get_state (t->h);
    VP_CHECK ((t->st == STOPPED && s == HEV_TASK_STOPPED) ||
                  (t->st == RUNNABLE && s == HEV_TASK_RUNNING) ||
                  (t->st == WAITING && s == HEV_TASK_WAITING),
              "state", "task %d reports state %d, model %d", u, s, t->st);
    VP_CHECK (hev_task_get_priority (t->h) == t->prio, "priority",
              "task %d reports priority %d, expected %d", u,
              hev_task_get_priority (t->h), t->prio);
    if (t->runs)
        VP_CHECK (hev_task_get_data (t->h) == t->data, "data",
                  "task %d reports other data", u);
    vp_ev ("state observations");
}

static void
ended (int me)
{
    T *t = &ts[me];

    t->ends++;
    t->st = STOPPED;
    t->fuzzy = 0;
    active--;
    cur = -1;
    slice_id++;
    vp_mix (9);
    vp_ev ("task ends");
    if (t->pipe[0] >= 0) {
        close (t->pipe[0]);
        close (t->pipe[1]);
        t->pipe[0] = t->pipe[1] = -1;
    }
    if (!t->refs)
        t->used = 0;
}

static void
do_join (int me, int u)
{
    T *t = &ts[u];
    uint64_t ends = t->ends, n;
    int res, st = t->st, busy = t->joiner;

    vp_mix (5 + u * 64 + st * 3 + !!busy);
    if (st == STOPPED || busy) {
        n = n_switch;
        res = hev_task_join (t->h);
        VP_CHECK (n == n_switch && cur == me, "join-blocked",
                  "join that needs no waiting switched tasks");
        if (busy && st == STOPPED) {
            /* ended, its joiner not resumed yet: either answer is right */
            VP_CHECK (res == 0 || res == -1, "join-second", "join: %d", res);
        } else if (busy) {
            VP_CHECK (res == -1, "join-second",
                      "second join on a task returned %d", res);
            vp_ev ("joins refused");
        } else {
            VP_CHECK (res == 0, "join-ended",
                      "join on a task that is not running returned %d", res);
            vp_ev ("joins of ended tasks");
        }
        return;
    }
    t->refs++; /* keep it while joining */
    hev_task_ref (t->h);
    t->joiner = me + 1;
    ts[me].joining = 1;
    /* joining wakes the target (a permitted spurious wake) */
    model_wake (u);
    leave (me, WAITING);
    ts[me].fuzzy = 1;
    res = hev_task_join (t->h);
    on_turn (me);
    vp_scribble ();
    ts[me].joining = 0;
    ts[me].st = RUNNABLE;
    VP_CHECK (res == 0, "join-result", "join returned %d", res);
    VP_CHECK (t->ends != ends, "join-early",
              "join of task %d returned before it ended", u);
    vp_ev ("joins completed");
    vp_nontrivial ();
    if (t->joiner == me + 1)
        t->joiner = 0;
    t->refs--;
    hev_task_unref (t->h);
    if (t->st == STOPPED && !t->refs)
        t->used = 0;
}

static int
join_target (int i)
{
    /* no cycles: only join tasks with a higher index that are not joining */
    return i > cur && !ts[i].keeper && (ts[i].st != STOPPED || ts[i].refs > 0);
}

static int program (int me, int depth);

static int
choose (void)
{
    int i, sum = 0, x;

    for (i = 0; i < OP_MAX; i++)
        sum += cfg.w[i];
    x = vp_range (sum);
    for (i = 0; i < OP_MAX; i++) {
        x -= cfg.w[i];
        if (x < 0)
            return i;
    }
    return OP_YIELD;
}

/* one step; returns 1 when the task must exit without returning */
static int
step (int me, int depth)
{
    int op = choose (), u;
    T *t = &ts[me];

    switch (op) {
    case OP_YIELD:
        do_yield (me);
        break;
    case OP_WAIT:
        do_wait (me);
        break;
    case OP_WAKE:
        u = pick (vp_chance (80) ? is_waiting : is_active);
        if (u >= 0)
            do_wake (me, u);
        break;
    case OP_WAKE_MANY: {
        int n = vp_between (2, 6);
        while (n--) {
            u = pick (is_waiting);
            if (u < 0)
                break;
            do_wake (me, u);
            vp_nontrivial ();
        }
        break;
    }
    case OP_NEW:
        if (active < cfg.max_tasks - 2)
            new_task (vp_chance (30) ? -1 : vp_between (cfg.rt ? 0 : 1, 15));
        break;
    case OP_RUN:
        u = pick (is_startable);
        if (u >= 0) {
            uint64_t n = n_switch;
            if (vp_chance (40)) {
                hev_task_ref (ts[u].h);
                ts[u].refs++;
            }
            vp_mix (6 + u * 64);
            start_task (u);
            VP_CHECK (n == n_switch && cur == me, "involuntary",
                      "starting a task switched tasks");
        }
        break;
    case OP_RERUN_ACTIVE:
        u = pick (is_active);
        if (u >= 0) {
            static uint64_t other;
            /* has no effect on a task that is not stopped */
            hev_task_run (ts[u].h, entry, &other);
            check_state (u);
            vp_ev ("runs of active tasks");
        }
        break;
    case OP_REF:
        u = pick (is_any);
        if (u >= 0 && !ts[u].keeper && (ts[u].st != STOPPED || ts[u].refs)) {
            HevTask *r = hev_task_ref (ts[u].h);
            VP_CHECK (r == ts[u].h, "ref", "hev_task_ref returned another task");
            ts[u].refs++;
        }
        break;
    case OP_UNREF:
        u = pick (is_owned);
        if (u >= 0 && !ts[u].joiner) {
            ts[u].refs--;
            if (ts[u].st == STOPPED && !ts[u].refs)
                ts[u].used = 0;
            hev_task_unref (ts[u].h);
            vp_ev ("references dropped");
        }
        break;
    case OP_PRIO:
        u = vp_chance (50) ? me : pick (is_any);
        if (u >= 0) {
            int p = vp_between (cfg.rt && !ts[u].keeper ? 0 : 1, 15);
            int set = p;
            if (p == 15 && vp_chance (50))
                set = vp_chance (50) ? 16 : 1000 + vp_range (100000);
            if (p == 0 && vp_chance (50))
                set = -1 - (int)vp_range (1000);
            hev_task_set_priority (ts[u].h, set);
            ts[u].prio = p;
            if (p < ts[u].pmin)
                ts[u].pmin = p;
            if (p > ts[u].pmax)
                ts[u].pmax = p;
            if (p < ts[u].nmin)
                ts[u].nmin = p;
            if (p > ts[u].nmax)
                ts[u].nmax = p;
            ts[u].uncertain_order = 1;
            VP_CHECK (hev_task_get_priority (ts[u].h) == p, "priority",
                      "priority set to %d reads %d", set,
                      hev_task_get_priority (ts[u].h));
        }
        break;
    case OP_STATE:
        u = pick (is_any);
        if (u >= 0)
            check_state (u);
        VP_CHECK (hev_task_self () == t->h, "self", "self changed");
        break;
    case OP_EXIT:
        return 1;
    case OP_SLEEP:
        do_sleep (me);
        break;
    case OP_FD:
        do_fd (me);
        break;
    case OP_JOIN:
    case OP_JOIN_ENDED:
        u = pick (join_target);
        if (u >= 0 && u != me)
            do_join (me, u);
        break;
    case OP_CALL:
        if (depth < 6)
            return program (me, depth + 1);
        break;
    }
    return 0;
}

static int __attribute__ ((noinline))
program (int me, int depth)
{
    T *t = &ts[me];
    volatile uint64_t mark[8];
    uint64_t v = vp_hash64 (me, depth + t->runs * 100);
    int i, res = 0;

    for (i = 0; i < 8; i++)
        mark[i] = v + i;
    while (t->quota > 0) {
        t->quota--;
        res = step (me, depth);
        VP_CHECK (cur == me, "overlap", "task %d lost the thread to %d", me,
                  cur);
        if (res || (depth && vp_chance (25)))
            break;
    }
    for (i = 0; i < 8; i++)
        VP_CHECK (mark[i] == v + i, "context", "locals of task %d changed", me);
    return res;
}

static void
keeper_program (int me)
{
    while (active > 1) {
        int u;

        if (cfg.keeper_sleeps && vp_chance (50))
            do_sleep (me);
        else
            do_yield (me);
        if (vp_chance (60)) {
            u = pick (is_waiting);
            if (u >= 0 && u != me)
                do_wake (me, u);
        }
        if (vp_chance (10)) {
            u = pick (is_any);
            if (u >= 0)
                check_state (u);
        }
    }
}

static void
run_entry (void *data, int alt)
{
    int me;
    T *t;

    for (me = 0; me < MAXT; me++)
        if ((uint64_t *)data >= ts[me].token &&
            (uint64_t *)data < ts[me].token + ARRAY_LEN (ts[me].token))
            break;
    VP_CHECK (me < MAXT, "data", "entry called with unknown data %p", data);
    t = &ts[me];
    VP_CHECK (data == t->data, "data", "task %d: entry called with other data",
              me);
    VP_CHECK (alt == t->alt, "entry", "task %d: another entry was called", me);
    VP_CHECK (t->used, "entry", "entry of a task that does not exist (%d)", me);
    t->entries++;
    VP_CHECK (t->entries == t->runs, "entry-count",
              "task %d: entry called %lu times for %lu runs", me,
              (unsigned long)t->entries, (unsigned long)t->runs);
    VP_CHECK (((uintptr_t)__builtin_frame_address (0) & 15) == 0, "alignment",
              "stack of task %d not aligned", me);
    on_turn (me);
    t->st = RUNNABLE;
    if (t->keeper) {
        keeper_program (me);
        ended (me);
        return;
    }
    if (program (me, 0)) {
        vp_ev ("ends by exit");
        ended (me);
        hev_task_exit ();
        vp_fail ("exit", "hev_task_exit returned");
    }
    ended (me);
}

static void
entry (void *data)
{
    run_entry (data, 0);
}

static void
entry_alt (void *data)
{
    run_entry (data, 1);
}

static void
dead (void)
{
    int i;

    for (i = 0; i < cfg.max_tasks; i++)
        if (ts[i].used && ts[i].st != STOPPED)
            printf ("task %d: prio %d real %d keeper %d state %d woken %d joining %d fuzzy %d\n", i, ts[i].prio, hev_task_get_state(ts[i].h), ts[i].keeper,
                    ts[i].st, ts[i].woken, ts[i].joining, ts[i].fuzzy);
    printf ("active %d cur %d switches %lu now %lu\n", active, cur, (unsigned long)n_switch, (unsigned long)vp_now);
    fflush (stdout);
}

static void
run_case (void)
{
    uint64_t fds[16], fds2[16];
    int round, i, k;

    memset (ts, 0, sizeof (ts));
    cur = -1;
    active = 0;
    turn_no = seq_no = n_switch = 0;
    slice_id = 0;
    starts_left = 150;
    vp_dead_hook = dead;
    vp_close_monitor = 1;
    vp_quarantine = 1;
    vp_vt_start (1000000000ull + vp_rnd () % 3000000000ull);
    vp_tick_ns = vp_chance (50) ? 0 : 1 + vp_range (5000);
    vp_fd_snapshot (fds);
    vp_track = 1;
    vp_track_reset ();

    VP_CHECK (hev_task_system_init () == 0, "init", "init failed");
    VP_CHECK (hev_task_self () == NULL, "self", "self outside tasks");
    for (round = 0; round < cfg.rounds; round++) {
        int n = 1 + vp_range (cfg.ntasks);

        /* some tasks of earlier rounds run again, then new ones */
        for (i = 0; i < cfg.max_tasks; i++)
            if (ts[i].used && ts[i].refs && !ts[i].keeper && vp_chance (60)) {
                if (vp_chance (50)) {
                    hev_task_ref (ts[i].h);
                    ts[i].refs++;
                }
                start_task (i);
                vp_ev ("runs again in a later round");
            }
        while (n-- && active < cfg.max_tasks - 4) {
            k = new_task (vp_chance (30) ? -1 :
                                           vp_between (cfg.rt ? 0 : 1, 15));
            if (k < 0)
                break;
            if (vp_chance (50)) {
                hev_task_ref (ts[k].h);
                ts[k].refs++;
            }
            start_task (k);
        }
        /* a keeper ends waits nobody else will end */
        k = new_task (vp_chance (50) ? 15 : vp_between (1, 15));
        if (k < 0) {
            for (i = 0; i < cfg.max_tasks; i++)
                if (ts[i].used && ts[i].st == STOPPED && ts[i].refs) {
                    while (ts[i].refs--)
                        hev_task_unref (ts[i].h);
                    ts[i].used = 0;
                    break;
                }
            k = new_task (15);
            VP_HARNESS (k >= 0);
        }
        ts[k].keeper = 1;
        start_task (k);

        hev_task_system_run ();
        vp_ev ("runs of the system");
        VP_CHECK (cur == -1, "overlap", "run returned inside a task");
        VP_CHECK (active == 0, "run-early",
                  "run returned although %d tasks have not ended", active);
        VP_CHECK (hev_task_self () == NULL, "self", "self outside tasks");
        for (i = 0; i < cfg.max_tasks; i++) {
            if (!ts[i].used)
                continue;
            VP_CHECK (ts[i].entries == ts[i].runs, "entry-count",
                      "task %d: %lu entries for %lu runs", i,
                      (unsigned long)ts[i].entries, (unsigned long)ts[i].runs);
            check_state (i);
        }
    }
    for (i = 0; i < cfg.max_tasks; i++)
        if (ts[i].used)
            while (ts[i].refs--)
                hev_task_unref (ts[i].h);
    hev_task_system_fini ();
    vp_track = 0;
    VP_CHECK (vp_track_live () == 0, "leak-memory",
              "%zu blocks (%zu bytes) not released after fini",
              vp_track_live (), vp_track_bytes ());
    VP_CHECK (vp_maps_live () == 0, "leak-stack",
              "%d stack mappings not released", vp_maps_live ());
    vp_fd_snapshot (fds2);
    VP_CHECK (!vp_fd_diff_str (fds, fds2), "leak-fd", "descriptors changed: %s",
              vp_fd_diff_str (fds, fds2));
    vp_vt_stop ();
    vp_evn ("task switches", n_switch);
    vp_sample ("%d rounds, %lu task switches, virtual end %lu ns", cfg.rounds,
               (unsigned long)n_switch, (unsigned long)vp_now);
}

static void
base_cfg (void)
{
    memset (&cfg, 0, sizeof (cfg));
    cfg.max_tasks = 20;
    cfg.ntasks = 1 + vp_range (8);
    cfg.quota = 1 + vp_range (40);
    cfg.rounds = 1 + vp_range (3);
    cfg.strict = 1;
    vp_shuffle = vp_chance (50);
}

/* a crowd now and then */
static void
crowd (void)
{
    if (vp_case % 50 != 7)
        return;
    cfg.max_tasks = MAXT;
    cfg.ntasks = MAXT - 10;
    cfg.quota = 1 + cfg.quota % 20;
    vp_ev ("cases with many tasks");
}

static void
w_life (uint64_t n)
{
    base_cfg ();
    cfg.w[OP_YIELD] = 20;
    cfg.w[OP_WAIT] = vp_chance (70) ? 10 : 0;
    cfg.w[OP_WAKE] = 10;
    cfg.w[OP_NEW] = 12;
    cfg.w[OP_RUN] = 14;
    cfg.w[OP_RERUN_ACTIVE] = 3;
    cfg.w[OP_REF] = 6;
    cfg.w[OP_UNREF] = 10;
    cfg.w[OP_PRIO] = 3;
    cfg.w[OP_STATE] = 8;
    cfg.w[OP_EXIT] = vp_chance (60) ? 3 : 0;
    cfg.w[OP_CALL] = 5;
    cfg.w[OP_SLEEP] = vp_chance (30) ? 4 : 0;
    cfg.keeper_sleeps = 1;
    cfg.rt = 1;
    crowd ();
    run_case ();
    vp_nontrivial ();
}

static void
w_wake (uint64_t n)
{
    base_cfg ();
    cfg.ntasks = 2 + vp_range (8);
    cfg.w[OP_YIELD] = vp_range (20);
    cfg.w[OP_WAIT] = 25;
    cfg.w[OP_WAKE] = 25;
    cfg.w[OP_WAKE_MANY] = 8;
    cfg.w[OP_STATE] = 5;
    cfg.w[OP_SLEEP] = vp_chance (60) ? 10 : 0;
    cfg.w[OP_NEW] = 2;
    cfg.w[OP_RUN] = 3;
    cfg.w[OP_EXIT] = 1;
    cfg.w[OP_CALL] = 3;
    cfg.keeper_sleeps = 1;
    cfg.rt = 1;
    crowd ();
    run_case ();
    vp_nontrivial ();
}

static void
w_fair (uint64_t n)
{
    base_cfg ();
    cfg.ntasks = 2 + vp_range (10);
    cfg.quota = 20 + vp_range (vp_thorough ? 400 : 120);
    cfg.rounds = 1 + vp_range (2);
    cfg.fair = 1;
    cfg.w[OP_YIELD] = 40;
    cfg.w[OP_WAIT] = vp_chance (75) ? vp_range (30) : 0;
    cfg.w[OP_WAKE] = 20;
    cfg.w[OP_WAKE_MANY] = vp_chance (70) ? 10 : 0;
    cfg.w[OP_NEW] = vp_chance (50) ? 4 : 0;
    cfg.w[OP_RUN] = vp_chance (50) ? 6 : 0;
    cfg.w[OP_PRIO] = vp_chance (40) ? 3 : 0;
    cfg.w[OP_STATE] = 1;
    cfg.rt = vp_chance (50);
    if (vp_chance (60)) {
        cfg.strict = 0;
        cfg.w[OP_SLEEP] = vp_chance (60) ? vp_range (20) : 0;
        cfg.w[OP_FD] = vp_chance (60) ? vp_range (30) : 0;
        cfg.keeper_sleeps = vp_chance (70);
    }
    crowd ();
    run_case ();
    vp_nontrivial ();
}

static void
w_join (uint64_t n)
{
    base_cfg ();
    cfg.ntasks = 3 + vp_range (8);
    cfg.strict = 0;
    cfg.w[OP_YIELD] = 15;
    cfg.w[OP_WAIT] = vp_range (12);
    cfg.w[OP_WAKE] = 10;
    cfg.w[OP_NEW] = 8;
    cfg.w[OP_RUN] = 10;
    cfg.w[OP_REF] = 4;
    cfg.w[OP_UNREF] = 4;
    cfg.w[OP_EXIT] = vp_chance (60) ? 4 : 0;
    cfg.w[OP_CALL] = 3;
    cfg.w[OP_SLEEP] = vp_chance (60) ? 6 : 0;
    cfg.w[OP_JOIN] = 20;
    cfg.keeper_sleeps = vp_chance (50);
    cfg.rt = 1;
    crowd ();
    run_case ();
}

/* hundreds of millions of turns */
static struct
{
    int prio;
    uint64_t turns, gap; /* of the others since its last one */
} lt[4];
static int nlt;
static uint64_t long_left;

static void
long_entry (void *data)
{
    int me = (int)(intptr_t)data, i, bound = 0;

    for (i = 0; i < nlt; i++)
        if (i != me)
            bound += (lt[me].prio + lt[i].prio - 1) / lt[i].prio;
    while (long_left) {
        long_left--;
        lt[me].turns++;
        lt[me].gap = 0;
        for (i = 0; i < nlt; i++)
            lt[i].gap++;
        hev_task_yield (HEV_TASK_YIELD);
        for (i = 0; i < nlt; i++)
            if (lt[i].gap > 1000)
                vp_fail ("starved", "task %d of %d starves after %lu turns", i,
                         nlt, (unsigned long)lt[i].turns);
        if ((int)lt[me].gap > bound + 1 && long_left)
            vp_fail ("starved",
                     "task %d of %d waits for %lu turns of the others, "
                     "%d expected, after %lu turns",
                     me, nlt, (unsigned long)lt[me].gap, bound,
                     (unsigned long)lt[me].turns);
    }
}

static void
w_long (uint64_t n)
{
    int i;

    vp_vt_stop ();
    n %= 8;
    nlt = n ? 2 + vp_range (3) : 2;
    long_left = n ? 4000000 : 2 * 0x100000000ull / 15 + 10000000;
    memset (lt, 0, sizeof (lt));
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    for (i = 0; i < nlt; i++) {
        HevTask *h = hev_task_new (65536);
        VP_HARNESS (h);
        lt[i].prio = n ? vp_between (1, 15) : 15;
        hev_task_set_priority (h, lt[i].prio);
        hev_task_run (h, long_entry, (void *)(intptr_t)i);
    }
    vp_evn ("turns of long runs", long_left);
    vp_mix (n);
    hev_task_system_run ();
    hev_task_system_fini ();
    VP_CHECK (!long_left, "run-early", "the system ended too early");
    vp_nontrivial ();
    vp_sample ("%d tasks, the first took %lu turns", nlt,
               (unsigned long)lt[0].turns);
}

static const VpWork works[] = {
    { "long", w_long },
    { "life", w_life },
    { "wake", w_wake },
    { "fair", w_fair },
    { "join", w_join },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    return vp_main (argc, argv, works);
}
