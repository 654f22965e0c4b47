/* Sleeps on a virtual clock. */
#include "vp.h"
#include <sys/eventfd.h>
#include <hev-task-system.h>
#include <hev-task.h>

#define MAXT 200
typedef struct
{
    HevTask *h;
    int live;
    int sleeping;
    int waiting; /* a plain wait */
    int woken;
    int quota;
    int keeper, burner;
    uint64_t lo, hi; /* deadline, known to clock-read noise */
    uint64_t burner_turns;
    uint64_t reads0;
} T;

static T ts[MAXT];
static int nts, active;
static uint64_t n_sleeps, n_early, busy_turns;
static int wakes_on, long_on, waits_on;
static int keeper_fd;

static int
sleepers (void)
{
    int i, n = 0;
    for (i = 0; i < nts; i++)
        n += ts[i].sleeping;
    return n;
}

/* every task waits and the clock is about to jump */
static void
jump (uint64_t from, uint64_t to)
{
    int i;

    for (i = 0; i < nts; i++) {
        if (!ts[i].sleeping)
            continue;
        VP_CHECK (ts[i].hi >= to, "missed-deadline",
                  "system idles from %lu to %lu ns although task %d was due at "
                  "%lu",
                  (unsigned long)from, (unsigned long)to, i,
                  (unsigned long)ts[i].hi);
        vp_ev ("deadlines checked at idle");
    }
    vp_ev ("clock jumps");
}

static unsigned
duration_us (void)
{
    uint64_t frac;

    switch (vp_range (8)) {
    case 0:
        return 1 + vp_range (10);
    case 1:
        return 1 + vp_range (2000);
    case 2:
        return 1000 * (1 + vp_range (50));
    case 3:
        /* ends exactly on a second */
        frac = (1000000000ull - vp_now % 1000000000ull) % 1000000000ull;
        if (frac % 1000 == 0 && frac)
            return frac / 1000 + 1000000u * vp_range (3);
        return 1000000 - (unsigned)(vp_now / 1000 % 1000000);
    case 4:
        return 999990 + vp_range (20);
    case 5:
        return 1000000u * (1 + vp_range (5));
    case 6:
        if (long_on)
            return vp_chance (50) ? 0xffffffffu - vp_range (3) :
                                    (unsigned)vp_rnd ();
        return 1 + vp_range (100);
    default:
        return 1 + vp_range (100000);
    }
}

static unsigned
duration_ms (void)
{
    switch (vp_range (5)) {
    case 0:
        return 1 + vp_range (5);
    case 1:
        return 1 + vp_range (3000);
    case 2:
        return 1000 * (1 + vp_range (4));
    case 3:
        if (long_on) {
            static const unsigned big[] = { 4294967u, 4294968u, 4294969u,
                                            5000000u, 0x7fffffffu,
                                            0xffffffffu, 86400000u };
            return big[vp_range (ARRAY_LEN (big))];
        }
        return 1 + vp_range (20);
    default:
        return (1000 - vp_now / 1000000 % 1000);
    }
}

static void
do_sleep (int me)
{
    T *t = &ts[me];
    int ms = vp_chance (40);
    unsigned d = ms ? duration_ms () : duration_us ();
    uint64_t unit = ms ? 1000000ull : 1000ull, t0 = vp_now, t1;
    unsigned left;

    if (vp_chance (2))
        d = 0;
    t->lo = t0 + d * unit;
    t->hi = t->lo + vp_tick_ns;
    t->sleeping = d != 0;
    t->woken = 0;
    t->burner_turns = 0;
    left = ms ? hev_task_sleep (d) : hev_task_usleep (d);
    t->sleeping = 0;
    t1 = vp_now;
    vp_scribble ();
    n_sleeps++;
    vp_mix (me * 64 + (left != 0) * 2 + ms);
    VP_CHECK (left <= d, "left-too-long", "sleep(%u) returned %u left", d, left);
    if (!t->woken) {
        VP_CHECK (left == 0, "early",
                  "%s(%u) of task %d returned %u left, nothing woke it",
                  ms ? "sleep" : "usleep", d, me, left);
        VP_CHECK (t1 >= t->lo, "early",
                  "%s(%u) of task %d returned %lu ns before its deadline",
                  ms ? "sleep" : "usleep", d, me, (unsigned long)(t->lo - t1));
        vp_ev ("complete sleeps");
    } else {
        n_early++;
        if (left == 0)
            VP_CHECK (t1 + unit > t->lo, "early",
                      "%s(%u) returned 0 with %lu ns to go",
                      ms ? "sleep" : "usleep", d, (unsigned long)(t->lo - t1));
        else
            VP_CHECK (left >= (t->lo > t1 ? (t->lo - t1) / unit : 0), "left",
                      "%s(%u) returned %u left, at least %lu expected",
                      ms ? "sleep" : "usleep", d, left,
                      (unsigned long)((t->lo - t1) / unit));
        if (!vp_tick_ns)
            VP_CHECK (left == (t->lo > t1 ? (t->lo - t1) / unit : 0), "left",
                      "%s(%u) returned %u left, %lu expected",
                      ms ? "sleep" : "usleep", d, left,
                      (unsigned long)(t->lo > t1 ? (t->lo - t1) / unit : 0));
        vp_ev ("interrupted sleeps");
    }
    VP_CHECK (t->burner_turns <= 64u * (unsigned)nts, "late",
              "task %d was due but a busy task got %lu turns first", me,
              (unsigned long)t->burner_turns);
}

static void
entry (void *data)
{
    int me = (int)(intptr_t)data, i;
    T *t = &ts[me];

    while (t->quota-- > 0) {
        switch (vp_range (6)) {
        case 0:
            if (wakes_on) {
                i = vp_range (nts);
                if (i != me && ts[i].live &&
                    (ts[i].sleeping || ts[i].waiting)) {
                    ts[i].woken = 1;
                    hev_task_wakeup (ts[i].h);
                    vp_ev ("early wakes");
                }
            }
            break;
        case 1:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 2:
            if (waits_on) {
                t->waiting = 1;
                t->woken = 0;
                hev_task_yield (HEV_TASK_WAITIO);
                t->waiting = 0;
                VP_CHECK (t->woken, "stale-timer",
                          "task %d in a plain wait was woken by no task", me);
                vp_ev ("plain waits");
                break;
            }
            /* fall through */
        default:
            do_sleep (me);
        }
    }
    t->live = 0;
    active--;
}

/* keeps the processor busy: time passes without the system being idle */
static void
burner (void *data)
{
    int me = (int)(intptr_t)data, i, n = ts[me].quota * 3;

    while (n-- > 0) {
        vp_now += vp_range (2000000);
        if (vp_chance (5))
            vp_now = (vp_now / 1000000000ull + 1) * 1000000000ull;
        for (i = 0; i < nts; i++)
            if (ts[i].sleeping && ts[i].hi < vp_now) {
                ts[i].burner_turns++;
                vp_ev ("busy turns past a deadline");
            }
        for (i = 0; i < nts; i++)
            if (ts[i].sleeping)
                VP_CHECK (ts[i].burner_turns <= 64u * (unsigned)nts, "late",
                          "task %d was due but a busy task got %lu turns", i,
                          (unsigned long)ts[i].burner_turns);
        hev_task_yield (HEV_TASK_YIELD);
        busy_turns++;
    }
    ts[me].live = 0;
    active--;
}

/* wakes plain waiters, so that the program always ends */
static void
keeper (void *data)
{
    uint64_t v;
    int i, n;

    VP_HARNESS (hev_task_add_fd (hev_task_self (), keeper_fd, POLLIN) == 0);
    while (active) {
        hev_task_yield (HEV_TASK_WAITIO);
        if (__real_read (keeper_fd, &v, 8) != 8)
            continue;
        n = vp_range (nts);
        for (i = 0; i < nts; i++) {
            int j = (i + n) % nts;
            if (ts[j].waiting) {
                ts[j].woken = 1;
                hev_task_wakeup (ts[j].h);
                break;
            }
        }
    }
    hev_task_del_fd (hev_task_self (), keeper_fd);
}

static int
idle (void)
{
    uint64_t one = 1;

    if (!waits_on || (vp_vt_armed () && vp_chance (70)))
        return 0;
    vp_ev (vp_vt_armed () ? "keeper pokes, timer armed" : "keeper pokes");
    VP_HARNESS (__real_write (keeper_fd, &one, 8) == 8);
    return 1;
}

static void
dead (void)
{
    int i;
    for (i = 0; i < nts; i++)
        if (ts[i].sleeping)
            printf ("task %d sleeps, due %lu, now %lu\n", i,
                    (unsigned long)ts[i].lo, (unsigned long)vp_now);
    fflush (stdout);
}

static void
w_sleep (uint64_t n)
{
    int i, round, rounds;
    uint64_t start;

    vp_jump_hook = jump;
    vp_dead_hook = dead;
    vp_dead_key = "never-woken";
    n_sleeps = n_early = busy_turns = 0;
    start = 1000000000ull * (1 + vp_range (1000));
    switch (vp_range (4)) {
    case 0:
        break;
    case 1:
        start += 1000ull * vp_range (1000000);
        break;
    case 2:
        start += 1000000ull * vp_range (1000);
        break;
    default:
        start += vp_range (1000000000);
    }
    vp_vt_start (start);
    vp_tick_ns = vp_chance (60) ? 0 : 1 + vp_range (3000);
    vp_shuffle = vp_chance (50);
    vp_quarantine = 1;
    wakes_on = vp_chance (60);
    long_on = vp_chance (50);
    waits_on = vp_chance (40);
    vp_idle_hook = idle;
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    rounds = 1 + vp_range (3);
    for (round = 0; round < rounds; round++) {
        memset (ts, 0, sizeof (ts));
        nts = active = 1 + vp_range (vp_case % 100 == 3 ? MAXT : vp_chance (20) ? 20 : 6);
        for (i = 0; i < nts; i++) {
            ts[i].h = hev_task_new (65536);
            VP_HARNESS (ts[i].h);
            if (vp_chance (70))
                hev_task_set_priority (ts[i].h, vp_between (1, 15));
            hev_task_ref (ts[i].h);
            ts[i].live = 1;
            ts[i].quota = 1 + vp_range (12);
            ts[i].burner = i > 0 && vp_chance (6);
        }
        for (i = 0; i < nts; i++)
            hev_task_run (ts[i].h, ts[i].burner ? burner : entry,
                          (void *)(intptr_t)i);
        if (waits_on) {
            HevTask *k = hev_task_new (65536);
            keeper_fd = eventfd (0, EFD_NONBLOCK);
            hev_task_run (k, keeper, NULL);
        }
        hev_task_system_run ();
        if (waits_on)
            __real_close (keeper_fd);
        VP_CHECK (active == 0, "run-early", "%d tasks not ended", active);
        for (i = 0; i < nts; i++)
            hev_task_unref (ts[i].h);
    }
    hev_task_system_fini ();
    vp_vt_stop ();
    vp_jump_hook = NULL;
    if (n_sleeps > 2)
        vp_nontrivial ();
    vp_sample ("%d tasks in the last round, %lu sleeps, %lu woken early, from "
               "%lu to %lu ns",
               nts, (unsigned long)n_sleeps, (unsigned long)n_early,
               (unsigned long)start, (unsigned long)vp_now);
    (void)sleepers;
}

/* the same contract against the real kernel clock and timer */
static uint64_t
real_now (void)
{
    struct timespec ts_;
    __real_clock_gettime (CLOCK_MONOTONIC, &ts_);
    return ts_.tv_sec * 1000000000ull + ts_.tv_nsec;
}

static void
real_entry (void *data)
{
    T *t = data;
    int n = 3;

    while (n--) {
        unsigned us = 1 + vp_range (3000), left;
        uint64_t a = real_now (), b;
        left = hev_task_usleep (us);
        b = real_now ();
        VP_CHECK (left == 0 && b - a >= us * 1000ull, "early",
                  "usleep(%u) on the real clock took %lu ns, %u left", us,
                  (unsigned long)(b - a), left);
        vp_ev ("sleeps on the real clock");
        vp_mix (us);
    }
    t->live = 0;
    active--;
}

static void
w_real (uint64_t n)
{
    int i;

    vp_vt_stop ();
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    nts = active = 2 + vp_range (8);
    memset (ts, 0, sizeof (ts));
    for (i = 0; i < nts; i++) {
        ts[i].h = hev_task_new (65536);
        ts[i].live = 1;
        hev_task_run (ts[i].h, real_entry, &ts[i]);
    }
    hev_task_system_run ();
    VP_CHECK (active == 0, "run-early", "%d tasks not ended", active);
    hev_task_system_fini ();
    vp_nontrivial ();
}

static const VpWork works[] = {
    { "sleep", w_sleep },
    { "real", w_real },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    return vp_main (argc, argv, works);
}
