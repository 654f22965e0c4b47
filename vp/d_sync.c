/* Mutexes and condition variables. */
#include "vp.h"
#include <sys/eventfd.h>
#include <hev-task-system.h>
#include <hev-task.h>
#include <hev-task-mutex.h>
#include <hev-task-cond.h>

#define MAXT 100
#define MAXM 4
#define MAXC 3

typedef struct
{
    HevTask *h;
    int live;
    int blocked_m;    /* waits for this mutex, -1: none */
    int cond;         /* in a wait on this condition, -1: none */
    uint64_t since;   /* sequence number of the start of the wait */
    int timed;
    uint64_t deadline, start;
    unsigned wakes;
    int quota;
    unsigned held; /* bit set of mutexes held */
} T;

typedef struct
{
    HevTaskCond c;
    uint64_t guard;
    int m;
    uint64_t credit[256]; /* releases not yet observed, ascending */
    int ncredit;
} C;

static struct
{
    uint64_t guard0;
    HevTaskMutex m;
    uint64_t guard1;
} ms[MAXM];
static int holder[MAXM];
static uint64_t free_turn[MAXM];
static C cs[MAXC];
static T ts[MAXT];
static int nm, nc, nt, active, keeper_fd;
static uint64_t seq, turn, n_locks, n_contended, n_cond, n_timeouts;
static int wakes_on;

static int
waiters (int m)
{
    int i, n = 0;
    for (i = 0; i < nt; i++)
        n += ts[i].blocked_m == m;
    return n;
}

static void
tick (void)
{
    int m;

    turn++;
    for (m = 0; m < nm; m++) {
        if (holder[m] >= 0 || !waiters (m)) {
            free_turn[m] = turn;
            continue;
        }
        VP_CHECK (turn - free_turn[m] < 64u * (nt < 14 ? 14 : nt), "no-progress",
                  "mutex %d is free, %d tasks wait for it, nobody took it in "
                  "%lu turns",
                  m, waiters (m), (unsigned long)(turn - free_turn[m]));
    }
}

static void
acquired (int me, int m, const char *how)
{
    VP_CHECK (holder[m] == -1, "exclusion",
              "%s by task %d succeeded while task %d holds mutex %d", how, me,
              holder[m], m);
    holder[m] = me;
    ts[me].held |= 1u << m;
    n_locks++;
}

static void
lock (int me, int m)
{
    uint64_t t0 = turn;

    if (holder[m] >= 0)
        n_contended++;
    ts[me].blocked_m = m;
    VP_CHECK (hev_task_mutex_lock (&ms[m].m) == 0, "lock", "lock failed");
    ts[me].blocked_m = -1;
    vp_scribble ();
    tick ();
    acquired (me, m, "lock");
    vp_mix (me * 8 + m);
    vp_ev (turn - t0 > 1 ? "contended locks" : "uncontended locks");
}

static void
unlock (int me, int m)
{
    uint64_t t0 = turn;

    VP_CHECK (holder[m] == me, "exclusion",
              "mutex %d held by task %d was lost to %d", m, me, holder[m]);
    holder[m] = -1;
    ts[me].held &= ~(1u << m);
    free_turn[m] = turn;
    VP_CHECK (hev_task_mutex_unlock (&ms[m].m) == 0, "unlock", "unlock failed");
    VP_CHECK (turn == t0, "switch", "unlock switched to another task");
    VP_CHECK (hev_task_self () == ts[me].h, "switch", "unlock switched");
}

static void
trylock (int me, int m)
{
    uint64_t t0 = turn;
    int was = holder[m], res;

    res = hev_task_mutex_trylock (&ms[m].m);
    VP_CHECK (turn == t0, "trylock-wait", "try-lock switched to another task");
    if (was >= 0) {
        VP_CHECK (res == -1, "trylock",
                  "try-lock of task %d returned %d while task %d holds it", me,
                  res, was);
        vp_ev ("failed try-locks");
        return;
    }
    VP_CHECK (res == 0, "trylock", "try-lock of a free mutex returned %d", res);
    acquired (me, m, "try-lock");
    vp_ev ("successful try-locks");
}

/* ---- conditions ---- */

static int
waiting_before (int c, uint64_t s)
{
    int i, n = 0;

    for (i = 0; i < nt; i++)
        n += ts[i].cond == c && ts[i].since < s;
    return n;
}

/* every release issued and not observed yet must still have a taker among the
 * tasks that were waiting when it was issued */
static void
check_credits (int c, const char *where)
{
    int i;

    for (i = 0; i < cs[c].ncredit; i++)
        VP_CHECK (waiting_before (c, cs[c].credit[i]) >= i + 1, "lost-release",
                  "condition %d: %d releases pending but only %d tasks that "
                  "waited then are left (%s)",
                  c, i + 1, waiting_before (c, cs[c].credit[i]), where);
}

static void
signal_cond (int c)
{
    uint64_t t0 = turn;

    seq++;
    if (waiting_before (c, seq) > cs[c].ncredit) {
        VP_HARNESS (cs[c].ncredit < 256);
        cs[c].credit[cs[c].ncredit++] = seq;
        vp_ev ("signals with waiters");
    } else {
        vp_ev ("signals without waiters");
    }
    VP_CHECK (hev_task_cond_signal (&cs[c].c) == 0, "signal", "failed");
    VP_CHECK (turn == t0, "switch", "signal switched");
}

static void
broadcast (int c)
{
    uint64_t t0 = turn;
    int n;

    seq++;
    n = waiting_before (c, seq) - cs[c].ncredit;
    VP_HARNESS (n >= 0);
    vp_ev (n ? "broadcasts with waiters" : "broadcasts without waiters");
    while (n--) {
        VP_HARNESS (cs[c].ncredit < 256);
        cs[c].credit[cs[c].ncredit++] = seq;
    }
    VP_CHECK (hev_task_cond_broadcast (&cs[c].c) == 0, "broadcast", "failed");
    VP_CHECK (turn == t0, "switch", "broadcast switched");
}

static void
cond_wait (int me, int c, int timed)
{
    T *t = &ts[me];
    int m = cs[c].m, res, i;
    unsigned msec = 0;
    uint64_t t0;

    VP_HARNESS (holder[m] == me);
    if (timed)
        msec = vp_chance (10) ? 0 :
               vp_chance (60) ? 1 + vp_range (20) :
                                1 + vp_range (100000);
    holder[m] = -1;
    t->held &= ~(1u << m);
    free_turn[m] = turn;
    t->since = ++seq;
    t->cond = c;
    t->timed = timed;
    t->wakes = 0;
    t0 = vp_now;
    t->deadline = t0 + msec * 1000000ull;
    n_cond++;
    res = timed ? hev_task_cond_timedwait (&cs[c].c, &ms[m].m, msec) :
                  hev_task_cond_wait (&cs[c].c, &ms[m].m);
    vp_scribble ();
    tick ();
    VP_CHECK (res == 0 || (timed && res == -1), "result", "wait returned %d",
              res);
    VP_CHECK (holder[m] == -1, "exclusion",
              "wait of task %d returned while task %d holds the mutex", me,
              holder[m]);
    t->cond = -1;
    if (res == 0) {
        for (i = 0; i < cs[c].ncredit; i++)
            if (cs[c].credit[i] > t->since)
                break;
        VP_CHECK (i < cs[c].ncredit, "invented-release",
                  "task %d returned 0 from a %swait on condition %d, no signal "
                  "since it started is left for it",
                  me, timed ? "timed " : "", c);
        memmove (&cs[c].credit[i], &cs[c].credit[i + 1],
                 (cs[c].ncredit - i - 1) * sizeof (uint64_t));
        cs[c].ncredit--;
        vp_ev ("released waits");
    } else {
        n_timeouts++;
        VP_CHECK (vp_now - t0 + t->wakes * 1000000ull >= msec * 1000000ull,
                  "early-timeout",
                  "timed wait of %u ms timed out after %lu ns (%u unrelated "
                  "wakes)",
                  msec, (unsigned long)(vp_now - t0), t->wakes);
        vp_ev ("timed out waits");
    }
    check_credits (c, "a wait returned");
    /* the mutex must really be held again */
    VP_CHECK (hev_task_mutex_trylock (&ms[m].m) == -1, "mutex-not-held",
              "wait returned without the mutex");
    holder[m] = me;
    t->held |= 1u << m;
    vp_mix (me * 16 + c * 2 + (res != 0) + 1000);
}

/* ---- tasks ---- */

static void
pause_some (int me)
{
    int n;

    switch (vp_range (4)) {
    case 0:
        hev_task_usleep (1 + vp_range (20000));
        break;
    case 1:
        break;
    default:
        for (n = 1 + vp_range (3); n > 0; n--) {
            hev_task_yield (HEV_TASK_YIELD);
            tick ();
        }
    }
    vp_scribble ();
    tick ();
}

static void
wake_any (int me)
{
    int i = vp_range (nt);

    if (!wakes_on || i == me || !ts[i].live)
        return;
    /* a plain sleep in the critical section just ends early */
    ts[i].wakes++;
    hev_task_wakeup (ts[i].h);
    vp_ev ("unrelated wakes");
}

static void
mutex_entry (void *data)
{
    int me = (int)(intptr_t)data, m, k;
    T *t = &ts[me];

    while (t->quota-- > 0) {
        m = vp_range (nm);
        switch (vp_range (6)) {
        case 0:
            if (!(t->held & (1u << m)))
                trylock (me, m);
            break;
        case 1:
            wake_any (me);
            break;
        case 2:
            pause_some (me);
            break;
        default:
            /* blocking locks are taken in increasing order */
            if (t->held >> m)
                break;
            lock (me, m);
        }
        if (vp_chance (30))
            pause_some (me);
        for (k = nm - 1; k >= 0; k--)
            if ((t->held & (1u << k)) && vp_chance (60))
                unlock (me, k);
    }
    for (k = 0; k < nm; k++)
        if (t->held & (1u << k))
            unlock (me, k);
    t->live = 0;
    active--;
}

static void
cond_entry (void *data)
{
    int me = (int)(intptr_t)data, m, c, n;
    T *t = &ts[me];

    while (t->quota-- > 0) {
        c = vp_range (nc);
        m = cs[c].m;
        switch (vp_range (12)) {
        case 0:
            wake_any (me);
            break;
        case 1:
            pause_some (me);
            break;
        case 2:
        case 3:
            if (vp_chance (50))
                signal_cond (c);
            else if (vp_chance (30))
                broadcast (c);
            break;
        default:
            if (vp_chance (20)) {
                trylock (me, m);
                if (!(t->held & (1u << m)))
                    break;
            } else {
                lock (me, m);
            }
            if (vp_chance (20))
                pause_some (me);
            for (n = vp_range (3); n > 0; n--)
                cond_wait (me, c, vp_chance (50));
            if (vp_chance (40))
                signal_cond (c);
            if (vp_chance (8))
                broadcast (c);
            if (vp_chance (20))
                pause_some (me);
            unlock (me, m);
        }
    }
    t->live = 0;
    active--;
}

/* ends plain waits, so that the program always ends */
static void
keeper (void *data)
{
    uint64_t v;
    int i;

    VP_HARNESS (hev_task_add_fd (hev_task_self (), keeper_fd, POLLIN) == 0);
    while (active) {
        hev_task_yield (HEV_TASK_WAITIO);
        tick ();
        if (__real_read (keeper_fd, &v, 8) != 8)
            continue;
        i = vp_range (nc);
        if (vp_chance (60)) {
            for (i = 0; i < nc; i++)
                if (vp_chance (70))
                    signal_cond (i);
        } else if (vp_chance (50)) {
            broadcast (i);
        } else {
            i = vp_range (nt);
            if (ts[i].live) {
                ts[i].wakes++;
                hev_task_wakeup (ts[i].h);
            }
        }
    }
    hev_task_del_fd (hev_task_self (), keeper_fd);
}

static void
idle_check (const char *where)
{
    int i, m, c;

    for (m = 0; m < nm; m++)
        VP_CHECK (holder[m] >= 0 || !waiters (m), "forgotten-waiter",
                  "everything idle, mutex %d is free and %d tasks wait for it "
                  "(%s)",
                  m, waiters (m), where);
    for (c = 0; c < nc; c++) {
        if (holder[cs[c].m] >= 0)
            continue;
        VP_CHECK (cs[c].ncredit == 0, "lost-release",
                  "everything idle, condition %d has %d releases nobody "
                  "returned from (%s)",
                  c, cs[c].ncredit, where);
    }
    for (i = 0; i < nt; i++)
        if (ts[i].cond >= 0 && ts[i].timed && holder[cs[ts[i].cond].m] < 0)
            VP_CHECK (ts[i].deadline > vp_now, "missed-timeout",
                      "everything idle at %lu, the timed wait of task %d was "
                      "due at %lu",
                      (unsigned long)vp_now, i, (unsigned long)ts[i].deadline);
    vp_ev ("idle points checked");
}

static int
idle (void)
{
    uint64_t one = 1;

    idle_check ("idle");
    if (keeper_fd < 0 || (vp_vt_armed () && vp_chance (80)))
        return 0;
    VP_HARNESS (__real_write (keeper_fd, &one, 8) == 8);
    return 1;
}

static void
jump (uint64_t from, uint64_t to)
{
    int i;

    for (i = 0; i < nt; i++)
        if (ts[i].cond >= 0 && ts[i].timed && holder[cs[ts[i].cond].m] < 0)
            VP_CHECK (ts[i].deadline >= to, "missed-timeout",
                      "the system idles until %lu, the timed wait of task %d "
                      "is due at %lu",
                      (unsigned long)to, i, (unsigned long)ts[i].deadline);
}

static void
dead (void)
{
    idle_check ("dead");
}

static void
common (HevTaskEntry entry, int with_keeper)
{
    int i;

    seq = turn = n_locks = n_contended = n_cond = n_timeouts = 0;
    memset (ts, 0, sizeof (ts));
    vp_dead_key = "forgotten-waiter";
    vp_dead_hook = dead;
    vp_idle_hook = idle;
    vp_jump_hook = jump;
    vp_vt_start (1000000000ull + vp_range (1000000000));
    wakes_on = vp_chance (60);
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    nt = active = 2 + vp_range (vp_case % 100 == 3 ? MAXT - 1 : vp_chance (30) ? 13 : 4);
    for (i = 0; i < nm; i++) {
        ms[i].guard0 = ms[i].guard1 = 0x5a5a5a5a5a5a5a5aull;
        memset (&ms[i].m, 0xa5, sizeof (ms[i].m));
        VP_CHECK (hev_task_mutex_init (&ms[i].m) == 0, "init", "mutex init");
        holder[i] = -1;
        free_turn[i] = 0;
    }
    for (i = 0; i < nc; i++) {
        memset (&cs[i], 0xa5, sizeof (cs[i]));
        cs[i].guard = 0x5a5a5a5a5a5a5a5aull;
        VP_CHECK (hev_task_cond_init (&cs[i].c) == 0, "init", "cond init");
        cs[i].m = vp_range (nm);
        cs[i].ncredit = 0;
    }
    for (i = 0; i < nt; i++) {
        ts[i].h = hev_task_new (65536);
        VP_HARNESS (ts[i].h);
        if (vp_chance (50))
            hev_task_set_priority (ts[i].h, vp_between (1, 15));
        hev_task_ref (ts[i].h);
        ts[i].live = 1;
        ts[i].blocked_m = ts[i].cond = -1;
        ts[i].quota = 1 + vp_range (25);
    }
    for (i = 0; i < nt; i++)
        hev_task_run (ts[i].h, entry, (void *)(intptr_t)i);
    keeper_fd = -1;
    if (with_keeper) {
        HevTask *k = hev_task_new (65536);
        keeper_fd = eventfd (0, EFD_NONBLOCK);
        VP_HARNESS (keeper_fd >= 0);
        hev_task_run (k, keeper, NULL);
    }
    hev_task_system_run ();
    VP_CHECK (active == 0, "run-early", "%d tasks left", active);
    for (i = 0; i < nt; i++)
        hev_task_unref (ts[i].h);
    hev_task_system_fini ();
    if (keeper_fd >= 0)
        __real_close (keeper_fd);
    for (i = 0; i < nm; i++)
        VP_CHECK (ms[i].guard0 == 0x5a5a5a5a5a5a5a5aull &&
                      ms[i].guard1 == 0x5a5a5a5a5a5a5a5aull,
                  "overwrite", "memory around mutex %d was changed", i);
    for (i = 0; i < nc; i++)
        VP_CHECK (cs[i].guard == 0x5a5a5a5a5a5a5a5aull, "overwrite",
                  "memory after condition %d was changed", i);
    vp_vt_stop ();
}

static void
w_mutex (uint64_t n)
{
    nm = 1 + vp_range (vp_chance (50) ? 1 : MAXM);
    nc = 0;
    common (mutex_entry, 0);
    if (n_contended > 1)
        vp_nontrivial ();
    vp_sample ("%d tasks, %d mutexes, %lu acquisitions, %lu found it held", nt,
               nm, (unsigned long)n_locks, (unsigned long)n_contended);
}

static void
w_cond (uint64_t n)
{
    nm = 1 + vp_range (2);
    nc = 1 + vp_range (MAXC);
    common (cond_entry, 1);
    if (n_cond > 1)
        vp_nontrivial ();
    vp_sample ("%d tasks, %d conditions, %lu waits, %lu timed out", nt, nc,
               (unsigned long)n_cond, (unsigned long)n_timeouts);
}

static const VpWork works[] = {
    { "mutex", w_mutex },
    { "cond", w_cond },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    return vp_main (argc, argv, works);
}
