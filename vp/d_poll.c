/* Task poll (C20): every answer is compared with the system's poll at the
 * moment of the return; readiness changes only while the scheduler polls. */
#define _GNU_SOURCE
#include "vp.h"
#include <signal.h>
#include <sys/eventfd.h>
#include <hev-task-system.h>
#include <hev-task.h>
#include <hev-task-io-poll.h>

#define MAXT 4
#define MAXF 120
#define MAXP 400

typedef struct
{
    int fd, far, kind; /* 0: pipe in, 1: pipe out, 2: socket, 3: file */
    int fresh;
} F;

typedef struct
{
    HevTask *h;
    F f[MAXF];
    int nf, maxf, maxp, live, quota;
    int polling, nset, timeout;
    struct pollfd set[MAXP];
    int failed, polls;
    uint64_t start, wakes;
} T;

static T ts[MAXT];
static int nt, live, suspicious;
static uint64_t turn;

static int
act (T *t)
{
    char buf[9000];
    F *f;

    if (!t->nf)
        return 0;
    f = &t->f[vp_range (t->nf)];
    t->wakes++;
    switch (f->kind) {
    case 0:
        if (f->far < 0)
            return 0;
        if (vp_chance (5)) {
            __real_close (f->far);
            f->far = -1;
            return 1;
        }
        return __real_write (f->far, "abc", 1 + vp_range (3)) > 0;
    case 1:
        if (f->far < 0)
            return 0;
        if (vp_chance (5)) {
            __real_close (f->far);
            f->far = -1;
            return 1;
        }
        return __real_read (f->far, buf, vp_chance (50) ? 9000 : 1) > 0;
    case 2:
        if (f->far < 0)
            return 0;
        if (vp_chance (4)) {
            __real_close (f->far);
            f->far = -1;
            return 1;
        }
        if (vp_chance (4))
            return shutdown (f->far, SHUT_WR) == 0;
        if (vp_chance (10))
            return __real_send (f->far, "!", 1, MSG_OOB) > 0;
        if (vp_chance (50))
            return __real_write (f->far, "abc", 1 + vp_range (3)) > 0;
        return __real_read (f->far, buf, vp_chance (70) ? 9000 : 1) > 0;
    }
    return 0;
}

static void
poll_hook (int timeout)
{
    if (vp_chance (15))
        act (&ts[vp_range (nt)]);
}

static int
ready_now (T *t)
{
    struct pollfd p[MAXP];

    memcpy (p, t->set, t->nset * sizeof (p[0]));
    return vp_poll (p, t->nset, 0);
}

static int
idle (void)
{
    int i, k, bad = -1;

    for (i = 0; i < nt; i++)
        if (ts[i].live && ts[i].polling && ready_now (&ts[i]) != 0)
            bad = i;
    if (bad >= 0) {
        if (suspicious++ > 10)
            vp_fail ("missed-ready",
                     "a poll of %d descriptors with timeout %d waits although "
                     "one is ready",
                     ts[bad].nset, ts[bad].timeout);
        return 1;
    }
    suspicious = 0;
    vp_ev ("idle points checked");
    if (vp_vt_armed () && vp_chance (50))
        return 0; /* let the time pass */
    for (k = 0; k < 40; k++)
        if (act (&ts[vp_range (nt)]))
            return 1;
    for (i = 0; i < nt; i++)
        if (ts[i].live && ts[i].polling && ts[i].timeout < 0)
            for (k = 0; k < ts[i].nf; k++)
                if (ts[i].f[k].far >= 0) {
                    __real_close (ts[i].f[k].far);
                    ts[i].f[k].far = -1;
                    return 1;
                }
    return 0;
}

static void
jump (uint64_t from, uint64_t to)
{
    int i;

    for (i = 0; i < nt; i++)
        if (ts[i].live && ts[i].polling && ts[i].timeout >= 0)
            VP_CHECK (ts[i].start + ts[i].timeout * 1000000ull >= to, "late",
                      "the system idles past the timeout of a poll");
}

/* the system's poll fails at times, e.g. for lack of memory */
static int
force (const char *op, int fd, ssize_t *ret, int *err)
{
    HevTask *self = hev_task_self ();
    int i;

    for (i = 0; i < nt; i++) {
        if (ts[i].h != self || !ts[i].polling)
            continue;
        VP_CHECK (!ts[i].failed, "error-ignored",
                  "poll goes on after the system's poll has failed");
        ts[i].polls++;
        if (!vp_chance (2))
            return 0;
        ts[i].failed = vp_chance (50) ? ENOMEM : EINVAL;
        vp_ev (ts[i].polls > 1 ? "errors after waiting" : "errors at once");
        *ret = -1;
        *err = ts[i].failed;
        return 1;
    }
    return 0;
}

/* makes up a new descriptor */
static void
fresh (T *t)
{
    F *f = &t->f[t->nf++];
    int fd[2], sz = 4096;

    f->kind = vp_range (20) < 19 ? vp_range (3) : 3;
    switch (f->kind) {
    case 0:
        vp_pipe (fd);
        f->fd = fd[0];
        f->far = fd[1];
        break;
    case 1:
        vp_pipe (fd);
        __real_fcntl (fd[1], F_SETPIPE_SZ, 4096);
        f->fd = fd[1];
        f->far = fd[0];
        break;
    case 2:
        vp_pair (fd);
        setsockopt (fd[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
        f->fd = fd[0];
        f->far = fd[1];
        break;
    default:
        f->fd = __real_open ("/etc/passwd", O_RDONLY);
        if (f->fd < 0)
            f->fd = __real_open ("/proc/self/exe", O_RDONLY);
        f->far = -1;
    }
    VP_HARNESS (f->fd >= 0);
}

static void
drop (T *t, int i)
{
    close (t->f[i].fd);
    if (t->f[i].far >= 0)
        __real_close (t->f[i].far);
    t->f[i] = t->f[--t->nf];
}

/* changes readiness from the near end, too */
static void
use (T *t)
{
    char buf[9000];
    F *f;

    if (!t->nf)
        return;
    f = &t->f[vp_range (t->nf)];
    memset (buf, 7, sizeof (buf));
    if (f->kind == 2 && vp_chance (20))
        __real_recv (f->fd, buf, 1, MSG_OOB);
    if (f->kind == 0 || (f->kind == 2 && vp_chance (50)))
        __real_read (f->fd, buf, sizeof (buf));
    else if (f->kind)
        while (__real_write (f->fd, buf, vp_chance (70) ? 4096 : 1) > 0)
            if (vp_chance (10))
                break;
}

static void
do_poll (T *t)
{
    static const short evs[] = { POLLIN,  POLLOUT, POLLIN | POLLOUT, POLLIN, 0,
                                 POLLIN,  POLLOUT, POLLIN | POLLOUT, POLLIN, 0,
                                 POLLPRI, POLLRDNORM, POLLWRNORM, POLLRDHUP,
                                 POLLPRI | POLLRDHUP, POLLWRBAND,
                                 POLLPRI | POLLOUT };
    struct pollfd now[MAXP], was[MAXP];
    int i, n, res, real, infinite_ok = 0, quiet;
    char buf[4096];
    uint64_t t0 = turn, el;

    t->nset = 0;
    quiet = t->maxf == MAXF && vp_chance (70);
    for (i = 0; quiet && i < t->nf; i++)
        while (__real_read (t->f[i].fd, buf, sizeof (buf)) > 0)
            ;
    n = vp_range (6);
    if (vp_chance (t->maxf == MAXF ? 60 : 10))
        n = t->maxf == MAXF ? vp_range (MAXP) : t->maxp - 1;
    for (i = 0; i < n; i++) {
        struct pollfd *p = &t->set[t->nset++];
        if (!t->nf || vp_chance (7)) {
            p->fd = -1 - (int)vp_range (3);
        } else {
            F *f = &t->f[vp_range (t->nf)];
            p->fd = f->fd;
            if (quiet && (f->kind == 1 || f->kind == 3 || f->far < 0))
                p->fd = -1;
            if (f->far >= 0 && p->fd >= 0)
                infinite_ok = 1;
        }
        p->events = evs[vp_range (ARRAY_LEN (evs))];
        if (quiet)
            p->events = POLLIN;
        p->revents = vp_rnd ();
    }
    if (vp_chance (2)) {
        struct pollfd *p = &t->set[t->nset++];
        p->fd = 3000 + vp_range (5); /* not open */
        p->events = POLLIN;
    }
    t->timeout = vp_chance (20) ? 0 :
                 vp_chance (40) && infinite_ok ? -1 - (int)vp_range (2) :
                                                 1 + vp_range (50);
    memcpy (was, t->set, t->nset * sizeof (was[0]));
    t->start = vp_now;
    t->wakes = 0;
    t->polling = 1;
    t->failed = t->polls = 0;
    res = hev_task_io_poll (t->set, t->nset, t->timeout);
    t->polling = 0;
    if (t->failed) {
        VP_CHECK (res == -1, "error-lost",
                  "poll returned %d after the system's poll failed", res);
        return;
    }
    vp_scribble ();
    memcpy (now, was, t->nset * sizeof (now[0]));
    real = vp_poll (now, t->nset, 0);
    VP_CHECK (res == real, "result",
              "poll with timeout %d returned %d, the system's poll %d",
              t->timeout, res, real);
    for (i = 0; i < t->nset; i++) {
        VP_CHECK (t->set[i].fd == was[i].fd && t->set[i].events == was[i].events,
                  "set-changed", "poll changed the request");
        VP_CHECK (t->set[i].revents == now[i].revents, "events",
                  "poll reports %x, the system's poll %x", t->set[i].revents,
                  now[i].revents);
    }
    el = vp_now - t->start;
    if (res == 0) {
        uint64_t want = t->timeout * 1000000ull;
        uint64_t slack = (t->wakes + 1) * 1000000ull;
        VP_CHECK (t->timeout >= 0, "no-timeout",
                  "poll without timeout returned 0");
        if (!t->wakes)
            slack = 0;
        VP_CHECK (el + slack >= want, "early",
                  "poll returned 0 after %lu ns, timeout %d ms, %lu wakes",
                  (unsigned long)el, t->timeout, (unsigned long)t->wakes);
        vp_ev (t->timeout ? "time-outs" : "immediate polls, none ready");
    } else {
        for (i = 0; i < t->nset; i++)
            if (t->set[i].revents & POLLPRI)
                vp_ev ("urgent data reported");
            else if (t->set[i].revents & POLLRDHUP)
                vp_ev ("half-closed peers reported");
        vp_ev (t->timeout == 0 ? "immediate polls, some ready" :
               turn == t0 && el == 0 ? "ready at once" :
                                       "ready after waiting");
    }
    if (t->timeout == 0)
        VP_CHECK (turn == t0 && el == 0, "waited", "poll with timeout 0 waited");
    if (n > 10)
        vp_ev (turn == t0 && el == 0 ? "polls of many descriptors" :
                                       "waits for many descriptors");
    vp_mix (res * 16 + (t->timeout > 0) + el);
}

static void
entry (void *data)
{
    T *t = data;

    while (t->quota--) {
        do {
            if (t->nf < t->maxf && (!t->nf || vp_chance (25)))
                fresh (t);
        } while (t->maxf == MAXF && vp_chance (95));
        if (t->nf && vp_chance (8))
            drop (t, vp_range (t->nf));
        if (vp_chance (40))
            use (t);
        do_poll (t);
        turn++;
        if (vp_chance (20)) {
            hev_task_yield (HEV_TASK_YIELD);
            turn++;
        }
    }
    while (t->nf)
        drop (t, 0);
    t->live = 0;
    live--;
}

static void
noise (void *data)
{
    int n = vp_range (60);

    while (n-- && live) {
        T *t = &ts[vp_range (nt)];
        turn++;
        if (t->live && vp_chance (50)) {
            t->wakes++;
            hev_task_wakeup (t->h);
            vp_ev ("unrelated wake-ups");
        }
        if (vp_chance (50))
            hev_task_sleep (1 + vp_range (10));
        else
            hev_task_yield (HEV_TASK_YIELD);
    }
}

static void
w_poll (uint64_t n)
{
    uint64_t a[16], b[16];
    int i;

    signal (SIGPIPE, SIG_IGN);
    vp_fd_snapshot (a);
    vp_vt_start (1000000000ull + vp_range (1000000000));
    vp_shuffle = vp_chance (50);
    vp_poll_hook = poll_hook;
    vp_idle_hook = idle;
    vp_jump_hook = jump;
    vp_sys_force = vp_chance (30) ? force : NULL;
    vp_dead_key = "missed-ready";
    suspicious = live = 0;
    turn = 0;
    memset (ts, 0, sizeof (ts));
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    nt = 1 + vp_range (MAXT);
    for (i = 0; i < nt; i++) {
        ts[i].h = hev_task_new (131072);
        VP_HARNESS (ts[i].h);
        hev_task_ref (ts[i].h);
        ts[i].live = 1;
        ts[i].maxf = 6;
        ts[i].maxp = 10;
        if (i == 0 && vp_chance (2)) {
            ts[i].maxf = MAXF;
            ts[i].maxp = MAXP;
        }
        ts[i].quota = 4 + vp_range (20);
        live++;
    }
    for (i = 0; i < nt; i++)
        hev_task_run (ts[i].h, entry, &ts[i]);
    if (vp_chance (50))
        hev_task_run (hev_task_new (65536), noise, NULL);
    hev_task_system_run ();
    VP_CHECK (live == 0, "run", "%d tasks left", live);
    for (i = 0; i < nt; i++)
        hev_task_unref (ts[i].h);
    hev_task_system_fini ();
    vp_vt_stop ();
    vp_fd_snapshot (b);
    VP_CHECK (!memcmp (a, b, sizeof (a)), "fd-leak", "descriptors %s",
              vp_fd_diff_str (a, b));
    vp_nontrivial ();
    vp_sample ("%d polling tasks", nt);
}

static const VpWork works[] = {
    { "poll", w_poll },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    vp_sig_own = 1; /* poll itself may be interrupted */
    return vp_main (argc, argv, works);
}
