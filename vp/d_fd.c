/* Descriptor registrations: which readiness wakes which task. */
#define _GNU_SOURCE
#include "vp.h"
#include <signal.h>
#include <sys/eventfd.h>
#include <sys/resource.h>
#include <hev-task-system.h>
#include <hev-task.h>

#define MAXT 10
#define MAXF 40

typedef struct
{
    int fd;   /* -1: closed */
    int peer; /* index, -1: none */
    int kind; /* 0 pipe read end, 1 pipe write end, 2 socket, 3 eventfd */
    int owner; /* -1: not registered */
    unsigned mask;
    unsigned prev; /* readiness as last seen */
    int must;
    uint64_t must_turn;
} F;

typedef struct
{
    HevTask *h;
    int live, waiting, allowed;
    int ctl; /* index of the read side of the control socket */
    int quota;
} T;

static F fs[MAXF];
static T ts[MAXT];
static int nf, nt, cur, active, batch;
static uint64_t turn, n_waits, n_edges;
static unsigned idle_rounds;

#define ALWAYS (POLLERR | POLLHUP)
#define RARE \
    (POLLPRI | POLLRDHUP | POLLRDNORM | POLLWRNORM | POLLRDBAND | POLLWRBAND)

static unsigned
ready (int i)
{
    struct pollfd p;

    if (fs[i].fd < 0)
        return 0;
    p.fd = fs[i].fd;
    p.events = POLLIN | POLLOUT | RARE;
    p.revents = 0;
    VP_HARNESS (vp_poll (&p, 1, 0) >= 0);
    return p.revents;
}

static void
see (int i, int fresh)
{
    F *f = &fs[i];
    unsigned r = ready (i), rel, edge;

    if (fresh)
        f->prev = 0;
    rel = f->mask | ALWAYS;
    edge = r & ~f->prev & rel;
    f->prev = r;
    if (f->owner < 0)
        return;
    if (r & rel) {
        ts[f->owner].allowed = 1;
    } else {
        f->must = 0;
    }
    if (edge && (ts[f->owner].waiting || f->owner == cur)) {
        if (!f->must)
            f->must_turn = turn;
        f->must = 1;
        n_edges++;
        vp_ev (edge & ALWAYS ? "error or hang-up edges" :
               f->mask & RARE ? "edges with rare events" :
                                "readiness edges");
    }
}

static void
touched (int i)
{
    see (i, 0);
    if (fs[i].peer >= 0)
        see (fs[i].peer, 0);
}

static void
unregister (int i)
{
    fs[i].owner = -1;
    fs[i].mask = 0;
    fs[i].must = 0;
}

static int
new_slot (int fd, int kind)
{
    int i;

    for (i = 0; i < nf; i++)
        if (fs[i].fd < 0 && fs[i].peer < 0)
            break;
    if (i == nf) {
        VP_HARNESS (nf < MAXF);
        nf++;
    }
    memset (&fs[i], 0, sizeof (fs[i]));
    fs[i].fd = fd;
    fs[i].kind = kind;
    fs[i].peer = -1;
    fs[i].owner = -1;
    return i;
}

static void
make_pair (int kind)
{
    int p[2], a, b;

    if (kind == 0) {
        VP_HARNESS (__real_pipe2 (p, O_NONBLOCK) == 0);
        /* one page: easy to fill */
        __real_fcntl (p[1], F_SETPIPE_SZ, 4096);
        a = new_slot (p[0], 0);
        b = new_slot (p[1], 1);
    } else if (kind == 3) {
        p[0] = eventfd (0, EFD_NONBLOCK);
        VP_HARNESS (p[0] >= 0);
        a = new_slot (p[0], 3);
        fs[a].prev = ready (a);
        return;
    } else {
        VP_HARNESS (__real_socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0,
                                       p) == 0);
        int sz = 4096;
        setsockopt (p[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
        setsockopt (p[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
        a = new_slot (p[0], 2);
        b = new_slot (p[1], 2);
    }
    fs[a].peer = b;
    fs[b].peer = a;
    fs[a].prev = ready (a);
    fs[b].prev = ready (b);
}

static char junk[65536];

static void
activity (int i)
{
    F *f = &fs[i];
    int k = vp_range (20);

    if (f->fd < 0 || i < nt * 2)
        return;
    if (k < 1 && f->kind != 3) {
        /* close this end, perhaps make a new pair with the same numbers */
        int peer = f->peer;

        VP_HARNESS (__real_close (f->fd) == 0);
        unregister (i);
        f->fd = -1;
        if (peer >= 0) {
            f->peer = -1;
            fs[peer].peer = -1;
            see (peer, 0);
            if (vp_chance (50)) {
                VP_HARNESS (__real_close (fs[peer].fd) == 0);
                unregister (peer);
                fs[peer].fd = -1;
            }
        }
        if (nf < MAXF - 2 && vp_chance (70))
            make_pair (vp_range (3) ? vp_range (2) * 2 : 3);
        vp_ev ("descriptors closed");
        return;
    }
    if (k < 3 && f->kind == 2) {
        shutdown (f->fd, vp_range (3));
        /* the kernel tells the other end only */
        f->prev = ready (i);
        vp_ev ("shutdowns");
    } else if (k < 11) {
        if (f->kind == 3) {
            uint64_t one = 1 + vp_range (3);
            __real_write (f->fd, &one, 8);
        } else if (f->kind != 0) {
            if (vp_chance (30))
                while (send (f->fd, junk, 4096, MSG_NOSIGNAL) > 0 ||
                       (f->kind == 1 && __real_write (f->fd, junk, 512) > 0))
                    ;
            else if (f->kind == 1)
                __real_write (f->fd, junk, 1 + vp_range (200));
            else
                send (f->fd, junk, 1 + vp_range (200),
                      MSG_NOSIGNAL | (vp_chance (15) ? MSG_OOB : 0));
        }
    } else {
        if (f->kind != 1) {
            if (f->kind == 2 && vp_chance (20))
                recv (f->fd, junk, 1, MSG_OOB);
            else if (vp_chance (70))
                while (__real_read (f->fd, junk, sizeof (junk)) > 0)
                    ;
            else
                __real_read (f->fd, junk, f->kind == 3 ? 8 : 1 + vp_range (300));
        }
    }
    touched (i);
}

static unsigned
some_mask (void)
{
    switch (vp_range (10)) {
    case 8:
        return vp_rnd () & (POLLIN | POLLOUT | RARE);
    case 9:
        return (int[]){ POLLPRI, POLLRDHUP, POLLRDNORM,
                        POLLWRNORM }[vp_range (4)];
    case 0:
        return 0;
    case 1:
    case 2:
        return POLLOUT;
    case 3:
    case 4:
        return POLLIN | POLLOUT;
    default:
        return POLLIN;
    }
}

static int
live_task (void)
{
    int i, k;

    for (k = 0; k < 8; k++) {
        i = vp_range (nt);
        if (ts[i].live)
            return i;
    }
    return cur;
}

static void
registration (int i)
{
    F *f = &fs[i];
    int res, who;
    unsigned mask = some_mask ();

    if (f->fd < 0) {
        int bad = vp_chance (50) ? -1 : 3000;
        res = vp_chance (50) ? hev_task_add_fd (ts[cur].h, bad, mask) :
                               hev_task_mod_fd (ts[cur].h, bad, mask);
        VP_CHECK (res == -1, "bad-fd", "registering a bad descriptor: %d", res);
        VP_CHECK (hev_task_del_fd (ts[cur].h, bad) == -1, "bad-fd",
                  "removing a bad descriptor succeeded");
        vp_ev ("registration errors");
        return;
    }
    if (i < nt * 2)
        return; /* control sockets stay as they are */
    who = f->owner >= 0 ? f->owner : vp_chance (60) ? cur : live_task ();
    switch (vp_range (4)) {
    case 0:
    case 1:
        res = hev_task_add_fd (ts[who].h, f->fd, mask);
        if (f->owner >= 0) {
            VP_CHECK (res == -1, "add-twice", "second add returned %d", res);
            /* also on behalf of somebody else */
            res = hev_task_add_fd (ts[cur].h, f->fd, mask);
            VP_CHECK (res == -1, "add-twice", "second add returned %d", res);
            vp_ev ("registration errors");
            break;
        }
        VP_CHECK (res == 0, "add", "add returned %d errno %d", res, errno);
        f->owner = who;
        f->mask = mask;
        see (i, 1);
        vp_ev ("adds");
        break;
    case 2:
        res = hev_task_mod_fd (ts[who].h, f->fd, mask);
        if (f->owner < 0) {
            VP_CHECK (res == -1, "mod-none",
                      "changing an unregistered descriptor returned %d", res);
            vp_ev ("registration errors");
            break;
        }
        VP_CHECK (res == 0, "mod", "mod returned %d errno %d", res, errno);
        f->mask = mask;
        see (i, 1);
        vp_ev ("changes");
        break;
    default:
        res = hev_task_del_fd (ts[who].h, f->fd);
        if (f->owner < 0) {
            VP_CHECK (res == -1, "del-none",
                      "removing an unregistered descriptor returned %d", res);
            vp_ev ("registration errors");
            break;
        }
        VP_CHECK (res == 0, "del", "del returned %d errno %d", res, errno);
        unregister (i);
        vp_ev ("removes");
    }
}

static void
check_due (const char *where)
{
    int i;

    for (i = 0; i < nf; i++) {
        F *f = &fs[i];

        if (!f->must || f->owner < 0 || !ts[f->owner].waiting)
            continue;
        if (turn == f->must_turn)
            continue;
        vp_ev ("due wake-ups checked");
        if (!batch && turn - f->must_turn > 40) /* looked at now and then */
            VP_CHECK (hev_task_get_state (ts[f->owner].h) == HEV_TASK_RUNNING,
                      "lost-wake",
                      "task %d still waits although descriptor %d (events %x) "
                      "became ready (%x) %lu turns ago, %s",
                      f->owner, i, f->mask, f->prev,
                      (unsigned long)(turn - f->must_turn), where);
        VP_CHECK (turn - f->must_turn < 64u * MAXT, "lost-wake",
                  "task %d not served %lu turns after descriptor %d got ready",
                  f->owner, (unsigned long)(turn - f->must_turn), i);
    }
}

static void
resumed (int me, const char *where)
{
    int i;

    /* what became ready before this turn was there to be seen in it */
    for (i = 0; i < nf; i++)
        if (fs[i].owner == me)
            fs[i].must = 0;
    cur = me;
    turn++;
    vp_scribble ();
    check_due (where);
}

static void
do_wait (int me)
{
    T *t = &ts[me];
    int i;

    t->waiting = 1;
    t->allowed = 0;
    for (i = 0; i < nf; i++)
        if (fs[i].owner == me)
            see (i, 0);
    n_waits++;
    cur = -1;
    hev_task_yield (HEV_TASK_WAITIO);
    VP_CHECK (t->waiting, "double-resume", "task %d resumed twice", me);
    t->waiting = 0;
    resumed (me, "after a wait");
    VP_CHECK (t->allowed, "invented-wake",
              "task %d woke but no event it is registered for was ready", me);
    vp_mix (me);
    vp_ev ("wake-ups observed");
}

static void
entry (void *data)
{
    int me = (int)(intptr_t)data, i;
    T *t = &ts[me];

    resumed (me, "at start");
    VP_CHECK (hev_task_add_fd (t->h, fs[t->ctl].fd, POLLIN) == 0, "add",
              "control socket");
    fs[t->ctl].owner = me;
    fs[t->ctl].mask = POLLIN;
    see (t->ctl, 1);
    while (t->quota-- > 0) {
        int n = vp_range (6);

        while (n--) {
            i = vp_range (nf);
            if (vp_chance (60))
                activity (i);
            else
                registration (i);
        }
        if (vp_chance (40)) {
            hev_task_yield (HEV_TASK_YIELD);
            resumed (me, "after a yield");
            vp_mix (me + 100);
        } else {
            while (__real_read (fs[t->ctl].fd, junk, 64) > 0)
                ;
            touched (t->ctl);
            /* often make sure nothing is ready, so that an invented wake
             * stands out */
            if (vp_chance (70))
                for (i = nt * 2; i < nf; i++)
                    if (fs[i].owner == me && fs[i].fd >= 0) {
                        while (fs[i].kind != 1 &&
                               __real_read (fs[i].fd, junk, sizeof (junk)) > 0)
                            ;
                        touched (i);
                        if (ready (i) & (fs[i].mask | ALWAYS)) {
                            int res;
                            if (ready (i) & ALWAYS) {
                                res = hev_task_del_fd (t->h, fs[i].fd);
                                unregister (i);
                            } else {
                                res = hev_task_mod_fd (
                                    t->h, fs[i].fd, fs[i].mask & ~ready (i));
                                fs[i].mask &= ~ready (i);
                                see (i, 1);
                            }
                            VP_CHECK (res == 0, "mod", "%d", res);
                        }
                    }
            do_wait (me);
        }
    }
    for (i = 0; i < nf; i++)
        if (fs[i].owner == me) {
            if (vp_chance (50) || i < nt * 2) {
                VP_CHECK (hev_task_del_fd (t->h, fs[i].fd) == 0, "del",
                          "removing at the end");
                unregister (i);
            } else {
                int peer = fs[i].peer;
                __real_close (fs[i].fd);
                unregister (i);
                fs[i].fd = -1;
                fs[i].peer = -1;
                if (peer >= 0) {
                    fs[peer].peer = -1;
                    see (peer, 0);
                }
            }
        }
    t->live = 0;
    active--;
}

/* keeps the processor, and changes what is ready */
static void
busy (void *data)
{
    int n = 60 + vp_range (200);

    (void)data;
    while (n-- && active) {
        cur = -1;
        turn++;
        check_due ("while others are busy");
        if (vp_chance (6))
            activity (vp_range (nf));
        hev_task_yield (HEV_TASK_YIELD);
        vp_ev ("busy turns");
    }
}

/* every task waits and the kernel has nothing ready */
static int
idle (void)
{
    int i, w;

    cur = -1;
    for (i = 0; i < nf; i++)
        if (fs[i].owner >= 0 && ts[fs[i].owner].waiting && fs[i].must)
            vp_fail ("lost-wake",
                     "everything idle, but descriptor %d (events %x, ready %x) "
                     "of waiting task %d became ready",
                     i, fs[i].mask, fs[i].prev, fs[i].owner);
    vp_ev ("idle points checked");
    turn++;
    if (++idle_rounds < 4 && vp_chance (60)) {
        i = vp_range (nf);
        activity (i);
        return 1;
    }
    idle_rounds = 0;
    do {
        w = vp_range (nt);
    } while (!ts[w].live || !ts[w].waiting);
    i = fs[ts[w].ctl].peer;
    VP_HARNESS (send (fs[i].fd, "x", 1, MSG_NOSIGNAL) == 1);
    touched (i);
    return 1;
}

static void
w_fd (uint64_t n)
{
    int i, k;
    uint64_t before[16], after[16];

    memset (fs, 0, sizeof (fs));
    memset (ts, 0, sizeof (ts));
    nf = turn = n_waits = n_edges = idle_rounds = 0;
    vp_fd_snapshot (before);
    vp_vt_start (1000000000ull);
    vp_dead_key = "lost-wake";
    vp_idle_hook = idle;
    batch = vp_shuffle = vp_chance (40);
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    nt = active = 1 + vp_range (vp_chance (30) ? MAXT : 4);
    for (i = 0; i < nt; i++)
        make_pair (2);
    k = 1 + vp_range (6);
    for (i = 0; i < k && nf < MAXF - 4; i++)
        make_pair ((int[]){ 0, 0, 2, 2, 3 }[vp_range (5)]);
    for (i = 0; i < nt; i++) {
        ts[i].h = hev_task_new (65536);
        VP_HARNESS (ts[i].h);
        hev_task_ref (ts[i].h);
        ts[i].live = 1;
        ts[i].ctl = i * 2;
        ts[i].quota = 2 + vp_range (25);
    }
    for (i = 0; i < nt; i++)
        hev_task_run (ts[i].h, entry, (void *)(intptr_t)i);
    if (vp_chance (15))
        for (i = 1 + vp_range (3); i > 0; i--)
            hev_task_run (hev_task_new (65536), busy, NULL);
    cur = -1;
    hev_task_system_run ();
    VP_CHECK (active == 0, "run-early", "%d tasks left", active);
    for (i = 0; i < nt; i++)
        hev_task_unref (ts[i].h);
    hev_task_system_fini ();
    for (i = 0; i < nf; i++)
        if (fs[i].fd >= 0)
            __real_close (fs[i].fd);
    vp_vt_stop ();
    vp_fd_snapshot (after);
    VP_HARNESS (!memcmp (before, after, sizeof (before)));
    if (n_waits && n_edges)
        vp_nontrivial ();
    vp_sample ("%d tasks, %d descriptors, %lu waits, %lu edges", nt, nf,
               (unsigned long)n_waits, (unsigned long)n_edges);
}

/* many descriptors ready in one go, more than any one batch holds */
#define MAXB 2300
static struct
{
    HevTask *h;
    int fd, waiting, due, turns;
} bs[MAXB];
static int nb, stop, yielder;

static int
burst_fire (void)
{
    int i, k, n = 0, all = vp_chance (50);
    uint64_t one = 1;

    k = vp_range (nb);
    for (i = 0; i < nb; i++) {
        int j = (i * 7 + k) % nb;
        if (nb % 7 == 0)
            j = (i + k) % nb;
        if (!bs[j].waiting || bs[j].due || (!all && vp_chance (50)))
            continue;
        VP_HARNESS (__real_write (bs[j].fd, &one, 8) == 8);
        bs[j].due = 1;
        n++;
    }
    vp_evn ("descriptors fired in bursts", n);
    return n;
}

static void
burst_task (void *data)
{
    int me = (int)(intptr_t)data;
    uint64_t v;

    VP_CHECK (hev_task_add_fd (bs[me].h, bs[me].fd, POLLIN) == 0, "add", "add");
    for (;;) {
        bs[me].waiting = 1;
        hev_task_yield (HEV_TASK_WAITIO);
        bs[me].waiting = 0;
        VP_CHECK (bs[me].due, "invented-wake",
                  "task %d of %d woke, its descriptor is not ready", me, nb);
        VP_HARNESS (__real_read (bs[me].fd, &v, 8) == 8);
        bs[me].due = 0;
        bs[me].turns++;
        vp_ev ("wake-ups observed");
        if (stop)
            break;
    }
    VP_CHECK (hev_task_del_fd (bs[me].h, bs[me].fd) == 0, "del", "del");
    active--;
}

static void
burst_driver (void *data)
{
    int n = 1 + vp_range (4), i;

    (void)data;
    hev_task_yield (HEV_TASK_YIELD);
    while (n--) {
        burst_fire ();
        if (!vp_shuffle && nb <= 500) {
            for (i = 0; i < 64; i++) /* a batch may be smaller */
                hev_task_yield (HEV_TASK_YIELD);
            for (i = 0; i < nb; i++)
                VP_CHECK (!bs[i].waiting || !bs[i].due ||
                              hev_task_get_state (bs[i].h) == HEV_TASK_RUNNING,
                          "lost-wake",
                          "descriptor of task %d of %d was ready 64 turns ago",
                          i, nb);
        }
        for (i = vp_range (20); i > 0; i--)
            hev_task_yield (HEV_TASK_YIELD);
    }
    yielder = 0;
    active--;
}

static int
burst_idle (void)
{
    int i;

    for (i = 0; i < nb; i++)
        VP_CHECK (!bs[i].due, "lost-wake",
                  "everything idle, but the descriptor of task %d of %d is "
                  "ready",
                  i, nb);
    vp_ev ("idle points checked");
    if (vp_chance (40))
        stop = 1;
    while (!burst_fire ())
        ;
    return 1;
}

static void
w_burst (uint64_t n)
{
    HevTask *d = NULL;
    int i;

    vp_vt_start (1000000000ull);
    vp_dead_key = "lost-wake";
    vp_idle_hook = burst_idle;
    vp_shuffle = vp_chance (30);
    stop = yielder = 0;
    nb = vp_case % 40 == 0 ? 1000 + vp_range (1300) : 2 + vp_range (120);
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    if (vp_chance (60)) {
        d = hev_task_new (65536);
        yielder = 1;
    }
    active = nb + yielder;
    for (i = 0; i < nb; i++) {
        memset (&bs[i], 0, sizeof (bs[i]));
        bs[i].fd = eventfd (0, EFD_NONBLOCK);
        VP_HARNESS (bs[i].fd >= 0);
        bs[i].h = hev_task_new (8192);
        VP_HARNESS (bs[i].h);
        hev_task_run (bs[i].h, burst_task, (void *)(intptr_t)i);
    }
    if (d)
        hev_task_run (d, burst_driver, NULL);
    hev_task_system_run ();
    VP_CHECK (active == 0, "run-early", "%d tasks left", active);
    hev_task_system_fini ();
    for (i = 0; i < nb; i++) {
        __real_close (bs[i].fd);
        vp_mix (bs[i].turns);
    }
    vp_vt_stop ();
    vp_nontrivial ();
    vp_sample ("%d tasks with one descriptor each", nb);
}

static const VpWork works[] = {
    { "burst", w_burst },
    { "fd", w_fd },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    struct rlimit rl;

    signal (SIGPIPE, SIG_IGN);
    getrlimit (RLIMIT_NOFILE, &rl);
    if (rl.rlim_cur < 4000) {
        rl.rlim_cur = rl.rlim_max < 4000 ? rl.rlim_max : 4000;
        setrlimit (RLIMIT_NOFILE, &rl);
    }
    VP_HARNESS (rl.rlim_cur > 2400);
    return vp_main (argc, argv, works);
}
