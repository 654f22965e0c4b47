/* Splicing between two descriptor pairs (C18).  All far ends are driven
 * directly, outside the library, whenever the scheduler polls. */
#include "vp.h"
#include <signal.h>
#include <hev-task-system.h>
#include <hev-task.h>
#include <hev-task-io.h>

#define MAXS 3

typedef struct
{
    int src, in;   /* far end that supplies, descriptor spliced from */
    int out, dst;  /* descriptor spliced to, far end that drains */
    uint64_t fed, drained;
    int ended, broken; /* the supply ended, the drain was closed */
    int lazy;      /* percent of chances to drain that are not taken */
    uint64_t limit;
} D;

typedef struct
{
    HevTask *h;
    int fd[4];     /* a_i a_o b_i b_o */
    int same;      /* 2: both pairs are one descriptor, 1: one, 0: none */
    D d[2];        /* a -> b, b -> a */
    int running, started, stop_at, ycalls, stopped, use_yielder;
    size_t buf_size;
    int far[4], nfar;
} S;

static S ss[MAXS];
static int ns, running, suspicious, bulk, hangups;

static unsigned char
byte_at (S *s, int dir, uint64_t pos)
{
    return vp_hash64 ((s - ss) * 2 + dir + 300, pos);
}

static int
feed (S *s, int k)
{
    unsigned char buf[8192];
    D *d = &s->d[k];
    size_t n, i;
    ssize_t r;

    if (d->ended || d->src < 0)
        return 0;
    if (d->fed >= d->limit || d->broken) {
        if (s->fd[0] != s->fd[1] && k == 0)
            __real_close (d->src), d->src = -1;
        else if (s->fd[2] != s->fd[3] && k == 1)
            __real_close (d->src), d->src = -1;
        else
            shutdown (d->src, SHUT_WR);
        d->ended = 1;
        vp_ev ("inputs ended");
        return 1;
    }
    n = 1 + (bulk ? vp_range (sizeof (buf)) : vp_range (300));
    if (n > d->limit - d->fed)
        n = d->limit - d->fed;
    for (i = 0; i < n; i++)
        buf[i] = byte_at (s, k, d->fed + i);
    r = __real_write (d->src, buf, n);
    if (r <= 0)
        return 0;
    d->fed += r;
    return 1;
}

static int
drain (S *s, int k)
{
    unsigned char buf[8192];
    D *d = &s->d[k];
    ssize_t r;
    size_t i;

    if (d->broken || d->dst < 0)
        return 0;
    r = __real_read (d->dst, buf,
                     bulk ? sizeof (buf) : 1 + vp_range (300));
    if (r <= 0)
        return 0;
    for (i = 0; i < (size_t)r; i++)
        VP_CHECK (buf[i] == byte_at (s, k, d->drained + i), "data",
                  "byte %lu delivered in direction %d is wrong",
                  (unsigned long)(d->drained + i), k);
    d->drained += r;
    VP_CHECK (d->drained <= d->fed, "data", "%lu bytes delivered of %lu",
              (unsigned long)d->drained, (unsigned long)d->fed);
    vp_evn ("bytes delivered", r);
    return 1;
}

/* the far end that drains goes away */
static void
hangup (S *s, int k)
{
    D *d = &s->d[k], *o = &s->d[1 - k];

    if (d->broken)
        return;
    __real_close (d->dst);
    if (o->src == d->dst) {
        o->src = -1;
        o->ended = 1;
    }
    d->dst = -1;
    d->broken = 1;
    vp_ev ("outputs broken");
}

static uint64_t
undelivered (D *d)
{
    int n = 0;

    if (d->broken || d->dst < 0)
        return 0;
    __real_ioctl (d->dst, FIONREAD, &n);
    return d->fed - d->drained - n;
}

static void
poll_hook (int timeout)
{
    S *s = &ss[vp_range (ns)];
    int k = vp_range (2);

    if (!s->started || !s->running || vp_chance (40))
        return;
    if (vp_chance (50))
        feed (s, k);
    else if (!vp_chance (s->d[k].lazy))
        drain (s, k);
    if (hangups && vp_chance (2))
        hangup (s, k);
}

/* 1: this splice has nothing left to do and has to end */
static int
must_end (S *s)
{
    int e0 = s->d[0].ended && !undelivered (&s->d[0]);
    int e1 = s->d[1].ended && !undelivered (&s->d[1]);

    if (s->same)
        return e0 || e1;
    return e0 && e1;
}

static int
idle (void)
{
    int i, k, t, bad = 0;
    char why[120] = "";

    for (i = 0; i < ns; i++) {
        S *s = &ss[i];
        if (!s->running || !s->started)
            continue;
        for (k = 0; k < 2; k++) {
            D *d = &s->d[k];
            if (undelivered (d) && vp_writable (d->out)) {
                bad = 1;
                snprintf (why, sizeof (why),
                          "direction %d of splice %d stalls with %lu bytes "
                          "although its output has room",
                          k, i, (unsigned long)undelivered (d));
            }
        }
        if (must_end (s)) {
            bad = 1;
            snprintf (why, sizeof (why), "splice %d goes on after the end", i);
        }
    }
    if (bad) {
        if (suspicious++ > 20)
            vp_fail ("stall", "%s", why);
        usleep (500);
        return 1;
    }
    suspicious = 0;
    vp_ev ("idle points checked");
    for (t = 0; t < 2; t++)
        for (i = 0; i < ns; i++)
            for (k = 0; k < 2; k++) {
                S *s = &ss[i];
                if (!s->running)
                    continue;
                if (t == 0 && vp_chance (50))
                    continue;
                if ((vp_chance (50) && feed (s, k)) || drain (s, k) ||
                    feed (s, k))
                    return 1;
            }
    return 0;
}

static int
yielder_body (HevTaskYieldType type, void *data)
{
    S *s = data;

    VP_CHECK (s >= ss && s < ss + ns && hev_task_self () == s->h, "yielder",
              "wrong data or task");
    VP_CHECK (type == HEV_TASK_YIELD || type == HEV_TASK_WAITIO, "yielder",
              "type %d", type);
    VP_CHECK (!s->stopped, "yielder", "called after it asked to stop");
    s->ycalls++;
    if (s->stop_at && s->ycalls >= s->stop_at) {
        s->stopped = 1;
        vp_ev ("yielder stops");
        return 1;
    }
    hev_task_yield (type);
    return 0;
}

VP_YIELDER (yielder)

static void
entry (void *data)
{
    S *s = data;
    uint64_t before[16], after[16];
    size_t live0 = vp_track_live ();
    int i, alone = ns == 1;

    if (s->fd[0] == s->fd[1]) {
        hev_task_add_fd (s->h, s->fd[0], POLLIN | POLLOUT);
    } else {
        hev_task_add_fd (s->h, s->fd[0], POLLIN);
        hev_task_add_fd (s->h, s->fd[1], POLLOUT);
    }
    if (s->fd[2] == s->fd[3]) {
        hev_task_add_fd (s->h, s->fd[2], POLLIN | POLLOUT);
    } else {
        hev_task_add_fd (s->h, s->fd[2], POLLIN);
        hev_task_add_fd (s->h, s->fd[3], POLLOUT);
    }
    live0 = vp_track_live ();
    vp_fd_snapshot (before);
    s->started = 1;
    if (s->use_yielder)
        vp_y (s->h, 1);
    hev_task_io_splice (s->fd[0], s->fd[1], s->fd[2], s->fd[3], s->buf_size,
                        s->use_yielder ? yielder : NULL, s);
    if (s->use_yielder)
        vp_y (s->h, 0);
    s->started = 0;
    vp_scribble ();
    vp_fd_snapshot (after);
    for (i = 0; i < 4; i++)
        VP_CHECK (__real_fcntl (s->fd[i], F_GETFD) >= 0, "closed",
                  "descriptor %d of the caller was closed", i);
    if (alone) {
        for (i = 0; i < 16; i++)
            VP_CHECK (!(after[i] & ~before[i]), "fd-leak", "descriptors %s",
                      vp_fd_diff_str (before, after));
        if (vp_param)
            VP_CHECK (vp_track_live () <= live0, "leak",
                      "%zu blocks before, %zu after", live0, vp_track_live ());
    }
    bulk = 1;
    for (i = 0; i < 2; i++)
        while (drain (s, i))
            ;
    vp_mix (s->d[0].drained * 3 + s->d[1].drained);
    if (!s->stopped) {
        int over[2];
        for (i = 0; i < 2; i++) {
            over[i] = s->d[i].ended || s->d[i].broken;
            if (s->d[i].ended && !s->d[i].broken && s->same == 0)
                VP_CHECK (s->d[i].drained == s->d[i].fed, "lost",
                          "direction %d: %lu bytes supplied, %lu delivered", i,
                          (unsigned long)s->d[i].fed,
                          (unsigned long)s->d[i].drained);
        }
        if (s->same == 0)
            VP_CHECK (over[0] && over[1], "early-end",
                      "splicing ended while direction %d was open",
                      over[0] ? 1 : 0);
        else
            VP_CHECK ((s->d[0].ended && s->d[0].drained == s->d[0].fed) ||
                          (s->d[1].ended && s->d[1].drained == s->d[1].fed) ||
                          s->d[0].broken || s->d[1].broken,
                      "lost",
                      "splicing ended, delivered %lu of %lu (ended %d) and %lu "
                      "of %lu (ended %d)",
                      (unsigned long)s->d[0].drained,
                      (unsigned long)s->d[0].fed, s->d[0].ended,
                      (unsigned long)s->d[1].drained,
                      (unsigned long)s->d[1].fed, s->d[1].ended);
        vp_ev ("splices to the end");
    }
    s->running = 0;
    running--;
    for (i = 0; i < 4; i++) {
        if (i % 2 && s->fd[i] == s->fd[i - 1])
            continue;
        VP_CHECK (hev_task_del_fd (s->h, s->fd[i]) == 0, "registration",
                  "descriptor %d of the caller lost its registration", i);
        close (s->fd[i]);
    }
    for (i = 0; i < 2; i++) {
        if (s->d[i].src >= 0)
            __real_close (s->d[i].src);
        if (s->d[i].dst >= 0 && s->d[i].dst != s->d[1 - i].src)
            __real_close (s->d[i].dst);
    }
}

static void
noise (void *data)
{
    int n = vp_range (80);

    while (n-- && running) {
        S *s = &ss[vp_range (ns)];
        if (s->running && vp_chance (50)) {
            hev_task_wakeup (s->h);
            vp_ev ("unrelated wake-ups");
        }
        hev_task_yield (HEV_TASK_YIELD);
    }
}

/* one side: one socket, or a pipe for each direction */
static void
side (S *s, int i, int sock)
{
    int fd[2], sz = 4096;
    D *from = &s->d[i], *to = &s->d[1 - i];

    if (sock) {
        vp_pair (fd);
        if (vp_chance (70)) {
            setsockopt (fd[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
            setsockopt (fd[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
        }
        s->fd[i * 2] = s->fd[i * 2 + 1] = fd[0];
        from->src = to->dst = fd[1];
        s->same++;
    } else {
        vp_pipe (fd);
        s->fd[i * 2] = fd[0];
        from->src = fd[1];
        vp_pipe (fd);
        if (vp_chance (70))
            __real_fcntl (fd[1], F_SETPIPE_SZ, 4096);
        s->fd[i * 2 + 1] = fd[1];
        to->dst = fd[0];
    }
    from->in = s->fd[i * 2];
    to->out = s->fd[i * 2 + 1];
}

static void
w_splice (uint64_t n)
{
    uint64_t a[16], b[16];
    int i, k;

    signal (SIGPIPE, SIG_IGN);
    vp_track_reset ();
    vp_track = 1;
    vp_fd_snapshot (a);
    vp_vt_start (1000000000ull);
    vp_shuffle = vp_chance (50);
    vp_eagain_pct = vp_chance (50) ? vp_range (40) : 0;
    vp_short_pct = vp_chance (50) ? vp_range (60) : 0;
    vp_poll_hook = poll_hook;
    vp_idle_hook = idle;
    vp_close_monitor = 1;
    vp_dead_key = "stall";
    suspicious = running = 0;
    bulk = vp_chance (60);
    hangups = vp_chance (15);
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    ns = 1 + vp_range (MAXS);
    memset (ss, 0, sizeof (ss));
    for (i = 0; i < ns; i++) {
        S *s = &ss[i];
        side (s, 0, vp_chance (60));
        side (s, 1, vp_chance (60));
        for (k = 0; k < 2; k++) {
            s->d[k].lazy = vp_range (100);
            s->d[k].limit = vp_chance (10) ? 0 :
                            bulk           ? vp_range (200000) :
                                             vp_range (3000);
        }
        s->buf_size = vp_chance (30) ? 1 + vp_range (16) :
                                       1 + vp_range (9000);
        if (!bulk)
            s->buf_size = 1 + s->buf_size % 700;
        else if (s->buf_size < 500)
            s->buf_size += 500;
        s->use_yielder = vp_chance (50);
        if (vp_chance (30))
            s->stop_at = 1 + vp_range (300);
        s->h = hev_task_new (65536);
        VP_HARNESS (s->h);
        hev_task_ref (s->h);
        s->running = 1;
        running++;
    }
    for (i = 0; i < ns; i++)
        hev_task_run (ss[i].h, entry, &ss[i]);
    if (vp_chance (50))
        hev_task_run (hev_task_new (65536), noise, NULL);
    hev_task_system_run ();
    VP_CHECK (running == 0, "run", "%d splices left", running);
    for (i = 0; i < ns; i++)
        hev_task_unref (ss[i].h);
    hev_task_system_fini ();
    vp_vt_stop ();
    vp_eagain_pct = vp_short_pct = 0;
    vp_track = 0;
    vp_fd_snapshot (b);
    VP_CHECK (!memcmp (a, b, sizeof (a)), "fd-leak", "descriptors %s",
              vp_fd_diff_str (a, b));
    vp_nontrivial ();
    vp_sample ("%d splices, first: %s, %lu and %lu bytes, buffer %zu", ns,
               ss[0].same == 2 ? "two sockets" :
               ss[0].same      ? "a socket and two pipes" :
                                 "four pipes",
               (unsigned long)ss[0].d[0].drained,
               (unsigned long)ss[0].d[1].drained, ss[0].buf_size);
}

static const VpWork works[] = {
    { "splice", w_splice },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    return vp_main (argc, argv, works);
}
