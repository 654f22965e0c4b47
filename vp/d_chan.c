/* Channels: data, destruction, selection. */
#include "vp.h"
#include <sys/eventfd.h>
#include <hev-task-system.h>
#include <hev-task.h>
#include <hev-task-channel.h>
#include <hev-task-channel-select.h>

#define MAXT 10
#define MAXP 60
#define QMAX 80
#define DMAX 700

typedef struct
{
    unsigned len;
    uint64_t id;
} D;

typedef struct
{
    HevTaskChannel *c;
    int alive;
    int busy;    /* a task is inside a call on this end */
    int reading; /* ... in a read */
    int writing;
    int in_sel;  /* added to the selector of this selecting task + 1 */
    D q[QMAX]; /* unread datagrams at this end */
    int nq;
    int left; /* unread when destroyed */
    uint64_t nread, nwritten;
} E;

typedef struct
{
    unsigned size, bufs;
    E e[2];
} P;

typedef struct
{
    HevTask *h;
    int live, quota;
    int sel; /* in a select: 1 read, 2 write */
    int selector;
    uint64_t deadline, sel_turn;
    unsigned wakes;
} T;

static P ps[MAXP];
static T ts[MAXT];
static int np, nt, active, keeper_fd, destroy_on, wakes_on, chan_live;
static uint64_t turn, n_msgs, n_blocked, n_destroyed, n_sel;

static void
content (unsigned char *b, unsigned n, uint64_t id)
{
    unsigned i;
    uint64_t h = 0;

    for (i = 0; i < n; i++) {
        if (i % 8 == 0)
            h = vp_hash64 (id, i);
        b[i] = h >> (i % 8 * 8);
    }
}

static unsigned
some_len (unsigned around)
{
    switch (vp_range (5)) {
    case 0:
        return vp_range (18);
    case 1:
        return around + vp_range (3) > 0 ? around + vp_range (3) - 1 : 0;
    case 2:
        return (unsigned[]){ 0, 1, 2, 4, 8, 16 }[vp_range (6)];
    default:
        return vp_range (600);
    }
}

static uint64_t msg_id;

/* what happens on a channel may wake the task that selects on it */
static void
note (int p)
{
    if (ps[p].e[0].in_sel)
        ts[ps[p].e[0].in_sel - 1].wakes++;
}

/* The write goes to the queue of the other end.  The datagram is recorded
 * when the library accepts it, that is as soon as there is room for it; it is
 * recorded here before the call and marked pending while the end is full. */
static void
do_write (int p, int s, int may_block)
{
    P *pp = &ps[p];
    E *me = &pp->e[s], *to = &pp->e[!s];
    unsigned char buf[DMAX];
    unsigned len = some_len (pp->size), cut = len;
    uint64_t t0 = turn, id = ++msg_id;
    int was_alive = to->alive, full;
    ssize_t res;
    D d;

    if (len > DMAX)
        len = cut = DMAX;
    if (pp->bufs && cut > pp->size)
        cut = pp->size;
    content (buf, len, id);
    full = was_alive && to->nq >= (int)pp->bufs;
    d.len = cut;
    d.id = id;
    if (was_alive) {
        VP_HARNESS (to->nq < QMAX);
        to->q[to->nq++] = d;
    }
    note (p);
    me->busy = me->writing = 1;
    me->nwritten++;
    res = hev_task_channel_write (me->c, buf, len);
    me->busy = me->writing = 0;
    vp_scribble ();
    if (turn != t0)
        n_blocked++;
    if (!was_alive) {
        VP_CHECK (res == -1, "write-after-destroy",
                  "write to a destroyed peer returned %zd", res);
        VP_CHECK (turn == t0, "write-waits", "write to a destroyed peer waited");
        vp_ev ("writes to a destroyed peer");
        return;
    }
    if (!to->alive) {
        /* if there was room again by then, the write had succeeded */
        VP_CHECK (res == -1 ||
                      (res == (ssize_t)cut && to->left <= (int)pp->bufs), "write-after-destroy",
                  "write returned %zd although the peer was destroyed while it "
                  "waited",
                  res);
        vp_ev ("writes interrupted by destruction");
        return;
    }
    VP_CHECK (res == (ssize_t)cut, "write-result",
              "write of %u bytes to a channel of %u x %u returned %zd", len,
              pp->bufs, pp->size, res);
    n_msgs++;
    if (!full && pp->bufs)
        VP_CHECK (turn == t0, "write-waits",
                  "write waited with %d of %u datagrams unread", to->nq - 1,
                  pp->bufs);
    VP_CHECK (to->nq <= (int)pp->bufs, "write-early",
              "write returned with %d datagrams unread, %u buffers", to->nq,
              pp->bufs);
    vp_mix (p * 4 + s + (turn != t0) * 100);
    vp_ev (turn != t0 ? "writes that waited" : "writes at once");
    (void)may_block;
}

static int
do_read (int p, int s)
{
    P *pp = &ps[p];
    E *me = &pp->e[s], *from = &pp->e[!s];
    unsigned char buf[DMAX + 64], want[DMAX];
    unsigned count = some_len (pp->size), off = vp_range (16), i;
    uint64_t t0 = turn;
    int had = me->nq > 0;
    ssize_t res;
    D d;

    if (count > DMAX)
        count = DMAX;
    memset (buf, 0xcc, sizeof (buf));
    note (p);
    me->busy = me->reading = 1;
    res = hev_task_channel_read (me->c, buf + off, count);
    me->busy = me->reading = 0;
    vp_scribble ();
    if (turn != t0)
        n_blocked++;
    if (had)
        VP_CHECK (turn == t0, "read-waits",
                  "read waited with %d datagrams unread", me->nq);
    if (res < 0) {
        VP_CHECK (res == -1 && !from->alive && me->nq == 0, "read-fails",
                  "read returned %zd, peer %s, %d datagrams unread", res,
                  from->alive ? "alive" : "destroyed", me->nq);
        vp_ev (turn != t0 ? "reads interrupted by destruction" :
                            "reads of a destroyed peer");
        return -1;
    }
    VP_CHECK (me->nq > 0, "invented-datagram",
              "read returned %zd bytes, nothing was written", res);
    d = me->q[0];
    memmove (&me->q[0], &me->q[1], --me->nq * sizeof (D));
    if (d.len < count)
        count = d.len;
    VP_CHECK (res == (ssize_t)count, "read-result",
              "read returned %zd, the datagram has %u bytes", res, d.len);
    content (want, count, d.id);
    VP_CHECK (!memcmp (want, buf + off, count), "content",
              "datagram %lu of %u bytes read wrongly (channel %u x %u)",
              (unsigned long)d.id, d.len, pp->bufs, pp->size);
    for (i = 0; i < sizeof (buf); i++)
        if (i < off || i >= off + count)
            VP_CHECK (buf[i] == 0xcc, "overwrite",
                      "read changed byte %d outside the buffer", (int)(i - off));
    me->nread++;
    vp_mix (p * 4 + s + 1000 + (turn != t0) * 100);
    vp_ev (turn != t0 ? "reads that waited" : "reads at once");
    return 0;
}

static void
create_pair (int p)
{
    P *pp = &ps[p];
    int res;

    memset (pp, 0, sizeof (*pp));
    if (vp_chance (35)) {
        res = hev_task_channel_new (&pp->e[0].c, &pp->e[1].c);
    } else {
        pp->size = vp_chance (10) ? 0 : some_len (8);
        pp->bufs = vp_chance (10) ? 0 : 1 + vp_range (vp_chance (20) ? 60 : 4);
        if (!pp->bufs && vp_chance (50))
            pp->size = 0;
        res = hev_task_channel_new_with_buffers (&pp->e[0].c, &pp->e[1].c,
                                                 pp->size, pp->bufs);
    }
    VP_CHECK (res == 0, "new", "new returned %d", res);
    pp->e[0].alive = pp->e[1].alive = 1;
    chan_live += 2;
}

static void
do_destroy (int p, int s)
{
    E *e = &ps[p].e[s];
    uint64_t t0 = turn;

    note (p);
    e->alive = 0;
    e->left = e->nq;
    e->nq = 0;
    hev_task_channel_destroy (e->c);
    VP_CHECK (turn == t0, "switch", "destroy switched");
    e->c = NULL;
    chan_live--;
    n_destroyed++;
    vp_ev (ps[p].e[!s].busy ? "destructions under a blocked peer" :
                              "destructions");
    /* a write of the peer that was waiting is not going to be read */
}

/* an operation that either does not wait or can be ended by the keeper */
static int
step (int p, int s)
{
    E *e = &ps[p].e[s], *o = &ps[p].e[!s];

    if (!e->alive || e->busy)
        return 0;
    if (vp_chance (50)) {
        if (e->nq == 0 && o->alive && o->reading)
            return 0;
        do_read (p, s);
    } else {
        if (o->alive && o->nq >= (int)ps[p].bufs && o->writing)
            return 0;
        if (o->nq >= QMAX - 1)
            return 0;
        /* one datagram per blocked writer */
        do_write (p, s, 1);
    }
    return 1;
}

static void
entry (void *data)
{
    int me = (int)(intptr_t)data, p, s, n;
    T *t = &ts[me];

    turn++;
    while (t->quota-- > 0) {
        p = vp_range (np);
        s = vp_range (2);
        n = vp_chance (20) ? 1 + vp_range (10) : 1;
        while (n-- && step (p, s))
            ;
        if (destroy_on && vp_chance (8)) {
            p = vp_range (np);
            s = vp_range (2);
            if (ps[p].e[s].alive && !ps[p].e[s].busy) {
                do_destroy (p, s);
            } else if (!ps[p].e[0].alive && !ps[p].e[1].alive &&
                       !ps[p].e[0].busy && !ps[p].e[1].busy)
                create_pair (p);
        }
        switch (vp_range (5)) {
        case 0:
            if (wakes_on) {
                int i = vp_range (nt);
                if (ts[i].live && i != me) {
                    hev_task_wakeup (ts[i].h);
                    vp_ev ("unrelated wakes");
                }
            }
            break;
        case 1:
        case 2:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        }
        turn++;
    }
    t->live = 0;
    active--;
}

/* runs when everything waits: lets one blocked task go on */
static void
keeper (void *data)
{
    int p, s, k, o;
    uint64_t v;

    turn++;
    VP_HARNESS (hev_task_add_fd (hev_task_self (), keeper_fd, POLLIN) == 0);
    while (active) {
        hev_task_yield (HEV_TASK_WAITIO);
        turn++;
        if (__real_read (keeper_fd, &v, 8) != 8)
            continue;
        o = vp_range (np * 2);
        for (k = 0; k < np * 2; k++) {
            p = (k + o) % (np * 2) / 2;
            s = (k + o) % 2;
            if (!ps[p].e[s].busy || !ps[p].e[!s].alive || ps[p].e[!s].busy)
                continue;
            if (destroy_on && vp_chance (15)) {
                do_destroy (p, !s);
                break;
            }
            if (ps[p].e[s].reading)
                do_write (p, !s, 1);
            else
                do_read (p, !s);
            turn++;
            break;
        }
    }
    hev_task_del_fd (hev_task_self (), keeper_fd);
}

static void
check_idle (void)
{
    int p, s;

    for (p = 0; p < np; p++)
        for (s = 0; s < 2; s++) {
            E *e = &ps[p].e[s], *o = &ps[p].e[!s];
            if (e->reading)
                VP_CHECK (e->nq == 0 && o->alive, "lost-wake",
                          "everything idle, a read waits with %d datagrams "
                          "unread, peer %s",
                          e->nq, o->alive ? "alive" : "destroyed");
            if (e->writing)
                VP_CHECK (o->alive && o->nq > (int)ps[p].bufs, "lost-wake",
                          "everything idle, a write waits with %d datagrams "
                          "unread, %u buffers, peer %s",
                          o->nq, ps[p].bufs, o->alive ? "alive" : "destroyed");
        }
    vp_ev ("idle points checked");
}

static int
idle (void)
{
    uint64_t one = 1;

    check_idle ();
    turn++;
    VP_HARNESS (__real_write (keeper_fd, &one, 8) == 8);
    return 1;
}

static void
start (HevTaskEntry e, HevTaskEntry k)
{
    int i;
    HevTask *h;

    memset (ts, 0, sizeof (ts));
    turn = n_msgs = n_blocked = n_destroyed = n_sel = msg_id = 0;
    chan_live = 0;
    vp_track_reset ();
    vp_track = 1;
    vp_quarantine = 1;
    vp_dead_key = "lost-wake";
    vp_dead_hook = check_idle;
    vp_vt_start (1000000000ull + vp_range (1000000000));
    wakes_on = vp_chance (50);
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    for (i = 0; i < np; i++)
        create_pair (i);
    keeper_fd = eventfd (0, EFD_NONBLOCK);
    VP_HARNESS (keeper_fd >= 0);
    active = nt;
    for (i = 0; i < nt; i++) {
        ts[i].h = hev_task_new (65536);
        VP_HARNESS (ts[i].h);
        if (vp_chance (30))
            hev_task_set_priority (ts[i].h, vp_between (1, 15));
        ts[i].live = 1;
        ts[i].quota = 1 + vp_range (30);
    }
    for (i = 0; i < nt; i++)
        hev_task_run (ts[i].h, e, (void *)(intptr_t)i);
    h = hev_task_new (65536);
    VP_HARNESS (h);
    hev_task_run (h, k, NULL);
}

static void
finish (void)
{
    int p, s;

    hev_task_system_run ();
    VP_CHECK (active == 0, "run-early", "%d tasks left", active);
    __real_close (keeper_fd);
    /* all tasks have ended: what is left is read and destroyed from here */
    for (p = 0; p < np; p++) {
        s = vp_range (2);
        if (ps[p].e[s].alive) {
            while (ps[p].e[s].nq)
                do_read (p, s);
            do_destroy (p, s);
        }
        if (ps[p].e[!s].alive) {
            while (ps[p].e[!s].nq)
                do_read (p, !s);
            do_read (p, !s);
            do_write (p, !s, 0);
            do_destroy (p, !s);
        }
    }
    VP_HARNESS (chan_live == 0);
    hev_task_system_fini ();
    VP_CHECK (vp_track_live () == 0, "leak",
              "%zu blocks (%zu bytes) left after everything was destroyed",
              vp_track_live (), vp_track_bytes ());
    vp_track = 0;
    vp_vt_stop ();
}

static void
w_data (uint64_t n)
{
    destroy_on = 0;
    vp_idle_hook = idle;
    np = 1 + vp_range (3);
    nt = 2 + vp_range (vp_chance (30) ? MAXT - 1 : 3);
    start (entry, keeper);
    finish ();
    if (n_msgs > 3 && n_blocked)
        vp_nontrivial ();
    vp_sample ("%d tasks, %d channels (first %u x %u), %lu datagrams, %lu calls "
               "waited",
               nt, np, ps[0].bufs, ps[0].size, (unsigned long)n_msgs,
               (unsigned long)n_blocked);
}

static void
w_destroy (uint64_t n)
{
    destroy_on = 1;
    vp_idle_hook = idle;
    np = 1 + vp_range (6);
    nt = 2 + vp_range (vp_chance (30) ? MAXT - 1 : 3);
    start (entry, keeper);
    finish ();
    if (n_destroyed > 2)
        vp_nontrivial ();
    vp_sample ("%d tasks, %d channels, %lu datagrams, %lu ends destroyed", nt,
               np, (unsigned long)n_msgs, (unsigned long)n_destroyed);
}

/* ---- select ---- */

static HevTaskChannelSelect *sels[2];

static int
readable (int p)
{
    return ps[p].e[0].nq > 0;
}

static int
writable (int p)
{
    return ps[p].bufs && ps[p].e[1].alive && ps[p].e[1].nq < (int)ps[p].bufs;
}

static int
which (HevTaskChannel *c)
{
    int p;

    for (p = 0; p < np; p++)
        if (ps[p].e[0].c == c)
            return p;
    return -1;
}

/* write select says nothing useful about unbuffered channels and about
 * channels without peer: they may or may not be returned */
static int
write_unclear (int p)
{
    return !ps[p].bufs || !ps[p].e[1].alive;
}

static int
any_ready (int me, int wr, int *unclear)
{
    int p, n = 0;

    if (unclear)
        *unclear = 0;
    for (p = 0; p < np; p++) {
        if (ps[p].e[0].in_sel != me + 1)
            continue;
        if (wr ? writable (p) : readable (p))
            n++;
        if (unclear && wr && write_unclear (p))
            *unclear = 1;
    }
    return n;
}

static int
members (int me)
{
    int p, n = 0;

    for (p = 0; p < np; p++)
        n += ps[p].e[0].in_sel == me + 1;
    return n;
}

static void
do_select (int me, int wr)
{
    T *t = &ts[me];
    HevTaskChannel *c;
    uint64_t t0 = turn, now = vp_now;
    int timeout, ready, p, unclear;

    ready = any_ready (me, wr, &unclear);
    timeout = vp_chance (20) ? 0 :
              vp_chance (50) ? (vp_chance (20) ? 0x7fffffff : 1 + (int)vp_range (50)) :
                               -1 - (int)vp_range (3);
    if (wr && timeout < 0 && !ready && members (me)) {
        /* without a buffered channel nobody could end it */
        for (p = 0; p < np; p++)
            if (ps[p].e[0].in_sel == me + 1 && !write_unclear (p))
                break;
        if (p == np)
            timeout = 5;
    }
    if (!wr && timeout < 0 && !ready && members (me)) {
        for (p = 0; p < np; p++)
            if (ps[p].e[0].in_sel == me + 1 && !write_unclear (p))
                break;
        if (p == np)
            timeout = 5;
    }
    t->sel = 1 + wr;
    t->sel_turn = turn;
    t->wakes = 0;
    t->deadline = timeout < 0 ? ~0ull : now + timeout * 1000000ull;
    c = wr ? hev_task_channel_select_write (sels[me], timeout) :
             hev_task_channel_select_read (sels[me], timeout);
    t->sel = 0;
    turn++;
    vp_scribble ();
    n_sel++;
    if (turn != t0 + 1)
        n_blocked++;
    if (ready)
        VP_CHECK (turn == t0 + 1, "select-waits",
                  "%s select waited although %d channels were ready",
                  wr ? "write" : "read", ready);
    if (!c) {
        VP_CHECK (!ready, "select-misses",
                  "%s select returned nothing, %d channels were ready",
                  wr ? "write" : "read", ready);
        if (members (me)) {
            VP_CHECK (timeout >= 0, "select-nothing",
                      "select without timeout returned nothing");
            VP_CHECK (any_ready (me, wr, NULL) == 0, "select-misses",
                      "%s select returned nothing, %d channels are ready",
                      wr ? "write" : "read", any_ready (me, wr, NULL));
            VP_CHECK (vp_now - now + t->wakes * 1000000ull >=
                          timeout * 1000000ull,
                      "select-early",
                      "select with a timeout of %d ms returned nothing after "
                      "%lu ns (%u unrelated wakes)",
                      timeout, (unsigned long)(vp_now - now), t->wakes);
            vp_ev ("selects timed out");
        } else {
            VP_CHECK (turn == t0 + 1, "select-waits",
                      "select on an empty selector waited");
            vp_ev ("selects on an empty selector");
        }
        return;
    }
    p = which (c);
    VP_CHECK (p >= 0 && ps[p].e[0].in_sel == me + 1, "select-wrong",
              "%s select returned a channel that is not in the selector",
              wr ? "write" : "read");
    vp_mix (p + wr * 16 + (turn != t0 + 1) * 64);
    vp_ev (turn != t0 + 1 ? "selects that waited" : "selects at once");
    if (!wr) {
        VP_CHECK (readable (p), "select-not-ready",
                  "read select returned a channel without unread datagram");
        if (vp_chance (80))
            do_read (p, 0); /* checks that it does not wait */
    } else {
        VP_CHECK (writable (p) || write_unclear (p), "select-not-ready",
                  "write select returned a channel with %d of %u buffers used",
                  ps[p].e[1].nq, ps[p].bufs);
        if (vp_chance (80) && !write_unclear (p))
            do_write (p, 0, 0);
        else if (write_unclear (p) && !ps[p].e[1].alive)
            do_write (p, 0, 0);
    }
}

static void
selector (void *data)
{
    int me = (int)(intptr_t)data, p, k;
    T *t = &ts[me];

    turn++;
    sels[me] = hev_task_channel_select_new ();
    VP_CHECK (sels[me] != NULL, "new", "select new");
    t->quota += 10 + vp_range (30);
    for (p = 0; p < np; p++)
        if (p % 2 == me && ps[p].e[0].alive && vp_chance (70)) {
            ps[p].e[0].in_sel = me + 1;
            hev_task_channel_select_add (sels[me], ps[p].e[0].c);
        }
    while (t->quota-- > 0) {
        p = vp_range (np);
        switch (vp_range (10)) {
        case 0:
        case 1:
            /* ends are dealt out between the selecting tasks */
            if (p % 2 == me && !ps[p].e[0].in_sel && ps[p].e[0].alive) {
                ps[p].e[0].in_sel = me + 1;
                hev_task_channel_select_add (sels[me], ps[p].e[0].c);
                vp_ev ("channels added");
            }
            break;
        case 2:
            if (ps[p].e[0].in_sel == me + 1) {
                ps[p].e[0].in_sel = 0;
                hev_task_channel_select_del (sels[me], ps[p].e[0].c);
                vp_ev ("channels removed");
            }
            break;
        case 3:
            if (p % 2 == me && ps[p].e[0].nq)
                do_read (p, 0);
            break;
        case 4:
            if (p % 2 == me && (writable (p) || (!ps[p].e[1].alive)))
                do_write (p, 0, 0);
            break;
        case 5:
            hev_task_yield (HEV_TASK_YIELD);
            turn++;
            break;
        case 6:
            /* also the write that fills it up and waits for the peer */
            if (p % 2 == me && ps[p].bufs && ps[p].e[1].alive &&
                ps[p].e[1].nq <= (int)ps[p].bufs && vp_chance (40)) {
                do_write (p, 0, 1);
                turn++;
            }
            break;
        default:
            do_select (me, vp_chance (40));
        }
    }
    for (p = 0; p < np; p++)
        if (ps[p].e[0].in_sel == me + 1) {
            ps[p].e[0].in_sel = 0;
            hev_task_channel_select_del (sels[me], ps[p].e[0].c);
        }
    for (k = 0; k < 3; k++) {
        for (p = 0; p < np; p++)
            if (p % 2 == me)
                while (ps[p].e[0].nq)
                    do_read (p, 0);
        hev_task_yield (HEV_TASK_YIELD);
        turn++;
    }
    hev_task_channel_select_destroy (sels[me]);
    t->live = 0;
    active--;
}

static int n_sel_tasks;

static void
peer_entry (void *data)
{
    int me = (int)(intptr_t)data, p, n;
    T *t = &ts[me];

    turn++;
    while (t->quota-- > 0) {
        p = vp_range (np);
        n = vp_chance (30) ? 1 + vp_range (8) : 1;
        for (; n > 0 && ps[p].e[1].alive && !ps[p].e[1].busy; n--) {
            if (vp_chance (50)) {
                if (ps[p].e[1].nq)
                    do_read (p, 1);
            } else if (ps[p].bufs ? ps[p].e[0].nq < (int)ps[p].bufs :
                                    ps[p].e[0].nq == 0 && vp_chance (50) &&
                                        ts[p % 2].live &&
                                        p % 2 < n_sel_tasks) {
                do_write (p, 1, 1);
                turn++;
            }
        }
        if (destroy_on && vp_chance (2) && ps[p].e[1].alive &&
            !ps[p].e[1].busy && !ps[p].e[0].busy &&
            (!ps[p].e[0].in_sel ||
             ts[ps[p].e[0].in_sel - 1].deadline != ~0ull))
            do_destroy (p, 1);
        if (wakes_on && vp_chance (20)) {
            int i = vp_range (nt);
            if (ts[i].live && i != me) {
                ts[i].wakes++;
                hev_task_wakeup (ts[i].h);
                vp_ev ("unrelated wakes");
            }
        }
        if (vp_chance (70))
            hev_task_yield (HEV_TASK_YIELD);
        else
            hev_task_usleep (1 + vp_range (3000));
        turn++;
    }
    t->live = 0;
    active--;
}

static void
sel_keeper (void *data)
{
    int p, k, o, live;
    uint64_t v;

    turn++;
    VP_HARNESS (hev_task_add_fd (hev_task_self (), keeper_fd, POLLIN) == 0);
    while (active) {
        hev_task_yield (HEV_TASK_WAITIO);
        turn++;
        if (__real_read (keeper_fd, &v, 8) != 8)
            continue;
        o = vp_range (np);
        for (live = k = 0; k < np; k++) {
            p = (k + o) % np;
            if (!ps[p].e[1].alive || ps[p].e[1].busy) {
                /* a peer task waits in an unbuffered write: the selecting
                 * task is gone or will read it */
                if (ps[p].e[1].writing && ps[p].e[0].nq &&
                    !ps[p].e[0].busy &&
                    (p % 2 >= n_sel_tasks || !ts[p % 2].live))
                    do_read (p, 0);
                continue;
            }
            live++;
            if (ps[p].e[1].nq && vp_chance (60))
                do_read (p, 1);
            if (ps[p].bufs && ps[p].e[0].nq < (int)ps[p].bufs &&
                vp_chance (60))
                do_write (p, 1, 0);
            turn++;
        }
    }
    hev_task_del_fd (hev_task_self (), keeper_fd);
}

static void
dump (void)
{
    int i;

    for (i = 0; i < nt; i++)
        printf ("task %d live %d sel %d quota %d deadline %lx\n", i,
                ts[i].live, ts[i].sel, ts[i].quota,
                (unsigned long)ts[i].deadline);
    for (i = 0; i < np; i++)
        printf ("chan %d %u x %u: alive %d %d busy %d %d unread %d %d in %d\n",
                i, ps[i].bufs, ps[i].size, ps[i].e[0].alive, ps[i].e[1].alive,
                ps[i].e[0].busy, ps[i].e[1].busy, ps[i].e[0].nq, ps[i].e[1].nq,
                ps[i].e[0].in_sel);
    fflush (stdout);
}

static void
check_sel_idle (void)
{
    int i, n;

    check_idle ();
    for (i = 0; i < n_sel_tasks; i++) {
        if (!ts[i].sel)
            continue;
        n = any_ready (i, ts[i].sel == 2, NULL);
        VP_CHECK (n == 0, "select-misses",
                  "everything idle, a %s select waits although %d channels are "
                  "ready",
                  ts[i].sel == 2 ? "write" : "read", n);
        VP_CHECK (ts[i].deadline > vp_now, "select-late",
                  "everything idle, a select is past its timeout");
    }
}

static void
sel_dead (void)
{
    dump ();
    check_sel_idle ();
}

static int
sel_idle (void)
{
    uint64_t one = 1;

    check_sel_idle ();
    if (vp_vt_armed () && vp_chance (60))
        return 0;
    turn++;
    VP_HARNESS (__real_write (keeper_fd, &one, 8) == 8);
    return 1;
}

static void
sel_jump (uint64_t from, uint64_t to)
{
    int i;

    for (i = 0; i < n_sel_tasks; i++)
        if (ts[i].sel)
            VP_CHECK (ts[i].deadline >= to, "select-late",
                      "the system idles past the timeout of a select");
}

static void
sel_entry (void *data)
{
    int me = (int)(intptr_t)data;

    if (me < n_sel_tasks)
        selector (data);
    else
        peer_entry (data);
}

static void
w_select (uint64_t n)
{
    destroy_on = vp_chance (30);
    vp_idle_hook = sel_idle;
    vp_jump_hook = sel_jump;
    np = 1 + vp_range (vp_case % 50 == 3 ? MAXP : 6);
    n_sel_tasks = np > 1 ? 1 + vp_range (2) : 1;
    nt = n_sel_tasks + 1 + vp_range (4);
    start (sel_entry, sel_keeper);
    vp_dead_hook = sel_dead;
    finish ();
    if (n_sel > 2 && n_blocked)
        vp_nontrivial ();
    vp_sample ("%d selecting tasks, %d others, %d channels, %lu selects, %lu "
               "datagrams",
               n_sel_tasks, nt - n_sel_tasks, np, (unsigned long)n_sel,
               (unsigned long)n_msgs);
}

/* sizes and counts whose product is large */
static void
w_huge (uint64_t n)
{
    static const struct
    {
        unsigned size, bufs;
    } dims[] = {
        { 0x10000, 0xffff },   { 0x20000, 0x7fff },  { 0x40000000, 3 },
        { 0x40000001, 3 },     { 0xffffffff, 1 },    { 0x80000000, 1 },
        { 0xffffffff, 0 },     { 1, 0x0fffffff },    { 0, 0x0fffffff },
        { 0, 0xffffffff },     { 16, 0xffffffff },   { 0xffffffff, 0xffffffff },
        { 0xffffffff, 0xfffffffe }, { 0x55555556, 2 }, { 0x1000, 0x100000 },
        { 0xfffffff0, 0xfffffffe },
    };
    HevTaskChannel *a, *b;
    unsigned char in[64], out[64];
    unsigned i, k = vp_case % ARRAY_LEN (dims), m, len;
    unsigned size = dims[k].size, bufs = dims[k].bufs;
    int res;

    /* these would be filled with pointers, which takes too much memory */
    if (bufs >= 0x0ffffff0 && bufs < 0xfffffff0 && size < 0x10000)
        return;
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    a = b = NULL;
    res = hev_task_channel_new_with_buffers (&a, &b, size, bufs);
    vp_mix (k * 2 + (res == 0));
    if (res < 0) {
        vp_ev ("huge channels refused");
    } else {
        VP_CHECK (a && b, "new", "no channels");
        m = bufs ? (bufs < 40 ? bufs : 40) : 0;
        if (bufs == 0xffffffff)
            vp_fail ("huge", "%u x %u channel was created", bufs, size);
        for (i = 0; i < m; i++) {
            len = 1 + i;
            if (len > size)
                len = size;
            content (in, len, i + 1);
            VP_CHECK (hev_task_channel_write (a, in, len) == len, "huge",
                      "write to a %u x %u channel", bufs, size);
        }
        for (i = 0; i < m; i++) {
            len = 1 + i;
            if (len > size)
                len = size;
            content (in, len, i + 1);
            VP_CHECK (hev_task_channel_read (b, out, 64) == len, "huge",
                      "read from a %u x %u channel", bufs, size);
            VP_CHECK (!memcmp (in, out, len), "content",
                      "datagram %u of a %u x %u channel", i, bufs, size);
            vp_ev ("datagrams through huge channels");
        }
        hev_task_channel_destroy (a);
        hev_task_channel_destroy (b);
        vp_nontrivial ();
    }
    hev_task_system_fini ();
}

/* counts that do not fit 32 bits */
static void
w_count (uint64_t n)
{
    static const size_t counts[] = { 0x80000000u,    0x80000001u,  0xffffffffu,
                                     0x100000000,    0x100000004,  0x100000010,
                                     0x17fffffff,    0x140000000 };
    HevTaskChannel *a, *b;
    unsigned char *p, in[100];
    unsigned size = 1 + vp_range (80), len = vp_range (100), k;
    size_t map = 0x140000000, c;

    p = __real_mmap (NULL, map, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        vp_ev ("no room for large counts");
        return;
    }
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    VP_CHECK (hev_task_channel_new_with_buffers (&a, &b, size, 3) == 0, "new",
              "no channel");
    for (k = 0; k < 20; k++) {
        unsigned want = len > size ? size : len;
        ssize_t r;

        c = counts[vp_range (ARRAY_LEN (counts))];
        content (in, sizeof (in), k + 1);
        if (vp_chance (50)) {
            memcpy (p, in, sizeof (in));
            want = size;
            r = hev_task_channel_write (a, p, c);
        } else {
            r = hev_task_channel_write (a, in, len);
        }
        VP_CHECK (r == want, "count", "write returned %zd instead of %u", r,
                  want);
        memset (p, 0, 200);
        r = hev_task_channel_read (b, p, c);
        VP_CHECK (r == want, "count",
                  "read of up to %zu bytes returned %zd instead of %u", c, r,
                  want);
        VP_CHECK (!memcmp (p, in, want), "content",
                  "datagram of %u bytes read with a count of %zu", want, c);
        vp_ev ("counts above 31 bits");
        vp_mix (c + want);
    }
    hev_task_channel_destroy (a);
    hev_task_channel_destroy (b);
    hev_task_system_fini ();
    __real_munmap (p, map);
    vp_nontrivial ();
}

static const VpWork works[] = {
    { "count", w_count },
    { "huge", w_huge },
    { "data", w_data },
    { "destroy", w_destroy },
    { "select", w_select },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    return vp_main (argc, argv, works);
}
