/* Small programs that use one facility each and know what has to come out.
 * Any mix of them may run in one task system, in any number of threads. */
#ifndef __MODS_H__
#define __MODS_H__

#include "vp.h"
#include <hev-memory-allocator.h>
#include <hev-circular-buffer.h>
#include <hev-object.h>
#include <hev-object-atomic.h>
#include <hev-task.h>
#include <hev-task-call.h>
#include <hev-task-channel.h>
#include <hev-task-channel-select.h>
#include <hev-task-cond.h>
#include <hev-task-dns.h>
#include <hev-task-io.h>
#include <hev-task-io-pipe.h>
#include <hev-task-io-poll.h>
#include <hev-task-io-socket.h>
#include <hev-task-mutex.h>
#include <hev-task-system.h>
#include <hev-task-cio.h>
#include <hev-task-cio-buffer.h>
#include <hev-task-cio-fd.h>
#include <hev-task-cio-null.h>
#include <hev-task-cio-socket.h>
#include <sys/un.h>

typedef struct Mod Mod;
struct Mod
{
    int left; /* tasks */
    int tasks;
    const char *name;
    void (*done) (Mod *m);
};

typedef struct
{
    Mod *m;
    void (*fn) (Mod *m, int i);
    int i;
} ModArg;

static __thread int mods_live;
static int mods_dns; /* lookups may be used */
static void (*mods_note) (void); /* a program ended */

static void
mod_entry (void *data)
{
    ModArg a = *(ModArg *)data;

    __real_free (data);
    a.fn (a.m, a.i);
    if (--a.m->left == 0) {
        if (a.m->done)
            a.m->done (a.m);
        vp_ev (a.m->name);
        if (mods_note)
            mods_note ();
        __real_free (a.m);
        mods_live--;
    }
}

static void *
mod_new (const char *name, size_t size)
{
    Mod *m = __real_calloc (1, size);

    VP_HARNESS (m);
    m->name = name;
    mods_live++;
    return m;
}

static HevTask *
mod_task (Mod *m, void (*fn) (Mod *, int), int i, int stack)
{
    ModArg *a = __real_malloc (sizeof (*a));
    HevTask *t = hev_task_new (stack);

    VP_CHECK (t, "new", "no task");
    VP_HARNESS (a);
    a->m = m;
    a->fn = fn;
    a->i = i;
    m->left++;
    if (vp_chance (30))
        hev_task_set_priority (t, 1 + vp_range (15));
    hev_task_run (t, mod_entry, a);
    return t;
}

static void
mod_pause (void)
{
    switch (vp_range (6)) {
    case 0:
    case 1:
    case 2:
        hev_task_yield (HEV_TASK_YIELD);
        break;
    case 3:
        hev_task_sleep (vp_range (2));
        break;
    case 4:
        hev_task_usleep (vp_range (300));
        break;
    }
}

static unsigned char
mod_byte (uint64_t id, uint64_t pos)
{
    return vp_hash64 (id, pos);
}

/* ---- running and yielding ---- */

static void
yield_task (Mod *m, int i)
{
    volatile unsigned char mark[300];
    HevTask *self = hev_task_self ();
    int k, n = 1 + vp_range (20);

    for (k = 0; k < (int)sizeof (mark); k++)
        mark[k] = mod_byte (i, k);
    while (n--) {
        mod_pause ();
        VP_CHECK (hev_task_self () == self, "self", "another task");
        if (vp_chance (10))
            hev_task_set_priority (self, 1 + vp_range (15));
    }
    for (k = 0; k < (int)sizeof (mark); k++)
        VP_CHECK (mark[k] == mod_byte (i, k), "stack", "a local variable changed");
    VP_CHECK (hev_task_get_state (self) == HEV_TASK_RUNNING, "state",
              "a running task is not running");
}

static void
m_yield (void)
{
    Mod *m = mod_new ("ran: yielding", sizeof (Mod));
    int i, n = 1 + vp_range (5);

    for (i = 0; i < n; i++)
        mod_task (m, yield_task, i, vp_chance (50) ? -1 : 8192 + vp_range (9000));
}

/* ---- sleeping ---- */

static void
sleep_task (Mod *m, int i)
{
    int n = 1 + vp_range (3);

    while (n--) {
        unsigned ms = vp_range (4), left;
        struct timespec a, b;
        int64_t d;

        clock_gettime (CLOCK_MONOTONIC, &a);
        if (vp_chance (70)) {
            left = hev_task_sleep (ms);
        } else {
            left = hev_task_usleep (ms * 1000);
        }
        clock_gettime (CLOCK_MONOTONIC, &b);
        d = (b.tv_sec - a.tv_sec) * 1000000000ll + b.tv_nsec - a.tv_nsec;
        VP_CHECK (left == 0, "sleep", "%u left of a sleep nobody cut short", left);
        VP_CHECK (d >= (int64_t)ms * 1000000, "sleep", "slept %ld ns of %u ms",
                  (long)d, ms);
    }
}

static void
m_sleep (void)
{
    Mod *m = mod_new ("ran: sleeping", sizeof (Mod));
    int i, n = 1 + vp_range (4);

    for (i = 0; i < n; i++)
        mod_task (m, sleep_task, i, -1);
}

/* ---- joining ---- */

typedef struct
{
    Mod m;
    int ended[5];
} MJoin;

static void
join_child (Mod *mod, int i)
{
    MJoin *m = (MJoin *)mod;

    mod_pause ();
    m->ended[i] = 1;
}

static void
join_parent (Mod *mod, int n)
{
    MJoin *m = (MJoin *)mod;
    HevTask *t[5];
    int i;

    for (i = 0; i < n; i++) {
        ModArg *a = __real_malloc (sizeof (*a));
        t[i] = hev_task_new (-1);
        VP_CHECK (t[i], "new", "no task");
        hev_task_ref (t[i]);
        a->m = mod;
        a->fn = join_child;
        a->i = i;
        mod->left++;
        hev_task_run (t[i], mod_entry, a);
    }
    for (i = n - 1; i >= 0; i--) {
        mod_pause ();
        hev_task_join (t[i]);
        VP_CHECK (m->ended[i], "join", "joined a task that runs");
        hev_task_unref (t[i]);
    }
}

static void
m_join (void)
{
    MJoin *m = mod_new ("ran: joining", sizeof (MJoin));

    mod_task (&m->m, join_parent, 1 + vp_range (5), 65536);
}

/* ---- waking ---- */

typedef struct
{
    Mod m;
    HevTask *waiter;
    int flag;
} MWake;

static void
wake_waiter (Mod *mod, int i)
{
    MWake *m = (MWake *)mod;

    m->waiter = hev_task_self ();
    while (!m->flag)
        hev_task_yield (HEV_TASK_WAITIO);
    m->waiter = NULL;
}

static void
wake_waker (Mod *mod, int i)
{
    MWake *m = (MWake *)mod;

    mod_pause ();
    if (m->waiter && vp_chance (50))
        hev_task_wakeup (m->waiter);
    mod_pause ();
    m->flag = 1;
    if (m->waiter)
        hev_task_wakeup (m->waiter);
}

static void
m_wake (void)
{
    MWake *m = mod_new ("ran: waking", sizeof (MWake));

    mod_task (&m->m, wake_waiter, 0, -1);
    mod_task (&m->m, wake_waker, 0, -1);
}

/* ---- a tree of tasks ---- */

static void
tree_task (Mod *m, int depth)
{
    int n = depth ? vp_range (3) : 0;

    while (n--) {
        mod_task (m, tree_task, depth - 1, -1);
        if (vp_chance (30))
            mod_pause ();
    }
}

static void
m_tree (void)
{
    Mod *m = mod_new ("ran: a tree of tasks", sizeof (Mod));

    mod_task (m, tree_task, 1 + vp_range (4), -1);
}

/* ---- mutexes and conditions ---- */

typedef struct
{
    Mod m;
    HevTaskMutex mutex;
    HevTaskCond cond;
    int owner, items, made, taken, total, producers;
} MSync;

static void
mutex_task (Mod *mod, int i)
{
    MSync *m = (MSync *)mod;
    int n = 1 + vp_range (5);

    while (n--) {
        if (vp_chance (20)) {
            if (hev_task_mutex_trylock (&m->mutex) != 0) {
                mod_pause ();
                continue;
            }
        } else {
            VP_CHECK (hev_task_mutex_lock (&m->mutex) == 0, "lock", "failed");
        }
        VP_CHECK (m->owner == 0, "exclusion", "two tasks hold a mutex");
        m->owner = i + 1;
        if (vp_chance (60))
            mod_pause ();
        VP_CHECK (m->owner == i + 1, "exclusion", "two tasks hold a mutex");
        m->owner = 0;
        VP_CHECK (hev_task_mutex_unlock (&m->mutex) == 0, "unlock", "failed");
    }
}

static void
m_mutex (void)
{
    MSync *m = mod_new ("ran: mutex", sizeof (MSync));
    int i, n = 2 + vp_range (4);

    hev_task_mutex_init (&m->mutex);
    for (i = 0; i < n; i++)
        mod_task (&m->m, mutex_task, i, -1);
}

static void
cond_producer (Mod *mod, int n)
{
    MSync *m = (MSync *)mod;

    while (n--) {
        hev_task_mutex_lock (&m->mutex);
        m->items++;
        m->made++;
        hev_task_mutex_unlock (&m->mutex);
        if (vp_chance (70))
            hev_task_cond_signal (&m->cond);
        else
            hev_task_cond_broadcast (&m->cond);
        if (vp_chance (50))
            mod_pause ();
    }
    m->producers--;
    hev_task_cond_broadcast (&m->cond);
}

static void
cond_consumer (Mod *mod, int i)
{
    MSync *m = (MSync *)mod;

    hev_task_mutex_lock (&m->mutex);
    for (;;) {
        while (!m->items && m->producers) {
            VP_CHECK (m->owner == 0, "exclusion", "a mutex is held twice");
            if (vp_chance (60))
                hev_task_cond_wait (&m->cond, &m->mutex);
            else
                hev_task_cond_timedwait (&m->cond, &m->mutex, vp_range (4));
        }
        if (!m->items)
            break;
        m->owner = 1;
        m->items--;
        m->taken++;
        if (vp_chance (30))
            mod_pause ();
        m->owner = 0;
    }
    hev_task_mutex_unlock (&m->mutex);
}

static void
cond_done (Mod *mod)
{
    MSync *m = (MSync *)mod;

    VP_CHECK (m->taken == m->total && m->items == 0, "cond",
              "%d of %d items taken", m->taken, m->total);
}

static void
m_cond (void)
{
    MSync *m = mod_new ("ran: condition", sizeof (MSync));
    int i, n = 1 + vp_range (3), c = 1 + vp_range (3);

    hev_task_mutex_init (&m->mutex);
    hev_task_cond_init (&m->cond);
    m->m.done = cond_done;
    m->producers = n;
    for (i = 0; i < n; i++) {
        int k = 1 + vp_range (6);
        m->total += k;
        mod_task (&m->m, cond_producer, k, -1);
    }
    for (i = 0; i < c; i++)
        mod_task (&m->m, cond_consumer, i, -1);
}

/* ---- channels ---- */

#define MCH 4
typedef struct
{
    Mod m;
    HevTaskChannel *r[MCH], *w[MCH];
    int n, buffered, count[MCH], writers, ended[MCH];
    uint64_t next[MCH];
} MChan;

static void
chan_writer (Mod *mod, int i)
{
    MChan *m = (MChan *)mod;
    uint64_t v, n = m->count[i];

    for (v = 0; v < n; v++) {
        ssize_t s = hev_task_channel_write (m->w[i], &v, sizeof (v));
        VP_CHECK (s == sizeof (v), "channel", "a write returned %zd", s);
        if (vp_chance (20))
            mod_pause ();
    }
    m->writers--;
    m->ended[i] = 1;
    if (m->n == 1 && !m->buffered)
        hev_task_channel_destroy (m->w[i]);
}

static void
chan_reader (Mod *mod, int i)
{
    MChan *m = (MChan *)mod;
    uint64_t v, n;

    for (n = 0; (int)n < m->count[i]; n++) {
        ssize_t s = hev_task_channel_read (m->r[i], &v, sizeof (v));
        VP_CHECK (s == sizeof (v), "channel", "a read returned %zd", s);
        VP_CHECK (v == n, "channel", "value %lu instead of %lu",
                  (unsigned long)v, (unsigned long)n);
        if (vp_chance (20))
            mod_pause ();
    }
    if (m->buffered) {
        while (m->writers)
            hev_task_sleep (1);
        hev_task_channel_destroy (m->w[i]);
    }
    hev_task_channel_destroy (m->r[i]);
}

static void
m_chan (void)
{
    MChan *m = mod_new ("ran: channel", sizeof (MChan));

    m->n = 1;
    m->writers = 1;
    m->buffered = vp_chance (60);
    m->count[0] = vp_range (30);
    if (m->buffered)
        VP_CHECK (hev_task_channel_new_with_buffers (
                      &m->r[0], &m->w[0], sizeof (uint64_t),
                      1 + vp_range (6)) == 0,
                  "channel", "not made");
    else
        VP_CHECK (hev_task_channel_new (&m->r[0], &m->w[0]) == 0, "channel",
                  "not made");
    mod_task (&m->m, chan_writer, 0, -1);
    mod_task (&m->m, chan_reader, 0, -1);
}

static void
select_reader (Mod *mod, int unused)
{
    MChan *m = (MChan *)mod;
    HevTaskChannelSelect *s = hev_task_channel_select_new ();
    int i, open = m->n;

    VP_CHECK (s, "select", "no selector");
    for (i = 0; i < m->n; i++)
        hev_task_channel_select_add (s, m->r[i]);
    while (open) {
        HevTaskChannel *c = hev_task_channel_select_read (s, vp_range (3));
        uint64_t v;

        if (c) {
            for (i = 0; i < m->n; i++)
                if (m->r[i] == c)
                    break;
            VP_CHECK (i < m->n, "select", "a channel that is not in the set");
            VP_CHECK (hev_task_channel_read (c, &v, sizeof (v)) == sizeof (v),
                      "channel", "a read failed");
            VP_CHECK (v == m->next[i], "channel", "value %lu instead of %lu",
                      (unsigned long)v, (unsigned long)m->next[i]);
            m->next[i]++;
        }
        /* channels leave the set one by one, some with values in them */
        for (i = 0; i < m->n; i++) {
            if (!m->r[i] || !m->ended[i] ||
                ((int)m->next[i] < m->count[i] && vp_chance (80)))
                continue;
            hev_task_channel_select_del (s, m->r[i]);
            hev_task_channel_destroy (m->w[i]);
            hev_task_channel_destroy (m->r[i]);
            m->r[i] = NULL;
            open--;
        }
    }
    hev_task_channel_select_destroy (s);
}

static void
m_select (void)
{
    MChan *m = mod_new ("ran: selector", sizeof (MChan));
    int i;

    m->n = 2 + vp_range (MCH - 1);
    m->writers = m->n;
    m->buffered = 1;
    for (i = 0; i < m->n; i++) {
        m->count[i] = vp_range (8);
        VP_CHECK (hev_task_channel_new_with_buffers (
                      &m->r[i], &m->w[i], sizeof (uint64_t),
                      1 + vp_range (4)) == 0,
                  "channel", "not made");
        mod_task (&m->m, chan_writer, i, -1);
    }
    mod_task (&m->m, select_reader, 0, -1);
}

/* ---- circular buffers ---- */

static void
cbuf_task (Mod *mod, int i)
{
    HevCircularBuffer *b = hev_circular_buffer_new (1 + vp_range (200));
    uint64_t in = 0, out = 0;
    int n = 40;

    VP_CHECK (b, "buffer", "not made");
    while (n--) {
        struct iovec iov[2];
        int c, k;
        size_t left, j;

        if (vp_chance (50)) {
            c = hev_circular_buffer_writing (b, iov);
            for (left = 0, k = 0; k < c; k++)
                left += iov[k].iov_len;
            left = vp_range (left + 1);
            for (j = 0, k = 0; k < c; k++) {
                size_t z;
                for (z = 0; z < iov[k].iov_len && j < left; z++, j++)
                    ((unsigned char *)iov[k].iov_base)[z] = mod_byte (i, in + j);
            }
            hev_circular_buffer_write_finish (b, left);
            in += left;
        } else {
            size_t got = 0;
            c = hev_circular_buffer_reading (b, iov);
            for (k = 0; k < c; k++)
                for (j = 0; j < iov[k].iov_len; j++, got++)
                    VP_CHECK (((unsigned char *)iov[k].iov_base)[j] ==
                                  mod_byte (i, out + got),
                              "buffer", "a byte changed");
            VP_CHECK (got == in - out, "buffer", "%zu bytes instead of %lu", got,
                      (unsigned long)(in - out));
            got = vp_range (got + 1);
            hev_circular_buffer_read_finish (b, got);
            out += got;
        }
        VP_CHECK (hev_circular_buffer_get_use_size (b) == in - out, "buffer",
                  "use size");
        if (vp_chance (10))
            mod_pause ();
    }
    hev_circular_buffer_unref (b);
}

static void
m_cbuf (void)
{
    Mod *m = mod_new ("ran: circular buffer", sizeof (Mod));

    mod_task (m, cbuf_task, vp_range (1000), 65536);
}

/* ---- streams ---- */

typedef struct
{
    Mod m;
    int a[2], b[2];
    int pipe;
    uint64_t id, want[2];
} MIo;

static void
put (int fd, int pipe, uint64_t id, uint64_t total)
{
    unsigned char buf[3000];
    uint64_t pos = 0;

    while (pos < total) {
        size_t n = 1 + vp_range (sizeof (buf)), i;
        ssize_t s;

        if (n > total - pos)
            n = total - pos;
        for (i = 0; i < n; i++)
            buf[i] = mod_byte (id, pos + i);
        if (vp_chance (30)) {
            struct iovec iov[2];
            iov[0].iov_base = buf;
            iov[0].iov_len = n / 2;
            iov[1].iov_base = buf + n / 2;
            iov[1].iov_len = n - n / 2;
            if (pipe || vp_chance (50)) {
                s = hev_task_io_writev (fd, iov, 2, NULL, NULL);
            } else {
                struct msghdr mh;
                memset (&mh, 0, sizeof (mh));
                mh.msg_iov = iov;
                mh.msg_iovlen = 2;
                s = hev_task_io_socket_sendmsg (fd, &mh, 0, NULL, NULL);
            }
        } else if (!pipe && vp_chance (40)) {
            s = hev_task_io_socket_send (fd, buf, n,
                                         vp_chance (50) ? MSG_WAITALL : 0, NULL,
                                         NULL);
        } else {
            s = hev_task_io_write (fd, buf, n, NULL, NULL);
        }
        VP_CHECK (s > 0 && (size_t)s <= n, "write", "%zd of %zu bytes", s, n);
        pos += s;
    }
}

static uint64_t
take (int fd, int pipe, uint64_t id, uint64_t limit)
{
    unsigned char buf[3000];
    uint64_t pos = 0;

    while (pos < limit) {
        size_t n = 1 + vp_range (sizeof (buf)), i;
        ssize_t s;

        if (n > limit - pos)
            n = limit - pos;
        if (vp_chance (30)) {
            struct iovec iov[2];
            iov[0].iov_base = buf;
            iov[0].iov_len = n / 2;
            iov[1].iov_base = buf + n / 2;
            iov[1].iov_len = n - n / 2;
            if (pipe || vp_chance (50)) {
                s = hev_task_io_readv (fd, iov, 2, NULL, NULL);
            } else {
                struct msghdr mh;
                memset (&mh, 0, sizeof (mh));
                mh.msg_iov = iov;
                mh.msg_iovlen = 2;
                s = hev_task_io_socket_recvmsg (fd, &mh, 0, NULL, NULL);
            }
        } else if (!pipe && vp_chance (40)) {
            s = hev_task_io_socket_recv (fd, buf, n,
                                         vp_chance (50) ? MSG_WAITALL : 0, NULL,
                                         NULL);
        } else {
            s = hev_task_io_read (fd, buf, n, NULL, NULL);
        }
        VP_CHECK (s >= 0 && s <= (ssize_t)n, "read", "%zd of %zu bytes", s, n);
        if (s == 0)
            return pos;
        for (i = 0; i < (size_t)s; i++)
            VP_CHECK (buf[i] == mod_byte (id, pos + i), "data", "byte %lu",
                      (unsigned long)(pos + i));
        pos += s;
    }
    return pos;
}

static void
io_writer (Mod *mod, int i)
{
    MIo *m = (MIo *)mod;
    HevTask *self = hev_task_self ();

    VP_CHECK (hev_task_add_fd (self, m->a[1], POLLOUT) == 0, "add", "failed");
    put (m->a[1], m->pipe, m->id, m->want[0]);
    hev_task_del_fd (self, m->a[1]);
    close (m->a[1]);
}

static void
io_reader (Mod *mod, int i)
{
    MIo *m = (MIo *)mod;
    HevTask *self = hev_task_self ();
    uint64_t n;

    VP_CHECK (hev_task_add_fd (self, m->a[0], POLLIN) == 0, "add", "failed");
    n = take (m->a[0], m->pipe, m->id, -1);
    VP_CHECK (n == m->want[0], "data", "%lu of %lu bytes", (unsigned long)n,
              (unsigned long)m->want[0]);
    hev_task_del_fd (self, m->a[0]);
    close (m->a[0]);
}

static void
m_io (void)
{
    MIo *m = mod_new ("ran: streams", sizeof (MIo));

    m->pipe = vp_chance (40);
    m->id = vp_rnd ();
    m->want[0] = vp_range (vp_chance (20) ? 300000 : 4000);
    if (m->pipe)
        VP_CHECK (hev_task_io_pipe_pipe (m->a) == 0, "pipe", "failed");
    else
        VP_CHECK (hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0,
                                                 m->a) == 0,
                  "socketpair", "failed");
    mod_task (&m->m, io_writer, 0, 65536);
    mod_task (&m->m, io_reader, 0, 65536);
}

/* ---- splicing ---- */

static void
splice_end_writer (Mod *mod, int i)
{
    MIo *m = (MIo *)mod;
    int fd = i ? m->b[1] : m->a[0];
    HevTask *self = hev_task_self ();

    VP_CHECK (hev_task_add_fd (self, fd, POLLIN | POLLOUT) == 0, "add", "failed");
    put (fd, 0, m->id + i, m->want[i]);
    /* the second end waits for the end of the first */
    VP_CHECK (take (fd, 0, m->id + 1 - i, i ? -1 : (int64_t)m->want[1]) ==
                  m->want[1 - i],
              "data", "not all bytes were spliced");
    hev_task_del_fd (self, fd);
    close (fd);
}

static void
splice_task (Mod *mod, int chained)
{
    MIo *m = (MIo *)mod;
    HevTask *self = hev_task_self ();
    int x = m->a[1], y = m->b[0];

    VP_CHECK (hev_task_add_fd (self, x, POLLIN | POLLOUT) == 0, "add", "failed");
    VP_CHECK (hev_task_add_fd (self, y, POLLIN | POLLOUT) == 0, "add", "failed");
    if (!chained) {
        hev_task_io_splice (x, x, y, y, 1 + vp_range (20000), NULL, NULL);
        hev_task_del_fd (self, x);
        hev_task_del_fd (self, y);
        close (x);
        close (y);
    } else {
        HevTaskCIO *p = HEV_TASK_CIO (hev_task_cio_fd_new (x, x));
        HevTaskCIO *q = HEV_TASK_CIO (hev_task_cio_socket_new (AF_UNIX, y));

        VP_CHECK (p && q, "cio", "no layer");
        hev_task_cio_splice (p, q, 1 + vp_range (20000), NULL, NULL);
        hev_task_del_fd (self, x);
        hev_task_del_fd (self, y);
        hev_object_unref (HEV_OBJECT (p));
        hev_object_unref (HEV_OBJECT (q));
    }
}

static void
m_splice (void)
{
    MIo *m = mod_new ("ran: splicing", sizeof (MIo));

    m->id = vp_rnd () >> 1;
    m->want[0] = vp_range (vp_chance (20) ? 100000 : 3000);
    m->want[1] = vp_range (3000);
    VP_CHECK (hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, m->a) == 0,
              "socketpair", "failed");
    VP_CHECK (hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, m->b) == 0,
              "socketpair", "failed");
    mod_task (&m->m, splice_task, 0, 65536);
    mod_task (&m->m, splice_end_writer, 0, 65536);
    mod_task (&m->m, splice_end_writer, 1, 65536);
}

/* ---- polling ---- */

static void
poll_waiter (Mod *mod, int i)
{
    MIo *m = (MIo *)mod;
    HevTask *self = hev_task_self ();
    struct pollfd pfd[1];
    char c;
    int r;

    for (;;) {
        pfd[0].fd = m->a[0];
        pfd[0].events = POLLIN;
        pfd[0].revents = 0;
        do { /* a signal ends it as it ends poll itself */
            r = hev_task_io_poll (pfd, 1, vp_chance (60) ? -1 : vp_range (3));
        } while (r < 0 && errno == EINTR && vp_sig);
        VP_CHECK (r >= 0 && r <= 1, "poll", "returned %d", r);
        if (r == 1)
            break;
    }
    VP_CHECK (__real_read (m->a[0], &c, 1) == 1 && c == 'p', "poll",
              "not readable");
    hev_task_del_fd (self, m->a[0]);
    close (m->a[0]);
}

static void
poll_waker (Mod *mod, int i)
{
    MIo *m = (MIo *)mod;

    mod_pause ();
    mod_pause ();
    VP_HARNESS (__real_write (m->a[1], "p", 1) == 1);
    mod_pause ();
    close (m->a[1]);
}

static void
m_poll (void)
{
    MIo *m = mod_new ("ran: polling", sizeof (MIo));

    VP_CHECK (hev_task_io_pipe_pipe (m->a) == 0, "pipe", "failed");
    mod_task (&m->m, poll_waiter, 0, -1);
    mod_task (&m->m, poll_waker, 0, -1);
}

/* ---- chains ---- */

static HevTaskCIO *
chain_of (int fd)
{
    HevTaskCIO *c, *l;
    int n;

    c = vp_chance (50) ?
            HEV_TASK_CIO (hev_task_cio_fd_new (fd, fd)) :
            HEV_TASK_CIO (hev_task_cio_socket_new (AF_UNIX, fd));
    VP_CHECK (c, "cio", "no layer");
    for (n = vp_range (3); n; n--) {
        l = HEV_TASK_CIO (
            hev_task_cio_buffer_new (vp_range (300), vp_range (300)));
        VP_CHECK (l, "cio", "no layer");
        c = hev_task_cio_push (l, c);
    }
    return c;
}

static void
cio_writer (Mod *mod, int i)
{
    MIo *m = (MIo *)mod;
    HevTask *self = hev_task_self ();
    HevTaskCIO *c = chain_of (m->a[1]);
    HevTaskCIO *z = HEV_TASK_CIO (hev_task_cio_null_new ());
    unsigned char buf[2000];
    uint64_t pos = 0;
    int fd;

    VP_CHECK (z, "cio", "no layer");
    fd = hev_task_cio_get_fd (c, 1);
    VP_CHECK (fd == m->a[1], "cio", "another descriptor");
    VP_CHECK (hev_task_add_fd (self, fd, POLLOUT) == 0, "add", "failed");
    while (pos < m->want[0]) {
        size_t n = 1 + vp_range (sizeof (buf)), k;
        if (n > m->want[0] - pos)
            n = m->want[0] - pos;
        for (k = 0; k < n; k++)
            buf[k] = mod_byte (m->id, pos + k);
        VP_CHECK (hev_task_cio_write_exact (c, buf, n, NULL, NULL) ==
                      (ssize_t)n,
                  "cio", "a write failed");
        pos += n;
        VP_CHECK (hev_task_cio_write (z, buf, n, NULL, NULL) == (ssize_t)n,
                  "cio", "a write to nowhere failed");
    }
    VP_CHECK (hev_task_cio_flush (c, NULL, NULL) == 0, "cio", "no flush");
    hev_task_del_fd (self, fd);
    hev_object_unref (HEV_OBJECT (c));
    hev_object_unref (HEV_OBJECT (z));
}

static void
cio_reader (Mod *mod, int i)
{
    MIo *m = (MIo *)mod;
    HevTask *self = hev_task_self ();
    HevTaskCIO *c = chain_of (m->a[0]);
    unsigned char buf[2000];
    uint64_t pos = 0;

    VP_CHECK (hev_task_add_fd (self, m->a[0], POLLIN) == 0, "add", "failed");
    for (;;) {
        size_t n = 1 + vp_range (sizeof (buf)), k;
        ssize_t s = vp_chance (50) ?
                        hev_task_cio_read (c, buf, n, NULL, NULL) :
                        hev_task_cio_read_exact (c, buf, n, NULL, NULL);
        VP_CHECK (s >= 0, "cio", "a read failed");
        if (!s)
            break;
        for (k = 0; k < (size_t)s; k++)
            VP_CHECK (buf[k] == mod_byte (m->id, pos + k), "data", "byte %lu",
                      (unsigned long)(pos + k));
        pos += s;
    }
    VP_CHECK (pos == m->want[0], "data", "%lu of %lu bytes", (unsigned long)pos,
              (unsigned long)m->want[0]);
    hev_task_del_fd (self, m->a[0]);
    hev_object_unref (HEV_OBJECT (c));
}

static void
m_cio (void)
{
    MIo *m = mod_new ("ran: chains", sizeof (MIo));

    m->id = vp_rnd ();
    m->want[0] = vp_range (6000);
    VP_CHECK (hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, m->a) == 0,
              "socketpair", "failed");
    mod_task (&m->m, cio_writer, 0, 65536);
    mod_task (&m->m, cio_reader, 0, 65536);
}

static void
m_ciosplice (void)
{
    MIo *m = mod_new ("ran: splicing chains", sizeof (MIo));

    m->id = vp_rnd () >> 1;
    m->want[0] = vp_range (3000);
    m->want[1] = vp_range (3000);
    VP_CHECK (hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, m->a) == 0,
              "socketpair", "failed");
    VP_CHECK (hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, m->b) == 0,
              "socketpair", "failed");
    mod_task (&m->m, splice_task, 1, 65536);
    mod_task (&m->m, splice_end_writer, 0, 65536);
    mod_task (&m->m, splice_end_writer, 1, 65536);
}

/* ---- calls ---- */

typedef struct
{
    HevTaskCall base;
    int x;
} MCall;

static void
call_entry (HevTaskCall *call)
{
    MCall *c = (MCall *)call;
    volatile char room[1500];
    int i;

    for (i = 0; i < (int)sizeof (room); i++)
        room[i] = (char)(c->x + i);
    mod_pause ();
    for (i = 0; i < (int)sizeof (room); i++)
        VP_CHECK (room[i] == (char)(c->x + i), "call", "a local variable changed");
    hev_task_call_set_retval (call, (void *)(intptr_t)(c->x * 3));
}

static void
call_task (Mod *mod, int i)
{
    MCall *c = (MCall *)hev_task_call_new (sizeof (MCall) + vp_range (100),
                                            16384 + vp_range (100));
    int n = 1 + vp_range (4);

    VP_CHECK (c, "call", "not made");
    while (n--) {
        void *r;
        c->x = vp_range (100000);
        r = hev_task_call_jump (&c->base, call_entry);
        VP_CHECK (r == (void *)(intptr_t)(c->x * 3), "call", "another result");
    }
    hev_task_call_destroy (&c->base);
}

static void
m_call (void)
{
    Mod *m = mod_new ("ran: calls", sizeof (Mod));
    int n = 1 + vp_range (2);

    while (n--)
        mod_task (m, call_task, n, -1);
}

/* ---- memory ---- */

static void
alloc_task (Mod *mod, int id)
{
    unsigned char *p[20] = { NULL };
    size_t n[20] = { 0 }, k;
    int steps = 60, i;

    while (steps--) {
        i = vp_range (20);
        if (p[i]) {
            for (k = 0; k < n[i]; k++)
                VP_CHECK (p[i][k] == mod_byte (id + i, k), "memory",
                          "a block changed");
            if (vp_chance (30)) {
                size_t o = n[i];
                n[i] = 1 + vp_range (3000);
                p[i] = hev_realloc (p[i], n[i]);
                VP_CHECK (p[i], "memory", "no block");
                for (k = 0; k < o && k < n[i]; k++)
                    VP_CHECK (p[i][k] == mod_byte (id + i, k), "memory",
                              "a block changed when it grew");
                for (k = 0; k < n[i]; k++)
                    p[i][k] = mod_byte (id + i, k);
            } else {
                hev_free (p[i]);
                p[i] = NULL;
            }
        } else {
            n[i] = 1 + vp_range (vp_chance (20) ? 9000 : 300);
            p[i] = vp_chance (30) ? hev_malloc0 (n[i]) : hev_malloc (n[i]);
            VP_CHECK (p[i], "memory", "no block");
            for (k = 0; k < n[i]; k++)
                p[i][k] = mod_byte (id + i, k);
        }
        if (vp_chance (10))
            mod_pause ();
    }
    for (i = 0; i < 20; i++)
        if (p[i])
            hev_free (p[i]);
}

static void
m_alloc (void)
{
    Mod *m = mod_new ("ran: memory", sizeof (Mod));
    int n = 1 + vp_range (3);

    while (n--)
        mod_task (m, alloc_task, vp_range (100000), 65536);
}

/* ---- files and connections ---- */

typedef struct
{
    Mod m;
    struct sockaddr_un addr;
    int fd, up;
} MFile;

static void
file_path (char *buf, size_t n)
{
    static int ids;

    snprintf (buf, n, "vpf-%d-%d", (int)getpid (),
              __atomic_fetch_add (&ids, 1, __ATOMIC_RELAXED));
}

static void
file_task (Mod *mod, int i)
{
    char path[64], buf[8];
    int a, b, c, n;

    file_path (path, sizeof (path));
    a = vp_chance (50) ? hev_task_io_creat (path, 0600) :
                         hev_task_io_openat (AT_FDCWD, path,
                                             O_CREAT | O_RDWR, 0600);
    VP_CHECK (a >= 0, "open", "failed with %d", errno);
    for (i = 0; i < 7; i += c) {
        c = hev_task_io_write (a, "content" + i, 7 - i, NULL, NULL);
        VP_CHECK (c > 0, "write", "failed");
    }
    b = hev_task_io_open (path, O_RDONLY);
    VP_CHECK (b >= 0, "open", "failed");
    c = hev_task_io_dup (b);
    VP_CHECK (c >= 0, "dup", "failed");
    mod_pause ();
    for (i = 0; i < 7; i += n) {
        n = hev_task_io_read (c, buf + i, 7 - i, NULL, NULL);
        VP_CHECK (n > 0, "read", "failed");
    }
    VP_CHECK (!memcmp (buf, "content", 7), "read", "another content");
    VP_CHECK (__real_fcntl (a, F_GETFL) >= 0 && __real_fcntl (b, F_GETFL) >= 0,
              "closed", "a descriptor was closed by somebody else");
    close (a);
    close (b);
    close (c);
    unlink (path);
}

static void
accept_task (Mod *mod, int i)
{
    MFile *m = (MFile *)mod;
    HevTask *self = hev_task_self ();
    unsigned char v;
    int fd;

    VP_CHECK (hev_task_add_fd (self, m->fd, POLLIN) == 0, "add", "failed");
    m->up = 1;
    fd = hev_task_io_socket_accept (m->fd, NULL, NULL, NULL, NULL);
    VP_CHECK (fd >= 0, "accept", "failed with %d", errno);
    VP_CHECK (hev_task_add_fd (self, fd, POLLIN) == 0, "add", "failed");
    VP_CHECK (hev_task_io_read (fd, &v, 1, NULL, NULL) == 1 && v == 77, "read",
              "failed");
    hev_task_del_fd (self, fd);
    hev_task_del_fd (self, m->fd);
    close (fd);
    close (m->fd);
    unlink (m->addr.sun_path);
}

static void
connect_task (Mod *mod, int i)
{
    MFile *m = (MFile *)mod;
    HevTask *self = hev_task_self ();
    unsigned char v = 77;
    int fd;

    while (!m->up)
        hev_task_sleep (1);
    fd = hev_task_io_socket_socket (AF_UNIX, SOCK_STREAM, 0);
    VP_CHECK (fd >= 0, "socket", "failed");
    VP_CHECK (hev_task_add_fd (self, fd, POLLIN | POLLOUT) == 0, "add", "failed");
    VP_CHECK (hev_task_io_socket_connect (fd, (struct sockaddr *)&m->addr,
                                          sizeof (m->addr), NULL, NULL) == 0,
              "connect", "failed with %d", errno);
    VP_CHECK (hev_task_io_write (fd, &v, 1, NULL, NULL) == 1, "write", "failed");
    hev_task_del_fd (self, fd);
    close (fd);
}

static void
m_file (void)
{
    MFile *m = mod_new ("ran: files and connections", sizeof (MFile));

    if (vp_chance (50)) {
        mod_task (&m->m, file_task, 0, 65536);
        return;
    }
    m->addr.sun_family = AF_UNIX;
    file_path (m->addr.sun_path, sizeof (m->addr.sun_path));
    m->fd = hev_task_io_socket_socket (AF_UNIX, SOCK_STREAM, 0);
    VP_CHECK (m->fd >= 0, "socket", "failed");
    VP_HARNESS (bind (m->fd, (struct sockaddr *)&m->addr, sizeof (m->addr)) == 0);
    VP_HARNESS (listen (m->fd, 5) == 0);
    mod_task (&m->m, accept_task, 0, -1);
    mod_task (&m->m, connect_task, 0, -1);
}

/* ---- objects ---- */

typedef struct
{
    HevObject base;
    int *gone;
} MObject;

static void
mobject_destruct (HevObject *o)
{
    (*((MObject *)o)->gone)++;
    HEV_OBJECT_TYPE->destruct (o);
    hev_free (o);
}

static void
object_task (Mod *mod, int i)
{
    HevObjectClass k = *HEV_OBJECT_TYPE;
    MObject *o = hev_malloc (sizeof (*o));
    int gone = 0, n = vp_range (5), j;

    k.destruct = mobject_destruct;
    VP_CHECK (hev_object_construct (&o->base) == 0, "object", "not made");
    o->base.klass = &k;
    o->gone = &gone;
    for (j = 0; j < n; j++)
        hev_object_ref (&o->base);
    mod_pause ();
    for (j = 0; j < n; j++) {
        hev_object_unref (&o->base);
        VP_CHECK (!gone, "object", "destructed early");
    }
    hev_object_unref (&o->base);
    VP_CHECK (gone == 1, "object", "destructed %d times", gone);
}

static void
m_object (void)
{
    Mod *m = mod_new ("ran: objects", sizeof (Mod));

    mod_task (m, object_task, 0, -1);
}

/* ---- lookups ---- */

static int
mods_gai (const char *node, const char *service, const struct addrinfo *hints,
          struct addrinfo **res)
{
    struct addrinfo *a =
        __real_calloc (1, sizeof (*a) + sizeof (struct sockaddr));
    int id = atoi (node);

    if (id % 3 == 0)
        usleep (id % 500);
    if (id % 5 == 0) {
        __real_free (a);
        return EAI_NONAME;
    }
    a->ai_protocol = id;
    *res = a;
    return 0;
}

static void
dns_task (Mod *mod, int i)
{
    int n = 1 + vp_range (3);

    while (n--) {
        struct addrinfo *a = NULL;
        int id = vp_range (1000000), r;
        char node[32];

        snprintf (node, sizeof (node), "%d", id);
        r = hev_task_dns_getaddrinfo (node, NULL, NULL, &a);
        VP_CHECK (r == (id % 5 == 0 ? EAI_NONAME : 0), "lookup", "returned %d",
                  r);
        if (r == 0) {
            VP_CHECK (a && a->ai_protocol == id, "lookup", "another answer");
            __real_free (a);
        }
        mod_pause ();
    }
}

static void
m_dns (void)
{
    Mod *m;
    int n = 1 + vp_range (2);

    if (!mods_dns)
        return;
    m = mod_new ("ran: lookups", sizeof (Mod));
    while (n--)
        mod_task (m, dns_task, n, -1);
}

static void (*const mods[]) (void) = {
    m_yield,  m_sleep, m_join, m_wake, m_tree,      m_mutex, m_cond,
    m_chan,   m_select, m_cbuf, m_io,  m_splice,    m_poll,  m_cio,
    m_ciosplice, m_call, m_alloc, m_file, m_object, m_dns,
};
#define NMODS ((int)(sizeof (mods) / sizeof (mods[0])))

#endif
