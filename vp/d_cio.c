/* Chained I/O: streams and datagrams through chains (C21), splicing of chains
 * (C22), lifetime of objects and layers (C23).  Far ends are driven directly,
 * outside the library, whenever the scheduler polls. */
#include "vp.h"
#include <signal.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/un.h>
#include <hev-memory-allocator.h>
#include <hev-task-system.h>
#include <hev-task.h>
#include <hev-task-io.h>
#include <hev-object.h>
#include <hev-object-atomic.h>
#include <hev-task-cio.h>
#include <hev-task-cio-fd.h>
#include <hev-task-cio-socket.h>
#include <hev-task-cio-buffer.h>
#include <hev-task-cio-null.h>

/* ------------------------------------------------------------------ */
/* a layer of our own that only passes everything on */

typedef struct
{
    HevTaskCIO base;
    int *gone;
} Tap;

static void
tap_destruct (HevObject *base)
{
    Tap *self = (Tap *)base;

    (*self->gone)++;
    HEV_TASK_CIO_TYPE->destruct (base);
    hev_free (base);
}

static HevObjectClass *
tap_class (void)
{
    static HevTaskCIOClass klass;

    if (!klass.base.name) {
        memcpy (&klass, HEV_TASK_CIO_TYPE, sizeof (klass));
        klass.base.name = "Tap";
        klass.base.destruct = tap_destruct;
    }
    return &klass.base;
}

static HevTaskCIO *
tap_new (int *gone)
{
    Tap *self = hev_malloc (sizeof (Tap));

    VP_HARNESS (self);
    memset (self, 0xEE, sizeof (Tap));
    VP_HARNESS (hev_task_cio_construct (&self->base) == 0);
    self->base.base.klass = tap_class ();
    self->gone = gone;
    return &self->base;
}

static size_t
layer_size (int bulk)
{
    switch (vp_range (bulk ? 6 : 5)) {
    case 0:
        return 0;
    case 1:
        return 1 + vp_range (4);
    case 2:
    case 3:
        return 1 + vp_range (100);
    default:
        return 1 + vp_range (5000);
    }
}

/* puts layers on top of a chain */
static HevTaskCIO *
stack (HevTaskCIO *c, int n, int bulk, int *gone, int *taps, int *top_is_buffer)
{
    *top_is_buffer = 0;
    while (n--) {
        HevTaskCIO *l;
        if (vp_chance (20)) {
            l = tap_new (gone);
            (*taps)++;
            *top_is_buffer = 0;
        } else {
            size_t r = layer_size (bulk);
            l = HEV_TASK_CIO (hev_task_cio_buffer_new (r, layer_size (bulk)));
            VP_CHECK (l, "new", "no buffer layer");
            *top_is_buffer = r ? 2 : 1;
        }
        c = hev_task_cio_push (l, c);
        VP_CHECK (c == l, "push", "push returned another layer");
    }
    return c;
}

static int
is_open (int fd)
{
    return __real_fcntl (fd, F_GETFD) >= 0;
}

static int
has_input (int fd)
{
    struct pollfd p = { fd, POLLIN, 0 };

    vp_poll (&p, 1, 0);
    return !!(p.revents & (POLLIN | POLLHUP | POLLERR));
}

/* ------------------------------------------------------------------ */
/* streams through one chain */

#define MAXC 3
#define MAXV 300
#define BIG 20000

enum { W_NONE, W_READ, W_WRITE, W_FLUSH };

typedef struct
{
    HevTask *h;
    HevTaskCIO *top;
    int kind; /* 0: two pipes, 1: socket layer, 2: fd layer on a socket,
                 3: null */
    int fdi, fdo, src, dst;
    int layers, taps, gone, topbuf, bulk;
    uint64_t fed, taken, rd, limit;
    uint64_t wrote, sent, drained, extra;
    int ended, broken, in_dead, out_dead;
    int rerr, werr;   /* errors that stay */
    uint64_t rerr_at, werr_at;
    int inj;          /* error injected once in this operation */
    int waiting, need;
    uint64_t peeked;
    int live, quota, lazy, stopped, stop_at, oneshot;
} C;

static C cs[MAXC];
static int nc, live, suspicious;

static unsigned char
byte_at (C *c, int dir, uint64_t pos)
{
    return vp_hash64 ((c - cs) * 2 + dir + 700, pos);
}

static int
c_feed (C *c)
{
    unsigned char buf[8192];
    size_t n, i;
    ssize_t r;

    if (c->ended || c->src < 0)
        return 0;
    if (c->fed >= c->limit) {
        if (c->src == c->dst)
            shutdown (c->src, SHUT_WR);
        else
            __real_close (c->src), c->src = -1;
        c->ended = 1;
        vp_ev ("inputs ended");
        return 1;
    }
    n = 1 + (c->bulk ? vp_range (sizeof (buf)) : vp_range (200));
    if (n > c->limit - c->fed)
        n = c->limit - c->fed;
    for (i = 0; i < n; i++)
        buf[i] = byte_at (c, 0, c->fed + i);
    r = __real_write (c->src, buf, n);
    if (r <= 0)
        return 0;
    c->fed += r;
    return 1;
}

static int
c_drain (C *c)
{
    unsigned char buf[8192];
    ssize_t r;
    size_t i;

    if (c->broken || c->dst < 0)
        return 0;
    r = __real_read (c->dst, buf, c->bulk ? sizeof (buf) : 1 + vp_range (200));
    if (r <= 0)
        return 0;
    for (i = 0; i < (size_t)r; i++)
        VP_CHECK (buf[i] == byte_at (c, 1, c->drained + i), "out-data",
                  "byte %lu written to a chain of %d layers came out wrong",
                  (unsigned long)(c->drained + i), c->layers);
    c->drained += r;
    vp_evn ("bytes out", r);
    return 1;
}

static void
c_hangup (C *c)
{
    if (c->broken || c->dst < 0)
        return;
    while (c_drain (c))
        ;
    __real_close (c->dst);
    if (c->src == c->dst) {
        c->src = -1;
        c->ended = 1;
    }
    c->dst = -1;
    c->broken = 1;
    vp_ev ("outputs broken");
}

static C *
c_of (int fd, int *out)
{
    int i;

    for (i = 0; i < nc; i++)
        if (cs[i].live && cs[i].kind < 3 &&
            (cs[i].fdi == fd || cs[i].fdo == fd))
            return &cs[i];
    return NULL;
}

static void
c_sys (const char *op, int fd, ssize_t ret, int err)
{
    C *c = c_of (fd, NULL);

    if (!c || ret <= 0)
        return;
    if (op[0] == 'w' || op[0] == 's') {
        c->sent += ret;
        VP_CHECK (c->sent <= c->wrote + c->extra, "invented",
                  "%lu bytes sent of %lu written", (unsigned long)c->sent,
                  (unsigned long)(c->wrote + c->extra));
    } else {
        c->taken += ret;
    }
}

static int
c_force (const char *op, int fd, ssize_t *ret, int *err)
{
    C *c = c_of (fd, NULL);
    int out = op[0] == 'w' || op[0] == 's';

    if (!c)
        return 0;
    *ret = -1;
    if (!out && c->rerr && c->taken >= c->rerr_at) {
        *err = c->rerr;
        vp_ev ("lasting read errors");
        return 1;
    }
    if (out && c->werr && c->sent >= c->werr_at) {
        *err = c->werr;
        vp_ev ("lasting write errors");
        return 1;
    }
    if (c->oneshot && vp_chance (c->oneshot)) {
        *err = c->inj = out ? ENOBUFS : ENOMEM;
        vp_ev ("passing errors");
        return 1;
    }
    return 0;
}

static void
c_poll (int timeout)
{
    C *c = &cs[vp_range (nc)];

    if (!c->live || c->kind == 3 || vp_chance (50))
        return;
    if (vp_chance (50))
        c_feed (c);
    else if (!vp_chance (c->lazy))
        c_drain (c);
    if (vp_chance (1) && vp_chance (20))
        c_hangup (c);
}

static int
c_idle (void)
{
    char why[200] = "";
    int i, t, bad = 0;

    for (i = 0; i < nc; i++) {
        C *c = &cs[i];
        if (!c->live || !c->waiting)
            continue;
        if (c->waiting == W_READ) {
            if (has_input (c->fdi)) {
                bad = 1;
                snprintf (why, sizeof (why),
                          "a read through %d layers waits although the "
                          "descriptor has input",
                          c->layers);
            }
            if (c->taken - c->rd >= (uint64_t)c->need) {
                bad = 1;
                snprintf (why, sizeof (why),
                          "a read of %d bytes through %d layers waits although "
                          "the chain holds %lu",
                          c->need, c->layers,
                          (unsigned long)(c->taken - c->rd));
            }
        } else if (vp_writable (c->fdo)) {
            bad = 1;
            snprintf (why, sizeof (why),
                      "a %s through %d layers waits although the descriptor "
                      "takes data",
                      c->waiting == W_WRITE ? "write" : "flush", c->layers);
        }
    }
    if (bad) {
        if (suspicious++ > 20)
            vp_fail ("stall", "%s", why);
        usleep (200);
        return 1;
    }
    suspicious = 0;
    vp_ev ("idle points checked");
    for (t = 0; t < 2; t++)
        for (i = 0; i < nc; i++) {
            C *c = &cs[i];
            if (!c->live || c->kind == 3 || (t == 0 && vp_chance (50)))
                continue;
            if ((vp_chance (50) && c_feed (c)) || c_drain (c) || c_feed (c))
                return 1;
        }
    return 0;
}

static int
c_yielder_body (HevTaskYieldType type, void *data)
{
    C *c = data;

    VP_CHECK (c >= cs && c < cs + nc && hev_task_self () == c->h, "yielder",
              "wrong data or task");
    VP_CHECK (type == HEV_TASK_WAITIO, "yielder", "type %d", type);
    VP_CHECK (!c->stopped, "yielder", "called after it asked to stop");
    if (c->stop_at && --c->stop_at == 0) {
        c->stopped = 1;
        vp_ev ("yielder stops");
        return 1;
    }
    hev_task_yield (type);
    return 0;
}

VP_YIELDER (c_yielder)

/* cuts a buffer into pieces, some of them empty */
static int
pieces (struct iovec *iov, unsigned char *buf, size_t n)
{
    size_t off = 0;
    int k = 0, many = vp_chance (2), max = 1 + vp_range (5);

    if (many) {
        max = 10 + vp_range (MAXV - 20);
        vp_ev ("vectors of many pieces");
    }
    while (k < max || off < n) {
        size_t l = k >= (many ? MAXV - 1 : 7) ? n - off :
                   vp_chance (20) ? 0 :
                   k >= max - 1 ? n - off :
                   many ? vp_rnd () % (2 * (n - off) / (max - k) + 1) :
                                  vp_rnd () % (n - off + 1);
        iov[k].iov_base = buf + off;
        iov[k].iov_len = l;
        off += l;
        k++;
    }
    return k;
}

static void
begin (C *c, int what, int need)
{
    c->waiting = what;
    c->need = need;
    c->stopped = c->inj = 0;
    c->stop_at = vp_chance (10) ? 1 + vp_range (4) : 0;
}

static void
check_stop (C *c, ssize_t r)
{
    c->waiting = 0;
    VP_CHECK ((r == -2) == c->stopped, "yielder",
              "result %zd, the yielder %s stop", r,
              c->stopped ? "asked to" : "did not ask to");
}

/* a failure must have a reason and carry its code */
static void
check_error (C *c, int out)
{
    int err = c->top->err;
    int want = out ? c->werr : c->rerr;

    if (c->inj && err == c->inj)
        return;
    if (want && err == want)
        return;
    if (out && c->broken && (err == EPIPE || err == ECONNRESET))
        return;
    if (!out && c->broken && c->src < 0 && err == ECONNRESET)
        return;
    vp_fail ("error", "%s fails with code %d, without such a failure below",
             out ? "output" : "input", err);
}

static void
c_read (C *c)
{
    static unsigned char buf[MAXC][BIG + 16];
    unsigned char *b = buf[c - cs];
    HevTaskIOYielder y = vp_chance (50) ? c_yielder : NULL;
    size_t n = 1 + vp_range (c->bulk ? BIG : 200), i;
    int kind = vp_range (4), k = 0;
    struct iovec iov[MAXV], iov0[MAXV];
    ssize_t r;

    if (c->in_dead)
        return;
    memset (b + n, 0x77, 16);
    if (kind >= 2) {
        k = pieces (iov, b, n);
        memcpy (iov0, iov, k * sizeof (iov[0]));
    }
    begin (c, W_READ, kind % 2 ? n : 1);
    if (!y)
        c->stop_at = 0;
    switch (kind) {
    case 0:
        r = VP_YCALL (y, hev_task_cio_read (c->top, b, n, y, c));
        break;
    case 1:
        r = VP_YCALL (y, hev_task_cio_read_exact (c->top, b, n, y, c));
        break;
    case 2:
        r = VP_YCALL (y, hev_task_cio_readv (c->top, iov, k, y, c));
        break;
    default:
        r = VP_YCALL (y, hev_task_cio_readv_exact (c->top, iov, k, y, c));
    }
    check_stop (c, r);
    if (kind >= 2)
        VP_CHECK (!memcmp (iov0, iov, sizeof (iov[0]) * k), "vector",
                  "the caller's vector was modified");
    for (i = 0; i < 16; i++)
        VP_CHECK (b[n + i] == 0x77, "overrun", "a read wrote past its buffer");
    if (c->kind == 3) {
        VP_CHECK (r == 0, "null", "read from a null chain returned %zd", r);
        vp_ev ("null reads");
        return;
    }
    if (r == -2) {
        if (kind % 2)
            c->in_dead = 1;
        return;
    }
    if (r < 0) {
        VP_CHECK (r == -1, "result", "read returned %zd", r);
        check_error (c, 0);
        VP_CHECK (!(c->rerr && !c->inj) || c->taken == c->rd || c->broken,
                  "held-back", "a lasting error reported before %lu bytes that "
                               "came earlier",
                  (unsigned long)(c->taken - c->rd));
        if (!c->inj)
            c->in_dead = vp_chance (50);
        return;
    }
    if (r == 0) {
        VP_CHECK (c->ended && (c->rd == c->fed || c->broken), "eof",
                  "end of file after %lu of %lu bytes", (unsigned long)c->rd,
                  (unsigned long)c->fed);
        vp_ev ("ends of file");
        return;
    }
    VP_CHECK ((size_t)r <= n, "result", "%zd bytes for a read of %zu", r, n);
    VP_CHECK (c->rd + r <= c->taken, "invented", "more read than there was");
    for (i = 0; i < (size_t)r; i++)
        VP_CHECK (b[i] == byte_at (c, 0, c->rd + i), "in-data",
                  "byte %lu of the input came out wrong through %d layers",
                  (unsigned long)(c->rd + i), c->layers);
    if (kind % 2 && (size_t)r < n)
        VP_CHECK (c->inj || c->rerr || c->ended, "exact",
                  "%zd of exactly %zu bytes read without end or error", r, n);
    c->rd += r;
    c->peeked = c->peeked > (uint64_t)r ? c->peeked - r : 0;
    vp_evn ("bytes in", r);
    vp_mix (r);
}

static void
c_peek (C *c)
{
    static unsigned char buf[MAXC][BIG + 16];
    unsigned char *b = buf[c - cs];
    size_t n = vp_range (c->bulk ? BIG : 200), i, got = 0, j;
    struct iovec iov[2];
    int avail = has_input (c->fdi), k, inj0;
    uint64_t fed = c->fed - c->taken;
    ssize_t r;

    if (c->in_dead || c->topbuf != 2)
        return;
    c->inj = 0;
    inj0 = vp_inj_count;
    memset (b + n, 0x77, 16);
    if (vp_chance (50)) {
        r = hev_task_cio_buffer_peek (HEV_TASK_CIO_BUFFER (c->top), b, n);
        VP_CHECK (r >= 0 && (size_t)r <= n, "result", "peek of %zu returned %zd",
                  n, r);
        for (i = 0; i < 16; i++)
            VP_CHECK (b[n + i] == 0x77, "overrun",
                      "a peek wrote past its buffer");
        got = r;
        for (i = 0; i < got; i++)
            VP_CHECK (b[i] == byte_at (c, 0, c->rd + i), "peek-data",
                      "byte %zu of a peek is wrong", i);
    } else {
        k = hev_task_cio_buffer_peekv (HEV_TASK_CIO_BUFFER (c->top), iov);
        VP_CHECK (k >= 0 && k <= 2, "result", "peekv returned %d", k);
        for (j = 0; j < (size_t)k; j++) {
            VP_CHECK (iov[j].iov_len > 0, "result", "peekv with an empty piece");
            for (i = 0; i < iov[j].iov_len; i++)
                VP_CHECK (((unsigned char *)iov[j].iov_base)[i] ==
                              byte_at (c, 0, c->rd + got + i),
                          "peek-data", "byte %zu of a peek is wrong", got + i);
            got += iov[j].iov_len;
        }
        n = BIG;
    }
    VP_CHECK (got >= (n < c->peeked ? n : c->peeked), "peek-shrinks",
              "a peek shows %zu bytes, one before it %lu", got,
              (unsigned long)c->peeked);
    VP_CHECK (c->rd + got <= c->taken, "invented", "more peeked than there was");
    if (n && avail && fed && !c->inj && !c->rerr && inj0 == (int)vp_inj_count)
        VP_CHECK (got > 0, "peek-empty",
                  "a peek shows nothing although there is input");
    if (got > c->peeked)
        c->peeked = got;
    vp_ev ("peeks");
}

static void
c_write (C *c)
{
    static unsigned char buf[MAXC][BIG];
    unsigned char *b = buf[c - cs];
    HevTaskIOYielder y = vp_chance (50) ? c_yielder : NULL;
    size_t n = 1 + vp_range (c->bulk ? BIG : 200), i;
    int kind = vp_range (4), k = 0;
    struct iovec iov[MAXV], iov0[MAXV];
    ssize_t r;

    if (c->out_dead)
        return;
    for (i = 0; i < n; i++)
        b[i] = byte_at (c, 1, c->wrote + i);
    if (kind >= 2) {
        k = pieces (iov, b, n);
        memcpy (iov0, iov, k * sizeof (iov[0]));
    }
    begin (c, W_WRITE, n);
    if (!y)
        c->stop_at = 0;
    c->extra = n;
    switch (kind) {
    case 0:
        r = VP_YCALL (y, hev_task_cio_write (c->top, b, n, y, c));
        break;
    case 1:
        r = VP_YCALL (y, hev_task_cio_write_exact (c->top, b, n, y, c));
        break;
    case 2:
        r = VP_YCALL (y, hev_task_cio_writev (c->top, iov, k, y, c));
        break;
    default:
        r = VP_YCALL (y, hev_task_cio_writev_exact (c->top, iov, k, y, c));
    }
    check_stop (c, r);
    if (kind >= 2)
        VP_CHECK (!memcmp (iov0, iov, sizeof (iov[0]) * k), "vector",
                  "the caller's vector was modified");
    if (r == -2) {
        if (kind % 2)
            c->out_dead = 1; /* how much was taken is not known */
        else
            c->extra = 0;
        return;
    }
    c->extra = 0;
    if (r < 0) {
        VP_CHECK (r == -1, "result", "write returned %zd", r);
        check_error (c, 1);
        if (!c->inj)
            c->out_dead = vp_chance (50);
        return;
    }
    VP_CHECK (r > 0 && (size_t)r <= n, "result", "write of %zu returned %zd", n,
              r);
    if (kind % 2 && (size_t)r < n)
        VP_CHECK (c->inj || c->werr || c->broken, "exact",
                  "%zd of exactly %zu bytes written without an error", r, n);
    memset (b, 0x99, n); /* what was taken must have been copied */
    c->wrote += r;
    VP_CHECK (c->sent <= c->wrote, "invented", "more sent than written");
    vp_mix (r);
}

static void
c_flush (C *c)
{
    HevTaskIOYielder y = vp_chance (50) ? c_yielder : NULL;
    int r;

    begin (c, W_FLUSH, 0);
    if (!y)
        c->stop_at = 0;
    r = VP_YCALL (y, hev_task_cio_flush (c->top, y, c));
    check_stop (c, r);
    if (r == -2)
        return;
    if (r < 0) {
        VP_CHECK (r == -1, "result", "flush returned %d", r);
        check_error (c, 1);
        return;
    }
    VP_CHECK (r == 0, "result", "flush returned %d", r);
    if (c->kind < 3)
        VP_CHECK (c->sent >= c->wrote && c->sent <= c->wrote + c->extra,
                  "flush", "%lu bytes written, %lu sent after a flush",
                  (unsigned long)c->wrote, (unsigned long)c->sent);
    vp_ev ("flushes");
}

static void
c_entry (void *data)
{
    C *c = data;
    uint64_t c0, c1;
    int i;

    if (c->kind < 3) {
        if (c->fdi == c->fdo) {
            hev_task_add_fd (c->h, c->fdi, POLLIN | POLLOUT);
        } else {
            hev_task_add_fd (c->h, c->fdi, POLLIN);
            hev_task_add_fd (c->h, c->fdo, POLLOUT);
        }
    }
    while (c->quota--) {
        switch (vp_range (12)) {
        case 0 ... 3:
            c_read (c);
            break;
        case 4 ... 7:
            c_write (c);
            break;
        case 8:
            c_flush (c);
            break;
        case 9:
            if (c->kind < 3)
                c_peek (c);
            break;
        case 10:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        default:
            VP_CHECK (hev_task_cio_get_fd (c->top, 0) == c->fdi &&
                          hev_task_cio_get_fd (c->top, 1) == c->fdo,
                      "get-fd", "wrong descriptor");
        }
    }
    if (vp_chance (70))
        c_flush (c);
    c->live = 0;
    live--;
    vp_mix (c->rd * 31 + c->wrote);
    c->bulk = 1;
    while (c_drain (c))
        ;
    if (!c->broken && c->kind < 3)
        VP_CHECK (c->drained == c->sent, "lost", "%lu bytes sent, %lu arrived",
                  (unsigned long)c->sent, (unsigned long)c->drained);
    if (c->kind < 3) {
        hev_task_del_fd (c->h, c->fdi);
        if (c->fdi != c->fdo)
            hev_task_del_fd (c->h, c->fdo);
        VP_CHECK (is_open (c->fdi) && is_open (c->fdo), "closed",
                  "descriptor closed before the chain died");
        c0 = vp_close_count[c->fdi];
        c1 = vp_close_count[c->fdo];
    }
    VP_CHECK (c->gone == 0, "died", "a layer died before the chain");
    hev_object_unref (HEV_OBJECT (c->top));
    VP_CHECK (c->gone == c->taps, "alive", "%d of %d layers died with the chain",
              c->gone, c->taps);
    if (c->kind < 3) {
        VP_CHECK (!is_open (c->fdi) && !is_open (c->fdo), "left-open",
                  "descriptor still open after the chain died");
        VP_CHECK (vp_close_count[c->fdi] == c0 + 1 &&
                      vp_close_count[c->fdo] == c1 + 1,
                  "closes", "a descriptor was closed %lu times",
                  (unsigned long)(vp_close_count[c->fdi] - c0));
        for (i = 0; i < 2; i++) {
            int fd = i ? c->dst : c->src;
            if (fd >= 0 && !(i && c->dst == c->src))
                __real_close (fd);
        }
    }
}

static void
c_noise (void *data)
{
    int n = vp_range (80);

    while (n-- && live) {
        C *c = &cs[vp_range (nc)];
        if (c->live && vp_chance (50)) {
            hev_task_wakeup (c->h);
            vp_ev ("unrelated wake-ups");
        }
        hev_task_yield (HEV_TASK_YIELD);
    }
}

static void
c_make (C *c)
{
    int fd[2], sz = 4096;

    c->bulk = vp_chance (30);
    c->kind = vp_chance (4) ? 3 : vp_range (3);
    c->src = c->dst = c->fdi = c->fdo = -1;
    switch (c->kind) {
    case 0:
        vp_pipe (fd);
        c->fdi = fd[0];
        c->src = fd[1];
        vp_pipe (fd);
        if (vp_chance (70))
            __real_fcntl (fd[1], F_SETPIPE_SZ, 4096);
        c->fdo = fd[1];
        c->dst = fd[0];
        c->top = HEV_TASK_CIO (hev_task_cio_fd_new (c->fdi, c->fdo));
        break;
    case 1:
    case 2:
        vp_pair (fd);
        if (vp_chance (70)) {
            setsockopt (fd[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
            setsockopt (fd[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
        }
        c->fdi = c->fdo = fd[0];
        c->src = c->dst = fd[1];
        if (c->kind == 1)
            c->top = HEV_TASK_CIO (hev_task_cio_socket_new (AF_UNIX, fd[0]));
        else
            c->top = HEV_TASK_CIO (hev_task_cio_fd_new (fd[0], fd[0]));
        break;
    default:
        c->top = HEV_TASK_CIO (hev_task_cio_null_new ());
    }
    VP_CHECK (c->top, "new", "no bottom layer");
    c->layers = vp_range (5);
    c->top = stack (c->top, c->layers, c->bulk, &c->gone, &c->taps, &c->topbuf);
    c->limit = vp_chance (10) ? 0 : vp_range (c->bulk ? 100000 : 3000);
    c->lazy = vp_range (100);
    if (vp_chance (15)) {
        c->rerr = EIO;
        c->rerr_at = vp_rnd () % (c->limit + 1);
    }
    if (vp_chance (15)) {
        c->werr = vp_chance (50) ? EIO : ENOSPC;
        c->werr_at = vp_range (c->bulk ? 50000 : 2000);
    }
    c->oneshot = vp_chance (20) ? 1 + vp_range (10) : 0;
}

static void
w_chain (uint64_t n)
{
    uint64_t a[16], b[16];
    int i;

    signal (SIGPIPE, SIG_IGN);
    vp_fd_snapshot (a);
    vp_vt_start (1000000000ull);
    vp_shuffle = vp_chance (50);
    vp_eagain_pct = vp_chance (50) ? vp_range (40) : 0;
    vp_short_pct = vp_chance (50) ? vp_range (60) : 0;
    vp_poll_hook = c_poll;
    vp_idle_hook = c_idle;
    vp_sys_hook = c_sys;
    vp_sys_force = c_force;
    vp_close_monitor = 1;
    vp_dead_key = "stall";
    suspicious = live = 0;
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    nc = 1 + vp_range (MAXC);
    memset (cs, 0, sizeof (cs));
    for (i = 0; i < nc; i++) {
        C *c = &cs[i];
        c_make (c);
        c->h = hev_task_new (131072);
        VP_HARNESS (c->h);
        hev_task_ref (c->h);
        c->live = 1;
        c->quota = 5 + vp_range (60);
        live++;
    }
    for (i = 0; i < nc; i++)
        hev_task_run (cs[i].h, c_entry, &cs[i]);
    if (vp_chance (50))
        hev_task_run (hev_task_new (65536), c_noise, NULL);
    hev_task_system_run ();
    VP_CHECK (live == 0, "run", "%d tasks left", live);
    for (i = 0; i < nc; i++)
        hev_task_unref (cs[i].h);
    hev_task_system_fini ();
    vp_vt_stop ();
    vp_eagain_pct = vp_short_pct = 0;
    vp_sys_hook = NULL;
    vp_sys_force = NULL;
    vp_fd_snapshot (b);
    VP_CHECK (!memcmp (a, b, sizeof (a)), "fd-leak", "descriptors %s",
              vp_fd_diff_str (a, b));
    vp_nontrivial ();
    vp_sample ("%d chains, first: %d layers, %lu bytes read, %lu written", nc,
               cs[0].layers, (unsigned long)cs[0].rd,
               (unsigned long)cs[0].wrote);
}

/* ------------------------------------------------------------------ */
/* datagrams through one chain */

#define PEERS 3
#define QMAX 8
#define DMAX 600

typedef struct
{
    int peer, len;
    uint64_t id;
} Msg;

static struct
{
    HevTask *h;
    HevTaskCIO *top;
    int family, fd, peer[PEERS], connected, npeers;
    struct sockaddr_storage addr[PEERS], me;
    socklen_t alen[PEERS], melen;
    Msg in[QMAX], out[PEERS][QMAX];
    int nin, nout[PEERS];
    uint64_t ids, wid;
    int reading, writing, live, taps, gone, topbuf, layers, stop_at, stopped;
} dg;

static void
dg_fill (unsigned char *b, uint64_t id, int n)
{
    int i;

    for (i = 0; i < n; i++)
        b[i] = vp_hash64 (id + 9000, i);
}

static int
dg_peer_send (void)
{
    unsigned char b[DMAX];
    int p = dg.connected ? 0 : vp_range (dg.npeers);
    Msg *m = &dg.in[dg.nin];
    ssize_t r;

    if (dg.nin == QMAX)
        return 0;
    m->peer = p;
    m->len = vp_chance (10) ? 0 : vp_range (DMAX);
    m->id = ++dg.ids;
    dg_fill (b, m->id, m->len);
    r = __real_sendto (dg.peer[p], b, m->len, 0, (struct sockaddr *)&dg.me,
                       dg.melen);
    VP_HARNESS (r == m->len);
    dg.nin++;
    return 1;
}

static int
same_addr (const struct sockaddr_storage *a, const struct sockaddr_storage *b)
{
    if (a->ss_family != b->ss_family)
        return 0;
    switch (a->ss_family) {
    case AF_UNIX:
        return !strcmp (((struct sockaddr_un *)a)->sun_path,
                        ((struct sockaddr_un *)b)->sun_path);
    case AF_INET:
        return ((struct sockaddr_in *)a)->sin_port ==
                   ((struct sockaddr_in *)b)->sin_port &&
               ((struct sockaddr_in *)a)->sin_addr.s_addr ==
                   ((struct sockaddr_in *)b)->sin_addr.s_addr;
    default:
        return ((struct sockaddr_in6 *)a)->sin6_port ==
                   ((struct sockaddr_in6 *)b)->sin6_port &&
               !memcmp (&((struct sockaddr_in6 *)a)->sin6_addr,
                        &((struct sockaddr_in6 *)b)->sin6_addr, 16);
    }
}

static int
dg_peer_recv (int p)
{
    unsigned char b[DMAX + 100], want[DMAX];
    struct sockaddr_storage from;
    socklen_t l = sizeof (from);
    Msg *m = &dg.out[p][0];
    ssize_t r;

    memset (&from, 0, sizeof (from));
    r = __real_recvfrom (dg.peer[p], b, sizeof (b), MSG_DONTWAIT,
                         (struct sockaddr *)&from, &l);
    if (r < 0) {
        VP_CHECK (dg.nout[p] == (dg.writing == p + 1), "dgram-lost",
                  "a datagram of %d bytes did not arrive", m->len);
        return 0;
    }
    VP_CHECK (dg.nout[p] > 0, "dgram-invented", "a datagram nobody sent");
    VP_CHECK (r == m->len, "dgram-length", "%d bytes sent, %zd arrived", m->len,
              r);
    dg_fill (want, m->id, m->len);
    VP_CHECK (!memcmp (b, want, r), "dgram-data", "contents differ");
    VP_CHECK (same_addr (&from, &dg.me), "dgram-address", "wrong sender");
    memmove (m, m + 1, sizeof (Msg) * (QMAX - 1));
    dg.nout[p]--;
    vp_ev ("datagrams out");
    return 1;
}

static void
dg_poll (int timeout)
{
    if (!dg.live)
        return;
    if (vp_chance (30))
        dg_peer_send ();
    if (vp_chance (30))
        dg_peer_recv (vp_range (dg.npeers));
}

static int
dg_idle (void)
{
    if (dg.reading && dg.nin) {
        if (suspicious++ > 20)
            vp_fail ("stall", "a datagram read waits although one is there");
        usleep (200);
        return 1;
    }
    suspicious = 0;
    vp_ev ("idle points checked");
    return dg_peer_send ();
}

static int
dg_yielder_body (HevTaskYieldType type, void *data)
{
    VP_CHECK (data == &dg && hev_task_self () == dg.h, "yielder",
              "wrong data or task");
    VP_CHECK (type == HEV_TASK_WAITIO, "yielder", "type %d", type);
    VP_CHECK (!dg.stopped, "yielder", "called after it asked to stop");
    if (dg.stop_at && --dg.stop_at == 0) {
        dg.stopped = 1;
        vp_ev ("yielder stops");
        return 1;
    }
    hev_task_yield (type);
    return 0;
}

VP_YIELDER (dg_yielder)

static HevTaskIOYielder
dg_begin (void)
{
    dg.stopped = 0;
    dg.stop_at = vp_chance (20) ? 1 + vp_range (3) : 0;
    return vp_chance (50) ? dg_yielder : NULL;
}

static void
dg_read (void)
{
    HevTaskIOYielder y = dg_begin ();
    unsigned char b[DMAX + 216], want[DMAX];
    struct sockaddr_storage from;
    size_t n = 1 + vp_range (DMAX + 100), i;
    int v = vp_chance (50), noaddr = vp_chance (20);
    struct iovec iov[MAXV], iov0[MAXV];
    ssize_t r;
    Msg m;
    int k = 0;

    memset (&from, 0, sizeof (from));
    memset (b + n, 0x77, 16);
    if (v)
        k = pieces (iov, b, n);
    memcpy (iov0, iov, k * sizeof (iov[0]));
    dg.reading = 1;
    if (v)
        r = VP_YCALL (y, hev_task_cio_readv_dgram (
                             dg.top, iov, k, noaddr ? NULL : &from, y, &dg));
    else
        r = VP_YCALL (y, hev_task_cio_read_dgram (
                             dg.top, b, n, noaddr ? NULL : &from, y, &dg));
    dg.reading = 0;
    VP_CHECK ((r == -2) == dg.stopped, "yielder",
              "result %zd, the yielder %s stop", r,
              dg.stopped ? "asked to" : "did not ask to");
    if (dg.stopped)
        return;
    VP_CHECK (r >= 0, "dgram-error", "read failed with %d", dg.top->err);
    VP_CHECK (dg.nin, "dgram-invented", "a datagram nobody sent");
    if (v)
        VP_CHECK (!memcmp (iov0, iov, sizeof (iov[0]) * k), "vector",
                  "the caller's vector was modified");
    m = dg.in[0];
    memmove (dg.in, dg.in + 1, sizeof (Msg) * (QMAX - 1));
    dg.nin--;
    VP_CHECK ((size_t)r == ((size_t)m.len < n ? (size_t)m.len : n),
              "dgram-length", "%zd of a datagram of %d read with room for %zu",
              r, m.len, n);
    dg_fill (want, m.id, m.len);
    VP_CHECK (!memcmp (b, want, r), "dgram-data", "contents differ");
    for (i = 0; i < 16; i++)
        VP_CHECK (b[n + i] == 0x77, "overrun", "a read wrote past its buffer");
    if (!noaddr)
        VP_CHECK (same_addr (&from, &dg.addr[m.peer]), "dgram-address",
                  "wrong sender reported");
    vp_ev ("datagrams in");
    vp_mix (m.id * 1000 + r);
}

static void
dg_write (void)
{
    HevTaskIOYielder y = dg_begin ();
    unsigned char b[DMAX];
    int p = dg.connected ? 0 : vp_range (dg.npeers);
    int len = vp_chance (10) ? 0 : vp_range (DMAX), v = vp_chance (50), k = 0;
    const void *to = dg.connected ? NULL : &dg.addr[p];
    struct iovec iov[MAXV];
    ssize_t r;
    Msg *m;

    if (dg.nout[p] == QMAX)
        dg_peer_recv (p);
    m = &dg.out[p][dg.nout[p]];
    m->peer = p;
    m->len = len;
    m->id = dg.wid = ++dg.ids;
    dg_fill (b, m->id, len);
    dg.nout[p]++; /* may arrive before the call is over */
    dg.writing = p + 1;
    if (v) {
        k = pieces (iov, b, len);
        r = VP_YCALL (
            y, hev_task_cio_writev_dgram (dg.top, iov, k, to, y, &dg));
    } else {
        r = VP_YCALL (y, hev_task_cio_write_dgram (dg.top, b, len, to, y, &dg));
    }
    dg.writing = 0;
    VP_CHECK ((r == -2) == dg.stopped, "yielder",
              "result %zd, the yielder %s stop", r,
              dg.stopped ? "asked to" : "did not ask to");
    if (dg.stopped) {
        VP_CHECK (dg.nout[p] && dg.out[p][dg.nout[p] - 1].id == dg.wid,
                  "dgram-invented", "a stopped write sent its datagram");
        dg.nout[p]--;
        return;
    }
    VP_CHECK (r == len, "dgram-result", "write of %d bytes returned %zd (%d)",
              len, r, dg.top->err);
}

static void
dg_entry (void *data)
{
    int n = 5 + vp_range (60), i;

    hev_task_add_fd (dg.h, dg.fd, POLLIN | POLLOUT);
    while (n--) {
        if (vp_chance (50))
            dg_read ();
        else
            dg_write ();
        if (vp_chance (10))
            hev_task_yield (HEV_TASK_YIELD);
    }
    dg.live = 0;
    for (i = 0; i < dg.npeers; i++)
        while (dg_peer_recv (i))
            ;
    hev_task_del_fd (dg.h, dg.fd);
    hev_object_unref (HEV_OBJECT (dg.top));
    VP_CHECK (dg.gone == dg.taps, "alive", "%d of %d layers died with the chain",
              dg.gone, dg.taps);
}

static int
dg_socket (struct sockaddr_storage *a, socklen_t *l, int i)
{
    int fd = __real_socket (dg.family, SOCK_DGRAM | SOCK_NONBLOCK, 0), sz = 1 << 19;

    if (fd < 0)
        return -1;
    setsockopt (fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof (sz));
    memset (a, 0, sizeof (*a));
    a->ss_family = dg.family;
    if (dg.family == AF_UNIX) {
        struct sockaddr_un *u = (struct sockaddr_un *)a;
        const char *t = getenv ("TMPDIR");
        snprintf (u->sun_path, sizeof (u->sun_path), "%s/cio-%d-%d",
                  t ? t : "/tmp", getpid (), i);
        unlink (u->sun_path);
        *l = sizeof (*u);
    } else if (dg.family == AF_INET) {
        ((struct sockaddr_in *)a)->sin_addr.s_addr = htonl (INADDR_LOOPBACK);
        *l = sizeof (struct sockaddr_in);
    } else {
        ((struct sockaddr_in6 *)a)->sin6_addr = in6addr_loopback;
        *l = sizeof (struct sockaddr_in6);
    }
    if (bind (fd, (struct sockaddr *)a, *l) < 0) {
        __real_close (fd);
        return -1;
    }
    if (dg.family != AF_UNIX) {
        *l = sizeof (*a);
        VP_HARNESS (getsockname (fd, (struct sockaddr *)a, l) == 0);
    }
    return fd;
}

static void
w_dgram (uint64_t n)
{
    static const int fams[] = { AF_UNIX, AF_INET, AF_INET6 };
    uint64_t a[16], b[16];
    int i;

    vp_fd_snapshot (a);
    vp_vt_start (1000000000ull);
    vp_shuffle = vp_chance (50);
    vp_eagain_pct = vp_chance (50) ? vp_range (40) : 0;
    vp_poll_hook = dg_poll;
    vp_idle_hook = dg_idle;
    vp_close_monitor = 1;
    vp_dead_key = "stall";
    suspicious = 0;
    memset (&dg, 0, sizeof (dg));
    dg.family = fams[vp_range (3)];
    dg.fd = dg_socket (&dg.me, &dg.melen, PEERS);
    if (dg.fd < 0 && dg.family == AF_INET6) {
        dg.family = AF_INET;
        dg.fd = dg_socket (&dg.me, &dg.melen, PEERS);
    }
    VP_HARNESS (dg.fd >= 0);
    dg.npeers = 1 + vp_range (PEERS);
    for (i = 0; i < dg.npeers; i++) {
        dg.peer[i] = dg_socket (&dg.addr[i], &dg.alen[i], i);
        VP_HARNESS (dg.peer[i] >= 0);
    }
    dg.connected = vp_chance (30);
    if (dg.connected)
        VP_HARNESS (__real_connect (dg.fd, (struct sockaddr *)&dg.addr[0],
                                    dg.alen[0]) == 0);
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    dg.top = HEV_TASK_CIO (hev_task_cio_socket_new (dg.family, dg.fd));
    VP_CHECK (dg.top, "new", "no socket layer");
    dg.layers = vp_range (4);
    dg.top = stack (dg.top, dg.layers, 0, &dg.gone, &dg.taps, &dg.topbuf);
    dg.h = hev_task_new (131072);
    dg.live = 1;
    hev_task_run (dg.h, dg_entry, NULL);
    hev_task_system_run ();
    VP_CHECK (!dg.live, "run", "the task did not end");
    hev_task_system_fini ();
    vp_vt_stop ();
    vp_eagain_pct = 0;
    for (i = 0; i < dg.npeers; i++) {
        __real_close (dg.peer[i]);
        if (dg.family == AF_UNIX)
            unlink (((struct sockaddr_un *)&dg.addr[i])->sun_path);
    }
    if (dg.family == AF_UNIX)
        unlink (((struct sockaddr_un *)&dg.me)->sun_path);
    vp_fd_snapshot (b);
    VP_CHECK (!memcmp (a, b, sizeof (a)), "fd-leak", "descriptors %s",
              vp_fd_diff_str (a, b));
    vp_ev (dg.family == AF_UNIX ? "local socket cases" :
           dg.family == AF_INET ? "IPv4 cases" :
                                  "IPv6 cases");
    vp_nontrivial ();
    vp_sample ("family %d, %d layers, %d peers, %lu messages", dg.family,
               dg.layers, dg.npeers, (unsigned long)dg.ids);
}

/* ------------------------------------------------------------------ */
/* splicing two chains */

#define MAXS 3
#define TAIL 400000

typedef struct
{
    int src, in;   /* far end that supplies, descriptor spliced from */
    int out, dst;  /* descriptor spliced to, far end that drains */
    uint64_t fed, drained;
    int ended, broken; /* the supply ended, the drain was closed */
    int lazy;      /* percent of chances to drain that are not taken */
    uint64_t limit;
    unsigned char *tail; /* what arrived after splicing was stopped */
    size_t ntail;
} D;

typedef struct
{
    HevTask *h;
    int fd[4];     /* a_i a_o b_i b_o */
    int same;      /* 2: both pairs are one descriptor, 1: one, 0: none */
    D d[2];        /* a -> b, b -> a */
    int running, started, stop_at, ycalls, stopped, use_yielder;
    size_t buf_size;
    HevTaskCIO *c[2];
    int layers[2], taps, gone, topbuf[2], layered;
} S;

static S ss[MAXS];
static int ns, running, bulk, hangups;

static unsigned char
s_byte_at (S *s, int dir, uint64_t pos)
{
    return vp_hash64 ((s - ss) * 2 + dir + 300, pos);
}

static int
s_feed (S *s, int k)
{
    unsigned char buf[8192];
    D *d = &s->d[k];
    size_t n, i;
    ssize_t r;

    if (d->ended || d->src < 0)
        return 0;
    if (d->fed >= d->limit || d->broken) {
        if (s->fd[0] != s->fd[1] && k == 0)
            __real_close (d->src), d->src = -1;
        else if (s->fd[2] != s->fd[3] && k == 1)
            __real_close (d->src), d->src = -1;
        else
            shutdown (d->src, SHUT_WR);
        d->ended = 1;
        vp_ev ("inputs ended");
        return 1;
    }
    n = 1 + (bulk ? vp_range (sizeof (buf)) : vp_range (300));
    if (n > d->limit - d->fed)
        n = d->limit - d->fed;
    for (i = 0; i < n; i++)
        buf[i] = s_byte_at (s, k, d->fed + i);
    r = __real_write (d->src, buf, n);
    if (r <= 0)
        return 0;
    d->fed += r;
    return 1;
}

static int
s_drain (S *s, int k)
{
    unsigned char buf[8192];
    D *d = &s->d[k];
    ssize_t r;
    size_t i;

    if (d->broken || d->dst < 0)
        return 0;
    r = __real_read (d->dst, buf,
                     bulk ? sizeof (buf) : 1 + vp_range (300));
    if (r <= 0)
        return 0;
    if (d->tail) {
        VP_HARNESS (d->ntail + r <= TAIL);
        memcpy (d->tail + d->ntail, buf, r);
        d->ntail += r;
        return 1;
    }
    for (i = 0; i < (size_t)r; i++)
        VP_CHECK (buf[i] == s_byte_at (s, k, d->drained + i), "data",
                  "byte %lu delivered in direction %d is wrong",
                  (unsigned long)(d->drained + i), k);
    d->drained += r;
    VP_CHECK (d->drained <= d->fed, "data", "%lu bytes delivered of %lu",
              (unsigned long)d->drained, (unsigned long)d->fed);
    vp_evn ("bytes delivered", r);
    return 1;
}

/* the far end that drains goes away */
static void
s_hangup (S *s, int k)
{
    D *d = &s->d[k], *o = &s->d[1 - k];

    if (d->broken)
        return;
    __real_close (d->dst);
    if (o->src == d->dst) {
        o->src = -1;
        o->ended = 1;
    }
    d->dst = -1;
    d->broken = 1;
    vp_ev ("outputs broken");
}

static uint64_t
undelivered (D *d)
{
    int n = 0;

    if (d->broken || d->dst < 0)
        return 0;
    __real_ioctl (d->dst, FIONREAD, &n);
    return d->fed - d->drained - n;
}

static void
s_poll_hook (int timeout)
{
    S *s = &ss[vp_range (ns)];
    int k = vp_range (2);

    if (!s->started || !s->running || vp_chance (40))
        return;
    if (vp_chance (50))
        s_feed (s, k);
    else if (!vp_chance (s->d[k].lazy))
        s_drain (s, k);
    if (hangups && !s->stopped && vp_chance (2))
        s_hangup (s, k);
}

/* 1: this splice has nothing left to do and has to end */
static int
must_end (S *s)
{
    int e0 = s->d[0].ended && !undelivered (&s->d[0]);
    int e1 = s->d[1].ended && !undelivered (&s->d[1]);

    if (s->same || s->layered)
        return e0 || e1;
    return e0 && e1;
}

static int
s_idle (void)
{
    int i, k, t, bad = 0;
    char why[200] = "";

    for (i = 0; i < ns; i++) {
        S *s = &ss[i];
        if (!s->running || !s->started || s->stopped)
            continue;
        for (k = 0; k < 2; k++) {
            D *d = &s->d[k];
            if (undelivered (d) && vp_writable (d->out)) {
                bad = 1;
                snprintf (why, sizeof (why),
                          "direction %d of splice %d stalls with %lu bytes "
                          "although its output has room (%d and %d layers)",
                          k, i, (unsigned long)undelivered (d), s->layers[0],
                          s->layers[1]);
            }
        }
        if (must_end (s)) {
            bad = 1;
            snprintf (why, sizeof (why), "splice %d goes on after the end", i);
        }
    }
    if (bad) {
        if (suspicious++ > 20)
            vp_fail ("stall", "%s", why);
        usleep (500);
        return 1;
    }
    suspicious = 0;
    vp_ev ("idle points checked");
    for (t = 0; t < 2; t++)
        for (i = 0; i < ns; i++)
            for (k = 0; k < 2; k++) {
                S *s = &ss[i];
                if (!s->running)
                    continue;
                if (t == 0 && vp_chance (50))
                    continue;
                if ((vp_chance (50) && s_feed (s, k)) || s_drain (s, k) ||
                    s_feed (s, k))
                    return 1;
            }
    return 0;
}

static int
s_yielder_body (HevTaskYieldType type, void *data)
{
    S *s = data;

    VP_CHECK (s >= ss && s < ss + ns && hev_task_self () == s->h, "yielder",
              "wrong data or task");
    VP_CHECK (type == HEV_TASK_YIELD || type == HEV_TASK_WAITIO, "yielder",
              "type %d", type);
    VP_CHECK (!s->stopped, "yielder", "called after it asked to stop");
    s->ycalls++;
    if (s->stop_at && s->ycalls >= s->stop_at) {
        s->stopped = 1;
        vp_ev ("yielder stops");
        return 1;
    }
    hev_task_yield (type);
    return 0;
}

VP_YIELDER (s_yielder)

static void
s_entry (void *data)
{
    S *s = data;
    uint64_t before[16], after[16];
    size_t live0 = vp_track_live ();
    int i, k, alone = ns == 1;

    if (s->fd[0] == s->fd[1]) {
        hev_task_add_fd (s->h, s->fd[0], POLLIN | POLLOUT);
    } else {
        hev_task_add_fd (s->h, s->fd[0], POLLIN);
        hev_task_add_fd (s->h, s->fd[1], POLLOUT);
    }
    if (s->fd[2] == s->fd[3]) {
        hev_task_add_fd (s->h, s->fd[2], POLLIN | POLLOUT);
    } else {
        hev_task_add_fd (s->h, s->fd[2], POLLIN);
        hev_task_add_fd (s->h, s->fd[3], POLLOUT);
    }
    /* some input may have been looked at already */
    for (i = 0; i < 2; i++)
        if (s->topbuf[i] == 2 && vp_chance (30)) {
            struct iovec iov[2];
            s_feed (s, i);
            hev_task_cio_buffer_peekv (HEV_TASK_CIO_BUFFER (s->c[i]), iov);
        }
    live0 = vp_track_live ();
    vp_fd_snapshot (before);
    s->started = 1;
    if (s->use_yielder)
        vp_y (s->h, 1);
    hev_task_cio_splice (s->c[0], s->c[1], s->buf_size,
                         s->use_yielder ? s_yielder : NULL, s);
    if (s->use_yielder)
        vp_y (s->h, 0);
    s->started = 0;
    vp_scribble ();
    vp_fd_snapshot (after);
    for (i = 0; i < 4; i++)
        VP_CHECK (__real_fcntl (s->fd[i], F_GETFD) >= 0, "closed",
                  "descriptor %d of the caller was closed", i);
    if (alone) {
        for (i = 0; i < 16; i++)
            VP_CHECK (!(after[i] & ~before[i]), "fd-leak", "descriptors %s",
                      vp_fd_diff_str (before, after));
        if (vp_param)
            VP_CHECK (vp_track_live () <= live0, "leak",
                      "%zu blocks before, %zu after", live0, vp_track_live ());
    }
    bulk = 1;
    for (i = 0; i < 2; i++)
        while (s_drain (s, i))
            ;
    vp_mix (s->d[0].drained * 3 + s->d[1].drained);
    if (s->stopped && s->layered) {
        /* both chains still work */
        for (k = 0; k < 2; k++) {
            static const char mark[] = "the chain goes on";
            HevTaskCIO *o = s->c[1 - k];
            D *d = &s->d[k];

            if (d->broken)
                continue;
            d->tail = malloc (TAIL);
            d->ntail = 0;
            s->started = 1;
            VP_CHECK (hev_task_cio_write_exact (o, mark, sizeof (mark), NULL,
                                                NULL) == sizeof (mark),
                      "unusable", "a write after splicing failed");
            VP_CHECK (hev_task_cio_flush (o, NULL, NULL) == 0, "unusable",
                      "a flush after splicing failed");
            s->started = 0;
            while (s_drain (s, k))
                ;
            VP_CHECK (d->ntail >= sizeof (mark) &&
                          !memcmp (d->tail + d->ntail - sizeof (mark), mark,
                                   sizeof (mark)),
                      "unusable", "data written after splicing got lost");
            for (i = 0; i < (int)(d->ntail - sizeof (mark)); i++)
                VP_CHECK (d->tail[i] == s_byte_at (s, k, d->drained + i),
                          "data", "byte delivered after splicing is wrong");
            free (d->tail);
            d->tail = NULL;
            vp_ev ("chains used after splicing");
        }
    }
    if (!s->stopped) {
        int over[2];
        for (i = 0; i < 2; i++) {
            over[i] = s->d[i].ended || s->d[i].broken;
            if (s->d[i].ended && !s->d[i].broken && !s->same && !s->layered)
                VP_CHECK (s->d[i].drained == s->d[i].fed, "lost",
                          "direction %d: %lu bytes supplied, %lu delivered", i,
                          (unsigned long)s->d[i].fed,
                          (unsigned long)s->d[i].drained);
        }
        if (!s->same && !s->layered)
            VP_CHECK (over[0] && over[1], "early-end",
                      "splicing ended while direction %d was open",
                      over[0] ? 1 : 0);
        else
            VP_CHECK ((s->d[0].ended && s->d[0].drained == s->d[0].fed) ||
                          (s->d[1].ended && s->d[1].drained == s->d[1].fed) ||
                          s->d[0].broken || s->d[1].broken,
                      "lost",
                      "splicing ended, delivered %lu of %lu (ended %d) and %lu "
                      "of %lu (ended %d)",
                      (unsigned long)s->d[0].drained,
                      (unsigned long)s->d[0].fed, s->d[0].ended,
                      (unsigned long)s->d[1].drained,
                      (unsigned long)s->d[1].fed, s->d[1].ended);
        vp_ev ("splices to the end");
    }
    s->running = 0;
    running--;
    for (i = 0; i < 4; i++) {
        if (i % 2 && s->fd[i] == s->fd[i - 1])
            continue;
        VP_CHECK (hev_task_del_fd (s->h, s->fd[i]) == 0, "registration",
                  "descriptor %d of the caller lost its registration", i);
    }
    VP_CHECK (s->gone == 0, "died", "a layer died while splicing");
    hev_object_unref (HEV_OBJECT (s->c[0]));
    hev_object_unref (HEV_OBJECT (s->c[1]));
    VP_CHECK (s->gone == s->taps, "alive", "a layer is left");
    for (i = 0; i < 4; i++)
        VP_CHECK (!is_open (s->fd[i]), "left-open",
                  "descriptor still open after the chain died");
    for (i = 0; i < 2; i++) {
        if (s->d[i].src >= 0)
            __real_close (s->d[i].src);
        if (s->d[i].dst >= 0 && s->d[i].dst != s->d[1 - i].src)
            __real_close (s->d[i].dst);
    }
}

static void
s_noise (void *data)
{
    int n = vp_range (80);

    while (n-- && running) {
        S *s = &ss[vp_range (ns)];
        if (s->running && vp_chance (50)) {
            hev_task_wakeup (s->h);
            vp_ev ("unrelated wake-ups");
        }
        hev_task_yield (HEV_TASK_YIELD);
    }
}

/* one side: one socket, or a pipe for each direction */
static void
s_side (S *s, int i, int sock)
{
    int fd[2], sz = 4096;
    D *from = &s->d[i], *to = &s->d[1 - i];

    if (sock) {
        vp_pair (fd);
        if (vp_chance (70)) {
            setsockopt (fd[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
            setsockopt (fd[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
        }
        s->fd[i * 2] = s->fd[i * 2 + 1] = fd[0];
        from->src = to->dst = fd[1];
        s->same++;
    } else {
        vp_pipe (fd);
        s->fd[i * 2] = fd[0];
        from->src = fd[1];
        vp_pipe (fd);
        if (vp_chance (70))
            __real_fcntl (fd[1], F_SETPIPE_SZ, 4096);
        s->fd[i * 2 + 1] = fd[1];
        to->dst = fd[0];
    }
    from->in = s->fd[i * 2];
    to->out = s->fd[i * 2 + 1];
    if (sock && vp_chance (70))
        s->c[i] = HEV_TASK_CIO (hev_task_cio_socket_new (AF_UNIX, fd[0]));
    else
        s->c[i] = HEV_TASK_CIO (
            hev_task_cio_fd_new (s->fd[i * 2], s->fd[i * 2 + 1]));
    VP_CHECK (s->c[i], "new", "no bottom layer");
    s->layers[i] = vp_chance (20) ? 0 : vp_range (4);
    s->c[i] = stack (s->c[i], s->layers[i], bulk, &s->gone, &s->taps,
                     &s->topbuf[i]);
    if (s->layers[i])
        s->layered = 1;
}

static void
w_splice (uint64_t n)
{
    uint64_t a[16], b[16];
    int i, k;

    signal (SIGPIPE, SIG_IGN);
    vp_track_reset ();
    vp_track = 1;
    vp_fd_snapshot (a);
    vp_vt_start (1000000000ull);
    vp_shuffle = vp_chance (50);
    vp_eagain_pct = vp_chance (50) ? vp_range (40) : 0;
    vp_short_pct = vp_chance (50) ? vp_range (60) : 0;
    vp_poll_hook = s_poll_hook;
    vp_idle_hook = s_idle;
    vp_sys_hook = NULL;
    vp_sys_force = NULL;
    vp_close_monitor = 1;
    vp_dead_key = "stall";
    suspicious = running = 0;
    bulk = vp_chance (60);
    hangups = vp_chance (15);
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    ns = 1 + vp_range (MAXS);
    memset (ss, 0, sizeof (ss));
    for (i = 0; i < ns; i++) {
        S *s = &ss[i];
        s_side (s, 0, vp_chance (60));
        s_side (s, 1, vp_chance (60));
        for (k = 0; k < 2; k++) {
            s->d[k].lazy = vp_range (100);
            s->d[k].limit = vp_chance (10) ? 0 :
                            bulk           ? vp_range (200000) :
                                             vp_range (3000);
        }
        s->buf_size = vp_chance (30) ? 1 + vp_range (16) :
                                       1 + vp_range (9000);
        if (!bulk)
            s->buf_size = 1 + s->buf_size % 700;
        else if (s->buf_size < 500)
            s->buf_size += 500;
        s->use_yielder = vp_chance (50);
        if (vp_chance (30))
            s->stop_at = 1 + vp_range (300);
        s->h = hev_task_new (65536);
        VP_HARNESS (s->h);
        hev_task_ref (s->h);
        s->running = 1;
        running++;
    }
    for (i = 0; i < ns; i++)
        hev_task_run (ss[i].h, s_entry, &ss[i]);
    if (vp_chance (50))
        hev_task_run (hev_task_new (65536), s_noise, NULL);
    hev_task_system_run ();
    VP_CHECK (running == 0, "run", "%d splices left", running);
    for (i = 0; i < ns; i++)
        hev_task_unref (ss[i].h);
    hev_task_system_fini ();
    vp_vt_stop ();
    vp_eagain_pct = vp_short_pct = 0;
    vp_track = 0;
    vp_fd_snapshot (b);
    VP_CHECK (!memcmp (a, b, sizeof (a)), "fd-leak", "descriptors %s",
              vp_fd_diff_str (a, b));
    vp_nontrivial ();
    vp_sample ("%d splices, first: %d and %d layers, %lu and %lu bytes, "
               "buffer %zu",
               ns, ss[0].layers[0], ss[0].layers[1],
               (unsigned long)ss[0].d[0].drained,
               (unsigned long)ss[0].d[1].drained, ss[0].buf_size);
}


/* ------------------------------------------------------------------ */
/* lifetime of objects and layers */

#define MAXO 24

enum { K_PLAIN, K_ATOMIC, K_TAP, K_BUFFER, K_FD, K_FD1, K_SOCKET, K_NULL, K_N };

typedef struct
{
    HevObject base;
    int *gone;
} Plain;

typedef struct
{
    HevObjectAtomic base;
    int *gone;
} Atom;

typedef struct
{
    HevObject *o;
    int kind, used;
    int ext, in;    /* references of ours, of the layer above */
    int gone;       /* destructs seen (own classes) */
    int fd[2], nfd, raw[2];
    int next, above;
    uint64_t closes[2];
} O;

static O os[MAXO];

static void
plain_destruct (HevObject *base)
{
    (*((Plain *)base)->gone)++;
    HEV_OBJECT_TYPE->destruct (base);
    hev_free (base);
}

static void
atom_destruct (HevObject *base)
{
    (*((Atom *)base)->gone)++;
    HEV_OBJECT_ATOMIC_TYPE->destruct (base);
    hev_free (base);
}

static int
is_cio (O *o)
{
    return o->kind >= K_TAP;
}

/* layers made in memory of our own, as derived classes do */
static HevObject *
own_buffer (size_t r, size_t w)
{
    HevTaskCIOBuffer *p = hev_malloc (sizeof (*p));

    memset (p, 0xEE, sizeof (*p));
    VP_CHECK (hev_task_cio_buffer_construct (p, r, w) == 0, "construct",
              "failed");
    return HEV_OBJECT (p);
}

static HevObject *
own_fd (int i, int o)
{
    HevTaskCIOFd *p = hev_malloc (sizeof (*p));

    memset (p, 0xEE, sizeof (*p));
    VP_CHECK (hev_task_cio_fd_construct (p, i, o) == 0, "construct", "failed");
    return HEV_OBJECT (p);
}

static HevObject *
own_socket (int fd)
{
    HevTaskCIOSocket *p = hev_malloc (sizeof (*p));

    memset (p, 0xEE, sizeof (*p));
    VP_CHECK (hev_task_cio_socket_construct (p, AF_UNIX, fd) == 0, "construct",
              "failed");
    return HEV_OBJECT (p);
}

static HevObject *
own_null (void)
{
    HevTaskCIONull *p = hev_malloc (sizeof (*p));

    memset (p, 0xEE, sizeof (*p));
    VP_CHECK (hev_task_cio_null_construct (p) == 0, "construct", "failed");
    return HEV_OBJECT (p);
}

static void
o_new (O *o)
{
    int own = vp_chance (40);
    static HevObjectClass pk;
    static HevObjectAtomicClass ak;
    int fd[2];

    memset (o, 0, sizeof (*o));
    o->kind = vp_range (K_N);
    o->next = o->above = -1;
    o->raw[0] = o->raw[1] = -1;
    switch (o->kind) {
    case K_PLAIN: {
        Plain *p = hev_malloc (sizeof (Plain));
        if (!pk.name) {
            memcpy (&pk, HEV_OBJECT_TYPE, sizeof (pk));
            pk.name = "Plain";
            pk.destruct = plain_destruct;
        }
        memset (p, 0xEE, sizeof (*p));
        VP_CHECK (hev_object_construct (&p->base) == 0, "construct", "failed");
        p->base.klass = &pk;
        p->gone = &o->gone;
        o->o = &p->base;
        break;
    }
    case K_ATOMIC: {
        Atom *p = hev_malloc (sizeof (Atom));
        if (!((HevObjectClass *)&ak)->name) {
            memcpy (&ak, HEV_OBJECT_ATOMIC_TYPE, sizeof (ak));
            ((HevObjectClass *)&ak)->name = "Atom";
            ((HevObjectClass *)&ak)->destruct = atom_destruct;
        }
        memset (p, 0xEE, sizeof (*p));
        VP_CHECK (hev_object_atomic_construct (&p->base) == 0, "construct",
                  "failed");
        HEV_OBJECT (p)->klass = (HevObjectClass *)&ak;
        p->gone = &o->gone;
        o->o = HEV_OBJECT (p);
        break;
    }
    case K_TAP:
        o->o = HEV_OBJECT (tap_new (&o->gone));
        break;
    case K_BUFFER:
        fd[0] = vp_range (3) * 40;
        fd[1] = vp_range (3) * 40;
        o->o = own ? own_buffer (fd[0], fd[1]) :
                     HEV_OBJECT (hev_task_cio_buffer_new (fd[0], fd[1]));
        break;
    case K_FD:
        vp_pipe (fd);
        o->fd[0] = fd[0];
        o->raw[0] = fd[1];
        vp_pipe (fd);
        o->fd[1] = fd[1];
        o->raw[1] = fd[0];
        o->nfd = 2;
        o->o = own ? own_fd (o->fd[0], o->fd[1]) :
                     HEV_OBJECT (hev_task_cio_fd_new (o->fd[0], o->fd[1]));
        break;
    case K_FD1:
        vp_pair (fd);
        o->fd[0] = fd[0];
        o->raw[0] = fd[1];
        o->nfd = 1;
        if (vp_chance (60))
            o->o = HEV_OBJECT (hev_task_cio_fd_new (fd[0], fd[0]));
        else if (vp_chance (50))
            o->o = HEV_OBJECT (hev_task_cio_fd_new (-1, fd[0]));
        else
            o->o = HEV_OBJECT (hev_task_cio_fd_new (fd[0], -1));
        break;
    case K_SOCKET:
        vp_pair (fd);
        o->fd[0] = fd[0];
        o->raw[0] = fd[1];
        o->nfd = 1;
        o->o = own ? own_socket (fd[0]) :
                     HEV_OBJECT (hev_task_cio_socket_new (AF_UNIX, fd[0]));
        break;
    default:
        o->o = own ? own_null () : HEV_OBJECT (hev_task_cio_null_new ());
    }
    VP_CHECK (o->o, "new", "no object of kind %d", o->kind);
    o->used = 1;
    o->ext = 1;
    for (fd[0] = 0; fd[0] < o->nfd; fd[0]++)
        o->closes[fd[0]] = vp_close_count[o->fd[fd[0]]];
    vp_ev ("objects made");
}

static void
o_dead (O *o)
{
    int i;

    if (o->kind <= K_TAP)
        VP_CHECK (o->gone == 1, "destruct",
                  "object of kind %d destructed %d times at its last unref",
                  o->kind, o->gone);
    for (i = 0; i < o->nfd; i++) {
        VP_CHECK (!is_open (o->fd[i]), "left-open",
                  "a dead layer of kind %d left its descriptor open", o->kind);
        VP_CHECK (vp_close_count[o->fd[i]] == o->closes[i] + 1, "closes",
                  "a descriptor was closed %lu times",
                  (unsigned long)(vp_close_count[o->fd[i]] - o->closes[i]));
    }
    for (i = 0; i < 2; i++)
        if (o->raw[i] >= 0)
            __real_close (o->raw[i]);
    o->used = 0;
    vp_ev ("objects died");
}

static void
o_alive (O *o)
{
    int i;

    VP_CHECK (o->gone == 0, "destruct",
              "object of kind %d destructed while %d references are held",
              o->kind, o->ext + o->in);
    for (i = 0; i < o->nfd; i++)
        VP_CHECK (is_open (o->fd[i]) &&
                      vp_close_count[o->fd[i]] == o->closes[i],
                  "closed", "descriptor of a living layer closed");
}

static void
o_check (void)
{
    int i;

    for (i = 0; i < MAXO; i++)
        if (os[i].used)
            o_alive (&os[i]);
}

/* what dropping a reference means */
static void
o_drop (O *o)
{
    if (o->ext + o->in)
        return;
    if (o->next >= 0) {
        O *n = &os[o->next];
        n->in--;
        n->above = -1;
        o->next = -1;
        o_drop (n);
    }
    o->used = 2;
}

static void
o_bury (void)
{
    int i;

    for (i = 0; i < MAXO; i++)
        if (os[i].used == 2)
            o_dead (&os[i]);
    o_check ();
}

static int
o_reaches (int from, int to)
{
    while (from >= 0) {
        if (from == to)
            return 1;
        from = os[from].next;
    }
    return 0;
}

static void
o_step (void)
{
    int i = vp_range (MAXO), j;
    O *o = &os[i];

    if (!o->used) {
        o_new (o);
        return;
    }
    if (!o->ext)
        return;
    switch (vp_range (6)) {
    case 0:
        hev_object_ref (o->o);
        o->ext++;
        vp_ev ("references taken");
        break;
    case 1:
    case 2:
        o->ext--;
        o_drop (o);
        hev_object_unref (o->o);
        o_bury ();
        vp_ev ("references dropped");
        break;
    case 3:
    case 4:
        j = vp_range (MAXO);
        if (!is_cio (o) || o->next >= 0 || !os[j].used || !os[j].ext ||
            !is_cio (&os[j]) || os[j].above >= 0 || o_reaches (j, i))
            return;
        VP_CHECK (hev_task_cio_push (HEV_TASK_CIO (o->o),
                                     HEV_TASK_CIO (os[j].o)) ==
                      HEV_TASK_CIO (o->o),
                  "push", "push returned another layer");
        o->next = j;
        os[j].ext--;
        os[j].in++;
        os[j].above = i;
        o_check ();
        vp_ev ("pushes");
        break;
    default:
        if (!is_cio (o) || o->next < 0)
            return;
        j = o->next;
        o->next = -1;
        os[j].in--;
        os[j].ext++;
        os[j].above = -1;
        o->ext--;
        o_drop (o);
        VP_CHECK ((void *)hev_task_cio_pop (HEV_TASK_CIO (o->o)) ==
                      (void *)os[j].o,
                  "pop", "pop returned another layer");
        o_bury ();
        vp_ev ("pops");
    }
}

static void
w_object (uint64_t n)
{
    uint64_t a[16], b[16];
    int i, steps = 50 + vp_range (400);

    vp_fd_snapshot (a);
    vp_close_monitor = 1;
    vp_track_reset ();
    vp_track = 1;
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    memset (os, 0, sizeof (os));
    while (steps--)
        o_step ();
    for (i = 0; i < MAXO; i++)
        while (os[i].used && os[i].ext) {
            os[i].ext--;
            o_drop (&os[i]);
            hev_object_unref (os[i].o);
            o_bury ();
        }
    for (i = 0; i < MAXO; i++)
        VP_HARNESS (!os[i].used);
    hev_task_system_fini ();
    VP_CHECK (vp_track_live () == 0, "leak", "%zu blocks are left",
              vp_track_live ());
    vp_track = 0;
    vp_fd_snapshot (b);
    VP_CHECK (!memcmp (a, b, sizeof (a)), "fd-leak", "descriptors %s",
              vp_fd_diff_str (a, b));
    vp_mix (n);
    vp_nontrivial ();
    vp_sample ("history of objects %lu", (unsigned long)n);
}

/* ------------------------------------------------------------------ */
/* chains that end in a null layer or in nothing */

static struct
{
    HevTaskCIO *top;
    int null, gone, taps, topbuf, done;
} od;

static void
odd_one (unsigned char *b, size_t n)
{
    struct iovec iov[MAXV];
    struct sockaddr_storage a, a0;
    int k = 0, what = vp_range (12), i, v = what & 1;
    ssize_t r;

    memset (b, 0x5d, BIG);
    memset (&a, 0x2a, sizeof (a));
    a0 = a;
    if (v)
        k = pieces (iov, b, n);
    vp_steps++;
    switch (what) {
    case 0:
        r = hev_task_cio_read (od.top, b, n, NULL, NULL);
        break;
    case 1:
        r = hev_task_cio_readv (od.top, iov, k, NULL, NULL);
        break;
    case 2:
        r = hev_task_cio_read_exact (od.top, b, n, NULL, NULL);
        break;
    case 3:
        r = hev_task_cio_readv_exact (od.top, iov, k, NULL, NULL);
        break;
    case 4:
        r = hev_task_cio_read_dgram (od.top, b, n, &a, NULL, NULL);
        break;
    case 5:
        r = hev_task_cio_readv_dgram (od.top, iov, k, &a, NULL, NULL);
        break;
    case 6:
        r = hev_task_cio_write (od.top, b, n, NULL, NULL);
        break;
    case 7:
        r = hev_task_cio_writev (od.top, iov, k, NULL, NULL);
        break;
    case 8:
        r = hev_task_cio_write_exact (od.top, b, n, NULL, NULL);
        break;
    case 9:
        r = hev_task_cio_writev_exact (od.top, iov, k, NULL, NULL);
        break;
    case 10:
        r = hev_task_cio_write_dgram (od.top, b, n, &a, NULL, NULL);
        break;
    default:
        r = hev_task_cio_writev_dgram (od.top, iov, k, &a, NULL, NULL);
    }
    vp_mix (what * 100003 + n + r);
    for (i = 0; i < BIG; i++)
        VP_CHECK (b[i] == 0x5d, "null", "memory changed by call %d", what);
    VP_CHECK (!memcmp (&a, &a0, sizeof (a)), "null", "address changed");
    if (od.null) {
        if (what < 6)
            VP_CHECK (r == 0, "null", "read call %d returned %zd", what, r);
        else if (what == 6 || what == 7)
            VP_CHECK (r > 0 && (size_t)r <= n, "null",
                      "write call %d of %zu returned %zd", what, n, r);
        else
            VP_CHECK ((size_t)r == n, "null",
                      "write call %d of %zu returned %zd", what, n, r);
        vp_ev (what < 6 ? "reads from null" : "writes to null");
    } else {
        /* buffers take what they can */
        if (what < 6 || what >= 10)
            VP_CHECK (r < 0, "bottomless", "call %d of %zu returned %zd", what,
                      n, r);
        else
            VP_CHECK (r <= (ssize_t)n && r, "bottomless",
                      "write call %d of %zu returned %zd", what, n, r);
        vp_ev ("calls without a bottom layer");
    }
}

static void
odd_entry (void *data)
{
    static unsigned char b[BIG];
    int n = 5 + vp_range (30);

    while (n--) {
        odd_one (b, 1 + vp_range (vp_chance (80) ? 300 : BIG - 1));
        if (vp_chance (10)) {
            int r = hev_task_cio_flush (od.top, NULL, NULL);
            if (od.null)
                VP_CHECK (r == 0, "null", "flush returned %d", r);
        }
    }
    VP_CHECK (hev_task_cio_get_fd (od.top, 0) < 0 &&
                  hev_task_cio_get_fd (od.top, 1) < 0,
              "null", "a descriptor of a chain that has none");
    hev_object_unref (HEV_OBJECT (od.top));
    VP_CHECK (od.gone == od.taps, "alive",
              "%d of %d layers died with the chain", od.gone, od.taps);
    od.done = 1;
}

static void
w_odd (uint64_t n)
{
    int layers = vp_range (4);

    vp_vt_start (1000000000ull);
    vp_eagain_pct = 0;
    vp_poll_hook = NULL;
    vp_idle_hook = NULL;
    vp_dead_key = "stall";
    memset (&od, 0, sizeof (od));
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    od.null = vp_chance (50);
    if (od.null) {
        od.top = HEV_TASK_CIO (hev_task_cio_null_new ());
    } else if (vp_chance (50)) {
        od.top = tap_new (&od.gone);
        od.taps++;
    } else {
        size_t r = layer_size (0);
        od.top = HEV_TASK_CIO (hev_task_cio_buffer_new (r, layer_size (0)));
    }
    VP_CHECK (od.top, "new", "no layer");
    od.top = stack (od.top, layers, 0, &od.gone, &od.taps, &od.topbuf);
    hev_task_run (hev_task_new (262144), odd_entry, NULL);
    hev_task_system_run ();
    VP_CHECK (od.done, "run", "the task did not end");
    hev_task_system_fini ();
    vp_vt_stop ();
    vp_mix (layers * 2 + od.null);
    vp_nontrivial ();
    vp_sample ("%d layers on %s", layers, od.null ? "null" : "nothing");
}

static const VpWork works[] = {
    { "chain", w_chain },
    { "dgram", w_dgram },
    { "odd", w_odd },
    { "splice", w_splice },
    { "object", w_object },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    return vp_main (argc, argv, works);
}
