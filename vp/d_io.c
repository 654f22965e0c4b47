/* Task I/O calls on streams (C16) and socket calls with wait-all and message
 * semantics (C17).  The far end of every link is driven directly, outside the
 * library, whenever the scheduler polls. */
#include "vp.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <signal.h>
#include <sys/stat.h>
#include <hev-task-system.h>
#include <hev-task.h>
#include <hev-task-io.h>
#include <hev-task-io-socket.h>

#define MAXL 5
#define MAXLEN 6000
#define MAXV 700 /* pieces of a vector, mostly up to FEWV */
#define FEWV 9

enum
{
    K_UNIX,
    K_TCP,
    K_PIPE_R,
    K_PIPE_W,
};

typedef struct
{
    HevTask *h;
    int kind, fd, peer, live;
    int can_r, can_w;
    int quota, bulk;
    uint64_t fed, rpos;      /* far end -> library */
    uint64_t wpos, drained;  /* library -> far end */
    int eof, peer_closed, reset;
    /* the call in progress */
    int in_op;               /* 0, 1: input, 2: output */
    int os_again, os_n, os_err, ystop, ycount, after_stop;
    ssize_t os_last;
    uint64_t moved;
    int nosignal;
    int force_err;
    int peek, anc_ok;
    int fds_sent, fds_got;   /* ancillary descriptors, both directions */
    int lib_fds_sent, peer_fds_got;
    uint64_t fd_pos[64];
} L;

static L ls[MAXL];
static int nl, live, msgmode, suspicious, with_fds;
static ino_t anc_ino;
static int anc_fd;

static unsigned char
byte_at (const L *l, int dir, uint64_t pos)
{
    return vp_hash64 ((l - ls) * 2 + dir + 100, pos);
}

static L *
by_fd (int fd)
{
    int i;

    for (i = 0; i < nl; i++)
        if (ls[i].live && ls[i].fd == fd)
            return &ls[i];
    return NULL;
}

/* ---- the far end ---- */

static int
send_fd (int fd, const void *buf, size_t len)
{
    char cb[CMSG_SPACE (sizeof (int))];
    struct iovec iov = { (void *)buf, len };
    struct msghdr m = { 0 };
    struct cmsghdr *c;

    m.msg_iov = &iov;
    m.msg_iovlen = 1;
    m.msg_control = cb;
    m.msg_controllen = sizeof (cb);
    c = CMSG_FIRSTHDR (&m);
    c->cmsg_level = SOL_SOCKET;
    c->cmsg_type = SCM_RIGHTS;
    c->cmsg_len = CMSG_LEN (sizeof (int));
    memcpy (CMSG_DATA (c), &anc_fd, sizeof (int));
    return __real_sendmsg (fd, &m, MSG_NOSIGNAL);
}

/* counts and closes descriptors in a received control buffer */
static int
take_fds (struct msghdr *m)
{
    struct cmsghdr *c;
    int n = 0;

    for (c = CMSG_FIRSTHDR (m); c; c = CMSG_NXTHDR (m, c)) {
        int k, *p = (int *)CMSG_DATA (c);
        VP_CHECK (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS,
                  "ancillary", "unexpected ancillary data %d/%d",
                  c->cmsg_level, c->cmsg_type);
        for (k = 0; (char *)(p + k + 1) <= (char *)c + c->cmsg_len; k++) {
            struct stat st;
            VP_CHECK (fstat (p[k], &st) == 0 && st.st_ino == anc_ino,
                      "ancillary", "received descriptor %d is not the one sent",
                      p[k]);
            __real_close (p[k]);
            n++;
        }
    }
    return n;
}

static int
feed (L *l)
{
    unsigned char buf[MAXLEN];
    size_t n, i;
    ssize_t r;

    if (!l->can_r || l->eof || l->peer_closed)
        return 0;
    if (vp_chance (4)) {
        l->eof = 1;
        if (l->kind == K_PIPE_R) {
            __real_close (l->peer);
            l->peer_closed = 1;
        } else {
            shutdown (l->peer, SHUT_WR);
        }
        vp_ev ("ends of stream");
        return 1;
    }
    n = 1 + (l->bulk ? vp_range (MAXLEN) : vp_range (1 + vp_range (200)));
    for (i = 0; i < n; i++)
        buf[i] = byte_at (l, 0, l->fed + i);
    if (with_fds && l->kind == K_UNIX && l->fds_sent < 60 && vp_chance (30)) {
        r = send_fd (l->peer, buf, n);
        if (r > 0)
            l->fd_pos[l->fds_sent++] = l->fed;
    } else {
        r = __real_write (l->peer, buf, n);
    }
    if (r <= 0)
        return 0;
    l->fed += r;
    return 1;
}

static int
drain (L *l)
{
    unsigned char buf[MAXLEN];
    size_t n, i;
    ssize_t r;

    if (!l->can_w || l->peer_closed)
        return 0;
    n = l->bulk ? MAXLEN : 1 + vp_range (400);
    if (with_fds && l->kind == K_UNIX) {
        char cb[CMSG_SPACE (8 * sizeof (int))];
        struct iovec iov = { buf, n };
        struct msghdr m = { 0 };
        m.msg_iov = &iov;
        m.msg_iovlen = 1;
        m.msg_control = cb;
        m.msg_controllen = sizeof (cb);
        r = __real_recvmsg (l->peer, &m, 0);
        if (r > 0)
            l->peer_fds_got += take_fds (&m);
        VP_CHECK (l->peer_fds_got <= l->lib_fds_sent, "ancillary",
                  "ancillary data of %d sends arrived %d times",
                  l->lib_fds_sent, l->peer_fds_got);
    } else {
        r = __real_read (l->peer, buf, n);
    }
    if (r <= 0)
        return 0;
    for (i = 0; i < (size_t)r; i++)
        VP_CHECK (buf[i] == byte_at (l, 1, l->drained + i), "output-data",
                  "byte %lu arriving at the far end is wrong",
                  (unsigned long)(l->drained + i));
    l->drained += r;
    VP_CHECK (l->drained <= l->wpos, "output-data",
              "%lu bytes arrived, %lu were written",
              (unsigned long)l->drained, (unsigned long)l->wpos);
    return 1;
}

static int
hangup (L *l)
{
    if (l->peer_closed)
        return 0;
    if (with_fds) /* descriptors in flight stay with the queue */
        return 0;
    l->peer_closed = 1;
    __real_close (l->peer);
    vp_ev ("far ends closed");
    return 1;
}

static void
poll_hook (int timeout)
{
    L *l;

    if (!vp_chance (30))
        return;
    l = &ls[vp_range (nl)];
    if (!l->live)
        return;
    if (vp_chance (50))
        feed (l);
    else
        drain (l);
    if (vp_chance (1))
        hangup (l);
}

static int
idle (void)
{
    int i, k, s = vp_range (nl), bad = -1;

    for (i = 0; i < nl; i++) {
        struct pollfd p;
        L *l = &ls[i];
        if (!l->live || !l->in_op)
            continue;
        p.fd = l->fd;
        p.events = l->in_op == 1 ? POLLIN : POLLOUT;
        p.revents = 0;
        vp_poll (&p, 1, 0);
        if (p.revents)
            bad = i;
    }
    if (bad >= 0) {
        if (suspicious++ > 20)
            vp_fail ("missed-ready",
                     "the %s call of link %d waits although it can proceed",
                     ls[bad].in_op == 1 ? "input" : "output", bad);
        usleep (1000);
        return 1;
    }
    suspicious = 0;
    vp_ev ("idle points checked");
    for (k = 0; k < 3; k++)
        for (i = 0; i < nl; i++) {
            L *l = &ls[(s + i) % nl];
            if (!l->live || !l->in_op)
                continue;
            if (k < 2 && l->in_op == 1 && feed (l))
                return 1;
            if (k < 2 && l->in_op == 2 && drain (l))
                return 1;
            if (k == 2 && hangup (l))
                return 1;
        }
    return 0;
}

static volatile int pipe_signals;

static void
on_sigpipe (int signo)
{
    (void)signo;
    pipe_signals++;
}

static void
sys_hook (const char *op, int fd, ssize_t ret, int err)
{
    L *l = by_fd (fd);
    int sig = pipe_signals;

    pipe_signals = 0;
    if (!l || !l->in_op)
        return;
    VP_CHECK (!l->ystop, "after-stop",
              "%s was attempted after the yielder had asked to stop", op);
    if (ret < 0 && err == EAGAIN) {
        l->os_again++;
        vp_ev ("would-block answers");
        return;
    }
    if (sig && l->in_op == 2) {
        VP_CHECK (!l->nosignal, "signal",
                  "%s raised a signal although the caller asked for none", op);
        vp_ev ("signals about closed peers");
    } else if (ret < 0 && err == EPIPE && l->nosignal) {
        vp_ev ("closed peers without a signal");
    }
    l->os_n++;
    l->os_last = ret;
    l->os_err = err;
    if (ret > 0 && !l->peek) {
        l->moved += ret;
        if (l->in_op == 2)
            l->wpos += ret;
    }
    if (ret < 0)
        vp_ev ("errors from the operating system");
}

static int
sys_force (const char *op, int fd, ssize_t *ret, int *err)
{
    L *l = by_fd (fd);

    if (!l || !l->in_op || !l->force_err)
        return 0;
    *ret = -1;
    *err = l->force_err;
    l->force_err = 0;
    return 1;
}

/* ---- yielder ---- */

typedef struct
{
    L *l;
    int stop_at;
} Y;

static int
yielder_body (HevTaskYieldType type, void *data)
{
    Y *y = data;
    L *l = y->l;

    VP_CHECK (hev_task_self () == l->h, "yielder", "called in another task");
    VP_CHECK (type == HEV_TASK_WAITIO, "yielder", "called with type %d", type);
    VP_CHECK (!l->ystop, "yielder", "called again after it asked to stop");
    l->ycount++;
    VP_CHECK (l->ycount == l->os_again, "yielder",
              "consulted %d times for %d would-block answers", l->ycount,
              l->os_again);
    vp_ev ("yielder calls");
    if (y->stop_at && l->ycount >= y->stop_at) {
        if (vp_chance (50))
            hev_task_yield (HEV_TASK_YIELD);
        l->ystop = 1;
        vp_ev ("yielder stops");
        return vp_chance (50) ? 1 : -1;
    }
    if (vp_chance (70))
        hev_task_yield (type);
    else if (vp_chance (70)) /* any other way of waiting is fine, too */
        hev_task_yield (HEV_TASK_YIELD);
    else
        hev_task_sleep (1);
    return 0;
}

VP_YIELDER (yielder)

/* ---- vectors ---- */

static unsigned char area[MAXL][MAXLEN + MAXV * 16 + 64];

static int
cut (unsigned char *base, size_t len, struct iovec *iov, int max)
{
    int n = 1 + vp_range (max), i;
    size_t left = len;

    for (i = 0; i < n; i++) {
        size_t k = i == n - 1 ? left :
                   vp_chance (25) ? 0 :
                   n > FEWV       ? vp_rnd () % (2 * left / (n - i) + 1) :
                                    vp_rnd () % (left + 1);
        iov[i].iov_base = base + (len - left);
        iov[i].iov_len = k;
        left -= k;
        if (!k)
            vp_ev ("empty pieces");
    }
    return n;
}

static size_t
pick_len (L *l)
{
    switch (vp_range (6)) {
    case 0:
        return vp_range (3);
    case 1:
        return l->bulk ? MAXLEN : 1 + vp_range (1000);
    default:
        return 1 + vp_range (l->bulk ? MAXLEN : 300);
    }
}

static void
begin (L *l, int dir)
{
    l->in_op = dir;
    l->os_again = l->os_n = l->ystop = l->ycount = 0;
    l->os_last = 12345;
    l->moved = 0;
    l->peek = 0;
    l->force_err = 0;
    if (vp_chance (4)) {
        static const int errs[] = { EINTR, EIO, ECONNRESET, ENOMEM, ENOBUFS,
                                    ETIMEDOUT };
        l->force_err = errs[vp_range (ARRAY_LEN (errs))];
    }
}

/* the result of a call that makes one attempt */
static void
check_single (L *l, const char *what, ssize_t res, int err)
{
    if (l->ystop) {
        VP_CHECK (res == -2, "stop-result", "%s returned %zd after a stop",
                  what, res);
        VP_CHECK (l->moved == 0, "stop-moved", "%s moved %lu bytes and stopped",
                  what, (unsigned long)l->moved);
        return;
    }
    VP_CHECK (l->os_n == 1, "attempts",
              "%s returned %zd after %d completed attempts", what, res,
              l->os_n);
    VP_CHECK (res == l->os_last, "result",
              "%s returned %zd, the operating system %zd", what, res,
              l->os_last);
    if (res < 0) {
        VP_CHECK (err == l->os_err, "errno", "%s: errno %d instead of %d", what,
                  err, l->os_err);
        VP_CHECK (err != EAGAIN, "would-block", "%s: would-block reported",
                  what);
    }
}

/* the result of a wait-all call */
static void
check_all (L *l, const char *what, ssize_t res, int err, size_t len)
{
    if (l->ystop) {
        VP_CHECK (res == -2 || (l->moved && res == (ssize_t)l->moved),
                  "stop-result", "%s returned %zd after a stop, %lu moved",
                  what, res, (unsigned long)l->moved);
        return;
    }
    if (res == (ssize_t)len && l->moved == len) {
        vp_ev ("complete wait-all transfers");
        if (l->os_n > 1)
            vp_ev ("wait-all transfers in several parts");
        return;
    }
    VP_CHECK (l->os_last <= 0, "short",
              "%s returned %zd of %zu bytes with neither end nor error (%lu "
              "moved, last part %zd)",
              what, res, len, (unsigned long)l->moved, l->os_last);
    if (l->moved) {
        VP_CHECK (res == (ssize_t)l->moved, "count",
                  "%s returned %zd, %lu bytes were moved", what, res,
                  (unsigned long)l->moved);
        vp_ev ("partial wait-all transfers");
    } else {
        VP_CHECK (res == l->os_last, "result",
                  "%s returned %zd, the operating system %zd", what, res,
                  l->os_last);
        if (res < 0)
            VP_CHECK (err == l->os_err && err != EAGAIN, "errno",
                      "%s: errno %d instead of %d", what, err, l->os_err);
    }
}

/* consumed bytes are the next ones and nothing else was touched */
static void
check_input (L *l, unsigned char *buf, size_t len, uint64_t got,
             const char *what)
{
    size_t i;

    VP_CHECK (got <= len, "count", "%s got %lu bytes, %zu wanted", what,
              (unsigned long)got, len);
    for (i = 0; i < got; i++)
        VP_CHECK (buf[i] == byte_at (l, 0, l->rpos + i), "input-data",
                  "%s: byte %lu of the stream is wrong (%zu of %lu)", what,
                  (unsigned long)(l->rpos + i), i, (unsigned long)got);
    for (; i < len + 16; i++)
        VP_CHECK (buf[i] == 0xEE, "input-extra",
                  "%s changed byte %zu of %zu, %lu were received", what, i, len,
                  (unsigned long)got);
}

static void
do_input (L *l)
{
    unsigned char *buf = area[l - ls] + 16;
    struct iovec iov[MAXV], iov0[MAXV];
    struct msghdr m, m0;
    char cb[CMSG_SPACE (sizeof (int)) * 64];
    size_t len = pick_len (l), room = sizeof (cb), i;
    Y y = { l, vp_chance (15) ? 1 + vp_range (3) : 0 };
    HevTaskIOYielder yf = vp_chance (50) ? yielder : NULL;
    int fl = 0, n, kind = msgmode ? 2 + vp_range (3) : vp_range (2), err;
    int all = 0, k;
    const char *what;
    ssize_t res;

    if (with_fds && !len) /* takes descriptors without taking bytes */
        len = 1;
    memset (buf - 16, 0xEE, len + 32);
    n = cut (buf, len, iov, vp_chance (3) ? MAXV : FEWV);
    if (n > FEWV)
        vp_ev ("vectors of many pieces");
    begin (l, 1);
    if (msgmode) {
        all = vp_chance (60);
        fl = all ? MSG_WAITALL : 0;
        if (vp_chance (8)) {
            fl |= MSG_PEEK;
            l->peek = 1;
        }
        if (with_fds && l->kind == K_UNIX)
            kind = 4; /* anything else would drop the descriptors */
    }
    if (l->peek && with_fds) {
        l->peek = 0;
        fl &= ~MSG_PEEK;
    }
    errno = 0;
    switch (kind) {
    case 0:
        what = "read";
        res = VP_YCALL (yf, hev_task_io_read (l->fd, buf, len, yf, &y));
        break;
    case 1:
        what = "readv";
        memcpy (iov0, iov, n * sizeof (iov[0]));
        res = VP_YCALL (yf, hev_task_io_readv (l->fd, iov, n, yf, &y));
        break;
    case 2:
        what = "recv";
        res = VP_YCALL (yf, hev_task_io_socket_recv (l->fd, buf, len, fl, yf, &y));
        break;
    case 3:
        what = "recvfrom";
        res = VP_YCALL (yf, hev_task_io_socket_recvfrom (l->fd, buf, len, fl, NULL, NULL, yf,
                                           &y));
        break;
    default:
        what = "recvmsg";
        memcpy (iov0, iov, n * sizeof (iov[0]));
        memset (&m, 0, sizeof (m));
        m.msg_iov = iov;
        m.msg_iovlen = n;
        m.msg_flags = 0x5a0000;
        if (with_fds) {
            if (vp_chance (25)) /* may be too small */
                room = CMSG_SPACE (sizeof (int)) * vp_range (3);
            memset (cb, 0x6d, sizeof (cb));
            m.msg_control = cb;
            m.msg_controllen = room;
        }
        m0 = m;
        res = VP_YCALL (yf, hev_task_io_socket_recvmsg (l->fd, &m, fl, yf, &y));
    }
    err = errno;
    l->in_op = 0;
    vp_scribble ();
    vp_ev (what);
    vp_mix (kind * 131 + res);
    if (kind == 1 || kind == 4)
        VP_CHECK (!memcmp (iov0, iov, n * sizeof (iov[0])), "vector-changed",
                  "%s changed the caller's vector", what);
    if (l->peek) {
        /* shows the next bytes, once, without consuming them */
        uint64_t got = res > 0 ? (uint64_t)res : 0;
        if (l->ystop)
            VP_CHECK (res == -2, "stop-result", "%s returned %zd after a stop",
                      what, res);
        else if (res < 0)
            VP_CHECK (res == -1 && l->os_last < 0 && err == l->os_err, "result",
                      "%s returned %zd", what, res);
        check_input (l, buf, len, got, what);
        vp_ev ("peeks");
        return;
    }
    if (all)
        check_all (l, what, res, err, len);
    else
        check_single (l, what, res, err);
    check_input (l, buf, len, l->moved, what);
    l->rpos += l->moved;
    VP_CHECK (l->rpos <= l->fed, "input-data", "more input than was sent");
    if (kind == 4 && l->os_n && (l->moved || l->os_last >= 0)) {
        int want = 0;
        VP_CHECK (m.msg_iov == m0.msg_iov && m.msg_iovlen == m0.msg_iovlen,
                  "vector-changed", "message receive changed its vector");
        for (k = 0; k < l->fds_sent; k++)
            want += l->fd_pos[k] < l->rpos;
        if (with_fds) {
            int max = room / CMSG_SPACE (sizeof (int)), got;

            VP_CHECK (m.msg_controllen <= room, "ancillary",
                      "control length %zu", (size_t)m.msg_controllen);
            for (i = room; i < sizeof (cb); i++)
                VP_CHECK (cb[i] == 0x6d, "ancillary",
                          "byte %zu behind a control buffer of %zu was changed",
                          i - room, room);
            want -= l->fds_got;
            l->fds_got += want;
            got = take_fds (&m);
            VP_CHECK (got == (want < max ? want : max), "ancillary",
                      "%d descriptors received with the bytes up to %lu, %d "
                      "were sent with them, room for %d",
                      got, (unsigned long)l->rpos, want, max);
            VP_CHECK (!(m.msg_flags & MSG_CTRUNC) == (want <= max),
                      "msg-flags", "%d descriptors, room for %d: message "
                      "flags %x", want, max, m.msg_flags);
            m.msg_flags &= ~MSG_CTRUNC;
            if (want > max)
                vp_ev ("control buffers too small");
            vp_ev ("control buffers inspected");
        }
        VP_CHECK (m.msg_namelen == 0 || l->kind == K_TCP, "name",
                  "name length %u of an unnamed peer", m.msg_namelen);
        VP_CHECK ((m.msg_flags & ~MSG_CMSG_CLOEXEC) == 0 ||
                      (!with_fds && !(m.msg_flags & 0x5a0000)),
                  "msg-flags", "message flags %x", m.msg_flags);
    }
    if (res == 0 && len && l->os_last == 0)
        VP_CHECK (l->eof || l->peer_closed, "false-eof",
                  "%s reported the end of an open stream", what);
}

static void
do_output (L *l)
{
    unsigned char *buf = area[l - ls] + 16;
    unsigned char save[MAXLEN];
    struct iovec iov[MAXV], iov0[MAXV];
    struct msghdr m, m0;
    char cb[CMSG_SPACE (sizeof (int))], cb0[sizeof (cb)];
    size_t len = pick_len (l), i;
    Y y = { l, vp_chance (15) ? 1 + vp_range (3) : 0 };
    HevTaskIOYielder yf = vp_chance (50) ? yielder : NULL;
    int fl = MSG_NOSIGNAL, n, kind = msgmode ? 2 + vp_range (3) : vp_range (2);
    int all = 0, err, anc = 0;
    const char *what;
    uint64_t start = l->wpos;
    ssize_t res;

    for (i = 0; i < len; i++)
        buf[i] = byte_at (l, 1, l->wpos + i);
    memcpy (save, buf, len);
    n = cut (buf, len, iov, vp_chance (3) ? MAXV : FEWV);
    if (n > FEWV)
        vp_ev ("vectors of many pieces");
    begin (l, 2);
    if (msgmode) {
        all = vp_chance (60);
        if (all)
            fl |= MSG_WAITALL;
        if (vp_chance (30))
            fl &= ~MSG_NOSIGNAL;
    }
    l->nosignal = msgmode && (fl & MSG_NOSIGNAL);
    errno = 0;
    switch (kind) {
    case 0:
        what = "write";
        res = VP_YCALL (yf, hev_task_io_write (l->fd, buf, len, yf, &y));
        break;
    case 1:
        what = "writev";
        memcpy (iov0, iov, n * sizeof (iov[0]));
        res = VP_YCALL (yf, hev_task_io_writev (l->fd, iov, n, yf, &y));
        break;
    case 2:
        what = "send";
        res = VP_YCALL (yf, hev_task_io_socket_send (l->fd, buf, len, fl, yf, &y));
        break;
    case 3:
        what = "sendto";
        res = VP_YCALL (yf, hev_task_io_socket_sendto (l->fd, buf, len, fl, NULL, 0, yf, &y));
        break;
    default:
        what = "sendmsg";
        memcpy (iov0, iov, n * sizeof (iov[0]));
        memset (&m, 0, sizeof (m));
        m.msg_iov = iov;
        m.msg_iovlen = n;
        if (with_fds && l->kind == K_UNIX && len && vp_chance (50)) {
            struct cmsghdr *c;
            memset (cb, 0, sizeof (cb));
            m.msg_control = cb;
            m.msg_controllen = sizeof (cb);
            c = CMSG_FIRSTHDR (&m);
            c->cmsg_level = SOL_SOCKET;
            c->cmsg_type = SCM_RIGHTS;
            c->cmsg_len = CMSG_LEN (sizeof (int));
            memcpy (CMSG_DATA (c), &anc_fd, sizeof (int));
            memcpy (cb0, cb, sizeof (cb));
            anc = 1;
            l->lib_fds_sent++;
        }
        m0 = m;
        res = VP_YCALL (yf, hev_task_io_socket_sendmsg (l->fd, &m, fl, yf, &y));
    }
    err = errno;
    l->in_op = 0;
    vp_scribble ();
    vp_ev (what);
    vp_mix (kind * 131 + res);
    VP_CHECK (!memcmp (save, buf, len), "data-changed",
              "%s changed the caller's data", what);
    if (kind == 1 || kind == 4)
        VP_CHECK (!memcmp (iov0, iov, n * sizeof (iov[0])), "vector-changed",
                  "%s changed the caller's vector", what);
    if (kind == 4)
        VP_CHECK (!memcmp (&m, &m0, sizeof (m)) &&
                      (!anc || !memcmp (cb, cb0, sizeof (cb))),
                  "header-changed", "sendmsg changed the caller's header");
    if (anc && !l->moved)
        l->lib_fds_sent--;
    if (anc && l->moved)
        vp_ev ("sends with ancillary data");
    if (all)
        check_all (l, what, res, err, len);
    else
        check_single (l, what, res, err);
    VP_CHECK (l->wpos - start == l->moved, "count", "%s", what);
}

static void
entry (void *data)
{
    L *l = data;

    VP_CHECK (hev_task_add_fd (l->h, l->fd,
                               (l->can_r ? POLLIN : 0) |
                                   (l->can_w ? POLLOUT : 0)) == 0,
              "add", "registration failed");
    while (l->quota-- > 0) {
        if (l->can_r && (!l->can_w || vp_chance (50)))
            do_input (l);
        else
            do_output (l);
        if (vp_chance (10))
            hev_task_yield (HEV_TASK_YIELD);
        if (l->peer_closed && vp_chance (30))
            break;
    }
    VP_CHECK (hev_task_del_fd (l->h, l->fd) == 0, "del", "removal failed");
    l->live = 0;
    live--;
    if (l->kind != K_TCP || l->peer_closed)
        close (l->fd);
    if (l->peer_closed)
        return;
    if (l->can_w) {
        l->bulk = 1;
        while (drain (l))
            ;
        /* a reset connection may drop what was still under way */
        if (l->kind == K_PIPE_W || l->rpos == l->fed || l->kind == K_UNIX) {
            VP_CHECK (l->drained == l->wpos, "output-lost",
                      "%lu bytes written, %lu arrived",
                      (unsigned long)l->wpos, (unsigned long)l->drained);
            if (with_fds && l->kind == K_UNIX)
                VP_CHECK (l->peer_fds_got == l->lib_fds_sent, "ancillary",
                          "%d descriptors sent, %d arrived", l->lib_fds_sent,
                          l->peer_fds_got);
            vp_ev ("streams compared to the end");
        }
    }
    __real_close (l->peer);
    if (l->kind == K_TCP)
        close (l->fd);
}

static void
noise (void *data)
{
    int n = vp_range (60);

    while (n-- && live) {
        L *l = &ls[vp_range (nl)];
        if (l->live && vp_chance (50)) {
            hev_task_wakeup (l->h);
            vp_ev ("unrelated wake-ups");
        }
        if (vp_chance (20))
            hev_task_sleep (1 + vp_range (3));
        else
            hev_task_yield (HEV_TASK_YIELD);
    }
}

void
tcp_pair (int fd[2])
{
    struct sockaddr_in a = { 0 };
    socklen_t al = sizeof (a);
    int s = __real_socket (AF_INET, SOCK_STREAM, 0), one = 1;
    struct linger lin = { 1, 0 };

    VP_HARNESS (s >= 0);
    setsockopt (s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof (one));
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl (INADDR_LOOPBACK);
    VP_HARNESS (bind (s, (void *)&a, sizeof (a)) == 0);
    VP_HARNESS (listen (s, 4) == 0);
    VP_HARNESS (getsockname (s, (void *)&a, &al) == 0);
    fd[0] = __real_socket (AF_INET, SOCK_STREAM, 0);
    VP_HARNESS (__real_connect (fd[0], (void *)&a, sizeof (a)) == 0);
    fd[1] = __real_accept (s, NULL, NULL);
    VP_HARNESS (fd[1] >= 0);
    __real_close (s);
    vp_nonblock (fd[0]);
    vp_nonblock (fd[1]);
    setsockopt (fd[0], 6, 1, &one, sizeof (one));
    setsockopt (fd[1], 6, 1, &one, sizeof (one));
    /* the far end closes with a reset: nothing lingers in the kernel */
    setsockopt (fd[1], SOL_SOCKET, SO_LINGER, &lin, sizeof (lin));
}

static void
link_up (L *l, int kinds)
{
    int fd[2], sz = 4096;

    memset (l, 0, sizeof (*l));
    l->kind = kinds == 2 ? (vp_chance (90) ? K_UNIX : K_TCP) :
              vp_chance (10) ? K_TCP :
                               (int[]){ K_UNIX, K_PIPE_R, K_PIPE_W }[vp_range (3)];
    switch (l->kind) {
    case K_UNIX:
        vp_pair (fd);
        setsockopt (fd[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
        setsockopt (fd[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
        l->fd = fd[0];
        l->peer = fd[1];
        l->can_r = l->can_w = 1;
        break;
    case K_TCP:
        tcp_pair (fd);
        l->fd = fd[0];
        l->peer = fd[1];
        l->can_r = l->can_w = 1;
        break;
    case K_PIPE_R:
        vp_pipe (fd);
        l->fd = fd[0];
        l->peer = fd[1];
        l->can_r = 1;
        break;
    default:
        vp_pipe (fd);
        __real_fcntl (fd[1], F_SETPIPE_SZ, 4096);
        l->fd = fd[1];
        l->peer = fd[0];
        l->can_w = 1;
    }
    l->quota = 5 + vp_range (25);
    l->bulk = vp_chance (50);
    l->live = 1;
    live++;
    l->h = hev_task_new (131072);
    VP_HARNESS (l->h);
    hev_task_ref (l->h);
}

static void
run_links (void)
{
    uint64_t a[16], b[16];
    int i;

    signal (SIGPIPE, on_sigpipe);
    vp_fd_snapshot (a);
    vp_vt_start (1000000000ull + vp_range (1000000000));
    vp_tick_ns = 1000;
    vp_shuffle = vp_chance (50);
    vp_eagain_pct = vp_chance (60) ? vp_range (40) : 0;
    vp_short_pct = vp_chance (60) ? vp_range (60) : 0;
    vp_poll_hook = poll_hook;
    vp_idle_hook = idle;
    vp_sys_hook = sys_hook;
    vp_sys_force = sys_force;
    vp_close_monitor = 1;
    suspicious = live = 0;
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    nl = 1 + vp_range (MAXL);
    for (i = 0; i < nl; i++)
        link_up (&ls[i], msgmode ? 2 : 4);
    for (i = 0; i < nl; i++)
        hev_task_run (ls[i].h, entry, &ls[i]);
    if (vp_chance (60))
        hev_task_run (hev_task_new (65536), noise, NULL);
    hev_task_system_run ();
    VP_CHECK (live == 0, "run", "%d tasks left", live);
    for (i = 0; i < nl; i++)
        hev_task_unref (ls[i].h);
    hev_task_system_fini ();
    vp_vt_stop ();
    vp_eagain_pct = vp_short_pct = 0;
    vp_fd_snapshot (b);
    VP_CHECK (!memcmp (a, b, sizeof (a)), "fd-leak", "descriptors %s",
              vp_fd_diff_str (a, b));
    vp_nontrivial ();
    vp_sample ("%d links, first: kind %d, %lu bytes in, %lu bytes out", nl,
               ls[0].kind, (unsigned long)ls[0].rpos,
               (unsigned long)ls[0].wpos);
}

static void
w_stream (uint64_t n)
{
    msgmode = with_fds = 0;
    run_links ();
}

static void
w_sock (uint64_t n)
{
    msgmode = 1;
    with_fds = 0;
    if (vp_chance (40)) {
        struct stat st;
        int fd[2];
        VP_HARNESS (__real_pipe (fd) == 0);
        anc_fd = fd[0];
        VP_HARNESS (fstat (anc_fd, &st) == 0);
        anc_ino = st.st_ino;
        with_fds = 1;
        run_links ();
        __real_close (fd[0]);
        __real_close (fd[1]);
    } else {
        run_links ();
    }
}

/* ---- accept and connect ---- */

typedef struct
{
    int yes, again, stop_at, stopped, done;
    HevTask *h;
} CY;

static int lfd, badport, conn_left, acc_n, conn_n, conn_forced;
static struct sockaddr_in laddr, watch_addr;
static unsigned short acc_port[32], conn_port[32];
static int conn_fd[32], acc_fd[32];
static int os_again_conn, os_last_conn, os_err_conn, watch_fd;

static void
conn_sys (const char *op, int fd, ssize_t ret, int err)
{
    if (fd != watch_fd)
        return;
    if (ret < 0 && (err == EAGAIN || err == EINPROGRESS || err == EALREADY)) {
        os_again_conn++;
        return;
    }
    os_last_conn = ret;
    os_err_conn = err;
}

static int
conn_force (const char *op, int fd, ssize_t *ret, int *err)
{
    if (strcmp (op, "connect") || fd != watch_fd || os_again_conn == 0 ||
        !vp_chance (50))
        return 0;
    if (vp_chance (40)) {
        /* completed: some systems report success, some that it is connected */
        *ret = __real_connect (fd, (void *)&watch_addr, sizeof (watch_addr));
        *err = errno;
        if (*ret == 0) {
            *ret = -1;
            *err = EISCONN;
            vp_ev ("connections reported as connected already");
        }
        return 1;
    }
    /* the connection is still being made */
    *ret = -1;
    *err = EALREADY;
    vp_rearm (fd);
    conn_forced++;
    return 1;
}

static int
conn_yielder_body (HevTaskYieldType type, void *data)
{
    CY *y = data;

    VP_CHECK (type == HEV_TASK_WAITIO, "yielder", "called with type %d", type);
    VP_CHECK (!y->stopped, "yielder", "called after a stop");
    VP_CHECK (hev_task_self () == y->h, "yielder", "called in another task");
    y->yes++;
    if (y->stop_at && y->yes >= y->stop_at) {
        y->stopped = 1;
        return 1;
    }
    hev_task_yield (type);
    return 0;
}

VP_YIELDER (conn_yielder)

static int held_zero; /* descriptor 0 is kept for an accept */

static void
acceptor (void *data)
{
    HevTask *self = hev_task_self ();

    VP_CHECK (hev_task_add_fd (self, lfd, POLLIN) == 0, "add", "add");
    for (;;) {
        struct sockaddr_in a, p;
        socklen_t al = sizeof (a), pl = sizeof (p);
        CY y = { 0 };
        int fd, addr = vp_chance (70);
        HevTaskIOYielder yf;

        y.h = self;
        if (vp_chance (30))
            y.stop_at = 1 + vp_range (3);
        memset (&a, 0x11, sizeof (a));
        if (held_zero && vp_chance (70)) {
            __real_close (0);
            held_zero = 0;
        }
        errno = vp_chance (50) ? EAGAIN : 0;
        yf = vp_chance (60) || !conn_left ? conn_yielder : NULL;
        fd = VP_YCALL (yf, hev_task_io_socket_accept (
                               lfd, addr ? (void *)&a : NULL,
                               addr ? &al : NULL, yf, &y));
        if (y.stopped) {
            VP_CHECK (fd == -2, "stop-result", "accept returned %d", fd);
            vp_ev ("yielder stops");
            if (!conn_left && acc_n == conn_n)
                break;
            continue;
        }
        VP_CHECK (fd >= 0, "accept", "accept failed: %d, errno %d", fd, errno);
        VP_CHECK (getpeername (fd, (void *)&p, &pl) == 0, "accept", "peer");
        if (addr)
            VP_CHECK (al == pl && !memcmp (&a, &p, 8), "accept-address",
                      "accept reported another address");
        VP_CHECK (__real_fcntl (fd, F_GETFL) & O_NONBLOCK, "blocking",
                  "accepted descriptor is in blocking mode");
        VP_HARNESS (acc_n < 32);
        acc_fd[acc_n] = fd;
        acc_port[acc_n++] = ntohs (p.sin_port);
        vp_ev ("accepted connections");
        if (!conn_left && acc_n == conn_n)
            break;
    }
    hev_task_del_fd (self, lfd);
}

static void
connector (void *data)
{
    HevTask *self = hev_task_self ();
    int n = 1 + vp_range (4);

    while (n--) {
        struct sockaddr_in a = laddr, me;
        socklen_t ml = sizeof (me);
        HevTaskIOYielder yf;
        CY y = { 0 };
        int refuse = vp_chance (25), fd, res, err;

        fd = hev_task_io_socket_socket (AF_INET, SOCK_STREAM, 0);
        VP_HARNESS (fd >= 0);
        VP_CHECK (hev_task_add_fd (self, fd, POLLIN | POLLOUT) == 0, "add",
                  "add");
        y.h = self;
        if (vp_chance (15))
            y.stop_at = 1;
        if (refuse)
            a.sin_port = htons (badport);
        watch_fd = fd;
        watch_addr = a;
        os_again_conn = 0;
        errno = 0;
        yf = vp_chance (60) ? conn_yielder : NULL;
        res = VP_YCALL (yf, hev_task_io_socket_connect (
                                fd, (void *)&a, sizeof (a), yf, &y));
        err = errno;
        watch_fd = -1;
        vp_mix (res + 10 * err + 10000 * os_again_conn);
        if (y.stopped) {
            VP_CHECK (res == -2, "stop-result", "connect returned %d", res);
            /* the connection may be completed all the same: take it back in
             * the open so the count of connections stays known */
            if (!refuse) {
                res = hev_task_io_socket_connect (fd, (void *)&a, sizeof (a),
                                                  NULL, NULL);
                VP_CHECK (res == 0, "connect", "second attempt: %d", res);
            } else {
                close (fd);
                continue;
            }
        } else if (y.yes) {
            VP_CHECK (y.yes == os_again_conn, "yielder",
                      "connect consulted the yielder %d times in %d waits",
                      y.yes, os_again_conn);
        }
        if (refuse) {
            VP_CHECK (res == -1 && err == ECONNREFUSED, "connect",
                      "refused connect returned %d, errno %d", res, err);
            vp_ev ("refused connections");
            close (fd);
            continue;
        }
        VP_CHECK (res == 0, "connect", "connect returned %d, errno %d", res,
                  err);
        {
            struct sockaddr_in p;
            socklen_t pl = sizeof (p);
            VP_CHECK (getpeername (fd, (void *)&p, &pl) == 0 &&
                          p.sin_port == laddr.sin_port,
                      "connect", "connect returned before the connection");
        }
        VP_HARNESS (getsockname (fd, (void *)&me, &ml) == 0);
        hev_task_del_fd (self, fd);
        conn_fd[conn_n] = fd;
        conn_port[conn_n++] = ntohs (me.sin_port);
        vp_ev ("connections made");
        if (vp_chance (40))
            hev_task_yield (HEV_TASK_YIELD);
    }
    conn_left--;
}

static int
conn_idle (void)
{
    /* the acceptor may wait for one more connection than will come */
    if (!conn_left && acc_n == conn_n) {
        int s = __real_socket (AF_INET, SOCK_STREAM, 0);
        struct sockaddr_in me;
        socklen_t ml = sizeof (me);
        VP_HARNESS (s >= 0 && __real_connect (s, (void *)&laddr,
                                              sizeof (laddr)) == 0);
        VP_HARNESS (getsockname (s, (void *)&me, &ml) == 0);
        VP_HARNESS (conn_n < 32);
        conn_fd[conn_n] = s;
        conn_port[conn_n++] = ntohs (me.sin_port);
        return 1;
    }
    return 0;
}

static void
w_conn (uint64_t n)
{
    uint64_t a[16], b[16];
    socklen_t al = sizeof (laddr);
    struct sockaddr_in ba;
    int bfd, i, j, one = 1;
    struct linger lin = { 1, 0 };

    vp_fd_snapshot (a);
    held_zero = fcntl (0, F_GETFD) < 0 && vp_chance (60);
    if (held_zero)
        VP_HARNESS (__real_open ("/dev/null", O_RDWR) == 0);
    lfd = __real_socket (AF_INET, SOCK_STREAM, 0);
    bfd = __real_socket (AF_INET, SOCK_STREAM, 0);
    VP_HARNESS (lfd >= 0 && bfd >= 0);
    memset (&laddr, 0, sizeof (laddr));
    laddr.sin_family = AF_INET;
    laddr.sin_addr.s_addr = htonl (INADDR_LOOPBACK);
    setsockopt (lfd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof (one));
    setsockopt (bfd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof (one));
    VP_HARNESS (bind (lfd, (void *)&laddr, sizeof (laddr)) == 0);
    VP_HARNESS (listen (lfd, 64) == 0);
    ba = laddr;
    VP_HARNESS (bind (bfd, (void *)&ba, sizeof (ba)) == 0);
    VP_HARNESS (getsockname (lfd, (void *)&laddr, &al) == 0);
    VP_HARNESS (getsockname (bfd, (void *)&ba, &al) == 0);
    badport = ntohs (ba.sin_port);
    vp_nonblock (lfd);
    vp_vt_start (1000000000ull);
    vp_shuffle = vp_chance (50);
    vp_eagain_pct = vp_chance (60) ? vp_range (40) : 0;
    vp_idle_hook = conn_idle;
    vp_sys_hook = conn_sys;
    vp_sys_force = conn_force;
    vp_real_idle_ms = 20;
    vp_poll_hook = NULL;
    acc_n = conn_n = 0;
    watch_fd = -1;
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    conn_left = 1;
    hev_task_run (hev_task_new (65536), acceptor, NULL);
    hev_task_run (hev_task_new (65536), connector, NULL);
    hev_task_system_run ();
    hev_task_system_fini ();
    VP_CHECK (acc_n == conn_n, "accept", "%d accepted, %d made", acc_n, conn_n);
    for (i = 0; i < conn_n; i++) {
        int hits = 0;
        for (j = 0; j < acc_n; j++)
            hits += acc_port[j] == conn_port[i];
        VP_CHECK (hits == 1, "accept", "connection accepted %d times", hits);
    }
    for (i = 0; i < conn_n; i++) {
        setsockopt (conn_fd[i], SOL_SOCKET, SO_LINGER, &lin, sizeof (lin));
        __real_close (conn_fd[i]);
        __real_close (acc_fd[i]);
    }
    __real_close (lfd);
    __real_close (bfd);
    if (held_zero)
        __real_close (0);
    vp_vt_stop ();
    vp_real_idle_ms = 0;
    vp_eagain_pct = 0;
    vp_fd_snapshot (b);
    VP_CHECK (!memcmp (a, b, sizeof (a)), "fd-leak", "descriptors %s",
              vp_fd_diff_str (a, b));
    vp_nontrivial ();
    vp_sample ("%d connections, %d late completions", conn_n, conn_forced);
}

/* ---- datagrams: addresses, ancillary data, flags ---- */

static int ua, ub;
static struct sockaddr_in aa, ab;
static int dg_left;

static int
dg_idle (void)
{
    return 0;
}

static void
dg_bytes (unsigned char *b, size_t n, uint64_t id)
{
    size_t i;
    for (i = 0; i < n; i++)
        b[i] = vp_hash64 (id, i);
}

static uint64_t dg_sent, dg_seen, dg_len[64];

static int
dg_yielder_body (HevTaskYieldType type, void *data)
{
    VP_CHECK (type == HEV_TASK_WAITIO && data == &dg_left, "yielder",
              "called with type %d", type);
    hev_task_yield (type);
    return 0;
}

VP_YIELDER (dg_yielder)

static void
dg_send (void *data)
{
    unsigned char buf[2000];

    VP_CHECK (hev_task_add_fd (hev_task_self (), ua, POLLOUT) == 0, "add",
              "add");
    while (dg_sent < (uint64_t)dg_left) {
        size_t len = vp_chance (20) ? vp_range (3) : vp_range (1500);
        HevTaskIOYielder yf = vp_chance (50) ? dg_yielder : NULL;
        ssize_t res;

        while (dg_sent - dg_seen > 8)
            hev_task_yield (HEV_TASK_YIELD);
        dg_bytes (buf, len, dg_sent);
        dg_len[dg_sent % 64] = len;
        dg_sent++;
        if (vp_chance (50)) {
            res = VP_YCALL (yf, hev_task_io_socket_sendto (ua, buf, len, 0, (void *)&ab,
                                             sizeof (ab), yf, &dg_left));
        } else {
            struct iovec iov[5], iov0[5];
            struct msghdr m = { 0 }, m0;
            m.msg_iov = iov;
            m.msg_iovlen = cut (buf, len, iov, 5);
            m.msg_name = &ab;
            m.msg_namelen = sizeof (ab);
            memcpy (iov0, iov, sizeof (iov));
            m0 = m;
            res = VP_YCALL (yf, hev_task_io_socket_sendmsg (ua, &m, 0, yf, &dg_left));
            VP_CHECK (!memcmp (&m, &m0, sizeof (m)) &&
                          !memcmp (iov, iov0,
                                   m.msg_iovlen * sizeof (iov[0])),
                      "header-changed", "sendmsg changed the caller's header");
        }
        VP_CHECK (res == (ssize_t)len, "result", "datagram of %zu: %zd", len,
                  res);
        if (vp_chance (40))
            hev_task_yield (HEV_TASK_YIELD);
    }
    hev_task_del_fd (hev_task_self (), ua);
}

static void
dg_recv (void *data)
{
    unsigned char buf[2000], want[2000];

    VP_CHECK (hev_task_add_fd (hev_task_self (), ub, POLLIN) == 0, "add",
              "add");
    while (dg_seen < (uint64_t)dg_left) {
        size_t cap = vp_chance (30) ? vp_range (100) : 1600, got, len;
        HevTaskIOYielder yf = vp_chance (50) ? dg_yielder : NULL;
        struct sockaddr_in a;
        int kind = vp_range (3), peek = vp_chance (15);
        ssize_t res;

        memset (&a, 0x77, sizeof (a));
        memset (buf, 0xEE, sizeof (buf));
        if (kind == 0) {
            res = VP_YCALL (yf, hev_task_io_socket_recv (ub, buf, cap, peek ? MSG_PEEK : 0,
                                           yf, &dg_left));
        } else if (kind == 1) {
            socklen_t al = sizeof (a);
            res = VP_YCALL (yf, hev_task_io_socket_recvfrom (ub, buf, cap,
                                               peek ? MSG_PEEK : 0, (void *)&a,
                                               &al, yf, &dg_left));
            VP_CHECK (al == sizeof (a) && a.sin_port == aa.sin_port &&
                          a.sin_addr.s_addr == aa.sin_addr.s_addr,
                      "name", "recvfrom reported another address");
        } else {
            struct iovec iov[5];
            struct msghdr m = { 0 };
            char cb[CMSG_SPACE (sizeof (struct in_pktinfo))];
            int ctrl = vp_range (3);
            struct sockaddr_storage ss;
            memset (&ss, 0x77, sizeof (ss));
            m.msg_iov = iov;
            m.msg_iovlen = cut (buf, cap, iov, 5);
            m.msg_name = &ss;
            m.msg_namelen = sizeof (ss);
            m.msg_control = ctrl ? cb : NULL;
            m.msg_controllen = ctrl == 2 ? sizeof (cb) : ctrl ? 8 : 0;
            m.msg_flags = vp_rnd ();
            res = VP_YCALL (yf, hev_task_io_socket_recvmsg (ub, &m, peek ? MSG_PEEK : 0, yf,
                                              &dg_left));
            len = dg_len[dg_seen % 64];
            memcpy (&a, &ss, sizeof (a));
            VP_CHECK (a.sin_port == aa.sin_port &&
                          a.sin_addr.s_addr == aa.sin_addr.s_addr,
                      "name", "recvmsg reported another address");
            VP_CHECK (m.msg_namelen == sizeof (a), "name",
                      "recvmsg reported an address of %u bytes", m.msg_namelen);
            VP_CHECK (!!(m.msg_flags & MSG_TRUNC) == (len > cap), "msg-flags",
                      "flags %x for a datagram of %zu bytes in %zu",
                      m.msg_flags, len, cap);
            VP_CHECK (!!(m.msg_flags & MSG_CTRUNC) == (ctrl != 2), "msg-flags",
                      "flags %x with a control buffer of %s", m.msg_flags,
                      ctrl == 2 ? "full size" : "too small a size");
            if (ctrl == 2) {
                struct cmsghdr *c = CMSG_FIRSTHDR (&m);
                VP_CHECK (c && c->cmsg_level == IPPROTO_IP &&
                              c->cmsg_type == IP_PKTINFO &&
                              m.msg_controllen == sizeof (cb),
                          "ancillary", "packet information is missing");
                vp_ev ("control buffers inspected");
            } else {
                VP_CHECK (m.msg_controllen == 0, "ancillary",
                          "control length %zu", (size_t)m.msg_controllen);
            }
            VP_CHECK (m.msg_iov == iov, "vector-changed", "vector pointer");
            vp_ev ("message receives");
        }
        len = dg_len[dg_seen % 64];
        got = len < cap ? len : cap;
        VP_CHECK (res == (ssize_t)got, "result",
                  "datagram of %zu bytes into %zu: %zd", len, cap, res);
        dg_bytes (want, len, dg_seen);
        VP_CHECK (!memcmp (buf, want, got), "input-data", "wrong datagram");
        VP_CHECK (buf[got] == 0xEE, "input-extra", "bytes after the datagram");
        vp_mix (len * 8 + kind);
        vp_ev ("datagrams compared");
        if (!peek)
            dg_seen++;
    }
    hev_task_del_fd (hev_task_self (), ub);
}

static void
w_dgram (uint64_t n)
{
    socklen_t al = sizeof (aa);
    int one = 1;
    struct sockaddr_in base = { 0 };

    base.sin_family = AF_INET;
    base.sin_addr.s_addr = htonl (INADDR_LOOPBACK);
    ua = __real_socket (AF_INET, SOCK_DGRAM, 0);
    ub = __real_socket (AF_INET, SOCK_DGRAM, 0);
    VP_HARNESS (ua >= 0 && ub >= 0);
    VP_HARNESS (bind (ua, (void *)&base, sizeof (base)) == 0);
    VP_HARNESS (bind (ub, (void *)&base, sizeof (base)) == 0);
    VP_HARNESS (getsockname (ua, (void *)&aa, &al) == 0);
    VP_HARNESS (getsockname (ub, (void *)&ab, &al) == 0);
    VP_HARNESS (setsockopt (ub, IPPROTO_IP, IP_PKTINFO, &one, sizeof (one)) ==
                0);
    vp_nonblock (ua);
    vp_nonblock (ub);
    vp_vt_start (1000000000ull);
    vp_eagain_pct = vp_chance (60) ? vp_range (40) : 0;
    vp_sys_hook = NULL;
    vp_sys_force = NULL;
    vp_poll_hook = NULL;
    vp_idle_hook = dg_idle;
    vp_real_idle_ms = 50;
    dg_sent = dg_seen = 0;
    dg_left = 3 + vp_range (30);
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    hev_task_run (hev_task_new (65536), dg_send, NULL);
    hev_task_run (hev_task_new (65536), dg_recv, NULL);
    hev_task_system_run ();
    hev_task_system_fini ();
    vp_vt_stop ();
    vp_real_idle_ms = 0;
    vp_eagain_pct = 0;
    __real_close (ua);
    __real_close (ub);
    vp_nontrivial ();
    vp_sample ("%d datagrams", dg_left);
}

static const VpWork works[] = {
    { "stream", w_stream },
    { "conn", w_conn },
    { "sock", w_sock },
    { "dgram", w_dgram },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    return vp_main (argc, argv, works);
}
