/* Waiting must not cost anything (C30): tasks wait inside every kind of call,
 * in a process of their own and in real time; while nothing happens, the
 * process may neither use the processor nor leave the kernel. */
#include "vp.h"
#include <signal.h>
#include <sys/eventfd.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <hev-task-system.h>
#include <hev-task.h>
#include <hev-task-io.h>
#include <hev-task-io-poll.h>
#include <hev-task-io-socket.h>
#include <hev-task-mutex.h>
#include <hev-task-cond.h>
#include <hev-task-channel.h>
#include <hev-task-channel-select.h>
#include <hev-task-dns.h>
#include <hev-task-call.h>
#include <hev-task-cio.h>
#include <hev-task-cio-fd.h>
#include <hev-task-cio-socket.h>
#include <hev-task-cio-buffer.h>
#include <hev-task-cio-null.h>

#define MAXW 40
#define WINDOW 40 /* ms */

enum
{
    W_READ,
    W_WRITE,
    W_BOTH,
    W_ACCEPT,
    W_RECV_ALL,
    W_SEND_ALL,
    W_SPLICE,
    W_CIO_SPLICE,
    W_CIO_READ,
    W_CIO_WRITE,
    W_POLL,
    W_POLL_TIME,
    W_CHAN_READ,
    W_CHAN_WRITE,
    W_SELECT,
    W_SELECT_TIME,
    W_MUTEX,
    W_COND,
    W_COND_TIME,
    W_JOIN,
    W_SLEEP,
    W_LOOKUP,
    W_PLAIN,
    W_HANGUP,
    W_UNREAD,
    W_CALL,
    W_NAMEINFO,
    W_CONNECT,
    W_LOOKED_UP,
    W_ENDED,
    W_N
};

static const char *const names[] = {
    "waiting in: read",       "waiting in: write",      "waiting in: read of a writable socket",
    "waiting in: accept",     "waiting in: wait-all receive",
    "waiting in: wait-all send", "waiting in: splice",  "waiting in: chain splice",
    "waiting in: chain read", "waiting in: chain write", "waiting in: poll", "waiting in: poll with timeout",
    "waiting in: channel read", "waiting in: channel write", "waiting in: select", "waiting in: select with timeout",
    "waiting in: mutex", "waiting in: condition", "waiting in: condition with timeout", "waiting in: join", "waiting in: sleep",
    "waiting in: lookup", "waiting in: plain wait", "waiting in: wait after a hang-up", "waiting in: wait with unread data",
    "waiting in: wait in a call", "waiting in: reverse lookup", "waiting in: connect",
    "waiting in: wait after a lookup", "waiting in: tasks that ended"
};

typedef struct
{
    int kind, ready;
    HevTask *h;
    HevTask *other;
} W;

static W ws[MAXW];
static int nw;
static HevTaskMutex mutex, cmutex;
static HevTaskCond cond;
static unsigned char big[1 << 20];

typedef struct
{
    uint64_t cpu_us, wall_us, waits, switches, returned;
    int kind;
} Result;

static Result res;

static int
gai (const char *n, const char *s, const struct addrinfo *h,
     struct addrinfo **r)
{
    (void)s, (void)h;
    if (n[0] == 'q') {
        *r = NULL;
        return EAI_NONAME;
    }
    for (;;)
        pause ();
}

static int
gni (const struct sockaddr *a, socklen_t al, char *h, socklen_t hl, char *s,
     socklen_t sl, int f)
{
    (void)a, (void)al, (void)h, (void)hl, (void)s, (void)sl, (void)f;
    for (;;)
        pause ();
}

static void
fill (int fd)
{
    while (__real_write (fd, big, sizeof (big)) > 0)
        ;
    while (__real_write (fd, big, 1) > 0)
        ;
}

static int
yielder (HevTaskYieldType type, void *data)
{
    (void)data;
    hev_task_yield (type);
    return 0;
}

static void
other (void *data)
{
    int i;

    (void)data;
    /* joining wakes the joined */
    for (i = 0; i < 20; i++)
        hev_task_yield (HEV_TASK_WAITIO);
    res.returned++;
}

static void
call_entry (HevTaskCall *call)
{
    (void)call;
    hev_task_yield (HEV_TASK_WAITIO);
    res.returned++;
}

/* a stream for splicing: what it reads from and what it writes to, in one of
 * the states it can be stuck in */
static void
stream (int *in, int *out, int shape, int has_data, int in_ended, int full)
{
    int p[2], q[2];

    if (shape == 0) { /* a socket for both */
        vp_pair (p);
        *in = *out = p[0];
        if (has_data)
            VP_HARNESS (__real_write (p[1], big, 1 + vp_range (90000)) > 0);
        if (full)
            fill (p[0]);
        if (in_ended)
            shutdown (p[1], SHUT_WR);
        return;
    }
    if (shape == 1) {
        vp_pipe (p);
        vp_pipe (q);
    } else {
        vp_pair (p);
        vp_pair (q);
    }
    *in = p[0];
    *out = q[1];
    if (has_data)
        VP_HARNESS (__real_write (p[1], big, 1 + vp_range (90000)) > 0);
    if (full)
        fill (q[1]);
    if (in_ended)
        __real_close (p[1]);
}

static HevTaskCIO *
chain (int in, int out, int shape)
{
    HevTaskCIO *c;
    int n;

    if (shape == 0)
        c = HEV_TASK_CIO (hev_task_cio_socket_new (AF_UNIX, in));
    else
        c = HEV_TASK_CIO (hev_task_cio_fd_new (in, out));
    for (n = vp_range (3); n > 0; n--) {
        HevTaskCIO *b = HEV_TASK_CIO (hev_task_cio_buffer_new (
            1 + vp_range (9000), 1 + vp_range (9000)));
        VP_HARNESS (b);
        c = hev_task_cio_push (b, c);
    }
    return c;
}

/* a splice that can make no progress for now:
 * a -> b is stuck if a has no data (and has not ended), or b is full */
static void
stuck_splice (W *w, int cio)
{
    int ai, ao, bi, bo, sa = vp_range (3), sb = vp_range (3);
    int full_b = vp_chance (50), full_a = vp_chance (50);
    int data_a = full_b && vp_chance (70), data_b = full_a && vp_chance (70);
    /* an input may have ended while its bytes wait for room; or, with
     * separate descriptors all over, without any */
    int end_a = full_b && data_a && vp_chance (50);
    int end_b = full_a && data_b && vp_chance (50);
    HevTaskIOYielder y = vp_chance (30) ? yielder : NULL;
    HevTask *self = hev_task_self ();

    if (!cio && sa && sb && vp_chance (30))
        end_a = 1;
    stream (&ai, &ao, sa, data_a, end_a, full_a);
    stream (&bi, &bo, sb, data_b, end_b, full_b);
    hev_task_add_fd (self, ai, POLLIN | (ai == ao ? POLLOUT : 0));
    if (ai != ao)
        hev_task_add_fd (self, ao, POLLOUT);
    hev_task_add_fd (self, bi, POLLIN | (bi == bo ? POLLOUT : 0));
    if (bi != bo)
        hev_task_add_fd (self, bo, POLLOUT);
    w->ready = 1;
    if (cio) {
        HevTaskCIO *a = chain (ai, ao, sa), *b = chain (bi, bo, sb);
        VP_HARNESS (a && b);
        hev_task_cio_splice (a, b, 1 + vp_range (9000), y, NULL);
    } else {
        hev_task_io_splice (ai, ao, bi, bo, 1 + vp_range (9000), y, NULL);
    }
}

static void
entry (void *data)
{
    W *w = data;
    HevTask *self = hev_task_self ();
    HevTaskIOYielder y = vp_chance (30) ? yielder : NULL;
    static unsigned char buf[4096];
    int p[2], q[2], i;

    switch (w->kind) {
    case W_READ:
        vp_pipe (p);
        hev_task_add_fd (self, p[0], POLLIN);
        w->ready = 1;
        if (vp_chance (50)) {
            hev_task_io_read (p[0], buf, 10, y, NULL);
        } else {
            struct iovec iov[2] = { { buf, 5 }, { buf + 5, 9 } };
            hev_task_io_readv (p[0], iov, 2, y, NULL);
        }
        break;
    case W_WRITE:
        vp_pipe (p);
        fill (p[1]);
        hev_task_add_fd (self, p[1], POLLOUT);
        w->ready = 1;
        if (vp_chance (50)) {
            hev_task_io_write (p[1], buf, 10, y, NULL);
        } else {
            struct iovec iov[2] = { { buf, 5 }, { buf + 5, 9 } };
            hev_task_io_writev (p[1], iov, 2, y, NULL);
        }
        break;
    case W_BOTH:
        vp_pair (p);
        hev_task_add_fd (self, p[0], POLLIN | POLLOUT);
        w->ready = 1;
        switch (vp_range (4)) {
        case 0:
            hev_task_io_read (p[0], buf, 10, y, NULL);
            break;
        case 1:
            hev_task_io_socket_recv (p[0], buf, 10, 0, y, NULL);
            break;
        case 2:
            hev_task_io_socket_recvfrom (p[0], buf, 10, 0, NULL, NULL, y,
                                         NULL);
            break;
        default:
            fill (p[0]);
            hev_task_io_socket_sendto (p[0], buf, 10, 0, NULL, 0, y, NULL);
        }
        break;
    case W_ACCEPT: {
        struct sockaddr_in a = { 0 };
        int fd = __real_socket (AF_INET, SOCK_STREAM, 0);
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl (INADDR_LOOPBACK);
        VP_HARNESS (bind (fd, (void *)&a, sizeof (a)) == 0);
        VP_HARNESS (listen (fd, 5) == 0);
        vp_nonblock (fd);
        hev_task_add_fd (self, fd, POLLIN);
        w->ready = 1;
        hev_task_io_socket_accept (fd, NULL, NULL, y, NULL);
        break;
    }
    case W_CONNECT: { /* to one that is too busy to accept */
        struct sockaddr_in a = { 0 };
        socklen_t al = sizeof (a);
        int fd = __real_socket (AF_INET, SOCK_STREAM, 0);
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl (INADDR_LOOPBACK);
        VP_HARNESS (bind (fd, (void *)&a, sizeof (a)) == 0);
        VP_HARNESS (listen (fd, 0) == 0);
        VP_HARNESS (getsockname (fd, (void *)&a, &al) == 0);
        for (i = 0; i < 4; i++) {
            fd = __real_socket (AF_INET, SOCK_STREAM, 0);
            vp_nonblock (fd);
            __real_connect (fd, (void *)&a, sizeof (a));
        }
        fd = __real_socket (AF_INET, SOCK_STREAM, 0);
        vp_nonblock (fd);
        hev_task_add_fd (self, fd, POLLIN | POLLOUT);
        w->ready = 1;
        hev_task_io_socket_connect (fd, (void *)&a, sizeof (a), y, NULL);
        break;
    }
    case W_RECV_ALL:
        vp_pair (p);
        VP_HARNESS (__real_write (p[1], buf, 100) == 100);
        hev_task_add_fd (self, p[0], POLLIN | POLLOUT);
        w->ready = 1;
        if (vp_chance (50)) {
            hev_task_io_socket_recv (p[0], buf, 200, MSG_WAITALL, y, NULL);
        } else {
            struct iovec iov[2] = { { buf, 50 }, { buf + 50, 150 } };
            struct msghdr m = { 0 };
            m.msg_iov = iov;
            m.msg_iovlen = 2;
            hev_task_io_socket_recvmsg (p[0], &m, MSG_WAITALL, y, NULL);
        }
        break;
    case W_SEND_ALL:
        vp_pair (p);
        hev_task_add_fd (self, p[0], POLLIN | POLLOUT);
        w->ready = 1;
        if (vp_chance (50)) {
            hev_task_io_socket_send (p[0], big, sizeof (big), MSG_WAITALL, y,
                                     NULL);
        } else {
            struct iovec iov[2] = { { big, 50 }, { big + 50, 900000 } };
            struct msghdr m = { 0 };
            m.msg_iov = iov;
            m.msg_iovlen = 2;
            hev_task_io_socket_sendmsg (p[0], &m, MSG_WAITALL, y, NULL);
        }
        break;
    case W_SPLICE:
        stuck_splice (w, 0);
        break;
    case W_CIO_SPLICE:
        stuck_splice (w, 1);
        break;
    case W_CIO_READ:
    case W_CIO_WRITE: {
        HevTaskCIO *c;
        vp_pair (p);
        hev_task_add_fd (self, p[0], POLLIN | POLLOUT);
        c = chain (p[0], p[0], 0);
        VP_HARNESS (c);
        w->ready = 1;
        if (w->kind == W_CIO_READ) {
            if (vp_chance (50)) {
                VP_HARNESS (__real_write (p[1], buf, 100) == 100);
                hev_task_cio_read_exact (c, buf, 200, y, NULL);
            } else {
                hev_task_cio_read (c, buf, 200, y, NULL);
            }
        } else {
            if (vp_chance (50))
                fill (p[0]);
            hev_task_cio_write_exact (c, big, sizeof (big), y, NULL);
        }
        break;
    }
    case W_POLL:
    case W_POLL_TIME: {
        struct pollfd f[3];
        vp_pipe (p);
        vp_pair (q);
        f[0].fd = p[0];
        f[1].fd = q[0];
        f[2].fd = vp_chance (50) ? p[0] : -1;
        f[0].events = f[1].events = f[2].events = POLLIN;
        w->ready = 1;
        hev_task_io_poll (f, 3, w->kind == W_POLL ? -1 : 3600 * 1000);
        break;
    }
    case W_CHAN_READ:
    case W_CHAN_WRITE:
    case W_SELECT:
    case W_SELECT_TIME: {
        HevTaskChannel *a, *b;
        HevTaskChannelSelect *s;
        int n = vp_range (3);
        if (w->kind >= W_SELECT && !n)
            n = 1;
        VP_HARNESS (hev_task_channel_new_with_buffers (&a, &b, 16, n) == 0);
        w->ready = 1;
        if (w->kind == W_CHAN_READ) {
            hev_task_channel_read (a, buf, 16);
        } else if (w->kind == W_CHAN_WRITE) {
            for (i = 0; i <= n + 1; i++)
                hev_task_channel_write (a, buf, 16);
        } else {
            s = hev_task_channel_select_new ();
            VP_HARNESS (s);
            hev_task_channel_select_add (s, a);
            hev_task_channel_select_read (
                s, w->kind == W_SELECT ? -1 : 3600 * 1000);
        }
        break;
    }
    case W_MUTEX:
        w->ready = 1;
        hev_task_mutex_lock (&mutex);
        break;
    case W_COND:
    case W_COND_TIME:
        hev_task_mutex_lock (&cmutex);
        w->ready = 1;
        if (w->kind == W_COND)
            hev_task_cond_wait (&cond, &cmutex);
        else
            hev_task_cond_timedwait (&cond, &cmutex, 3600 * 1000);
        break;
    case W_JOIN:
        w->other = hev_task_new (65536);
        VP_HARNESS (w->other);
        hev_task_ref (w->other);
        hev_task_run (w->other, other, NULL);
        hev_task_yield (HEV_TASK_YIELD);
        w->ready = 1;
        hev_task_join (w->other);
        break;
    case W_SLEEP:
        w->ready = 1;
        if (vp_chance (50))
            hev_task_sleep (1000000 + vp_range (1000000));
        else
            hev_task_usleep (1000000000 + vp_range (1000000000));
        break;
    case W_LOOKUP: {
        struct addrinfo *a;
        w->ready = 1;
        hev_task_dns_getaddrinfo ("7", NULL, NULL, &a);
        break;
    }
    case W_NAMEINFO: {
        struct sockaddr_in a = { 0 };
        char host[100];
        a.sin_family = AF_INET;
        w->ready = 1;
        hev_task_dns_getnameinfo ((void *)&a, sizeof (a), host, sizeof (host),
                                  NULL, 0, 0);
        break;
    }
    case W_LOOKED_UP: { /* nothing left to look up */
        struct addrinfo *a;
        w->ready = 1;
        hev_task_dns_getaddrinfo ("q", NULL, NULL, &a);
        hev_task_yield (HEV_TASK_WAITIO);
        break;
    }
    case W_PLAIN:
        w->ready = 1;
        hev_task_yield (HEV_TASK_WAITIO);
        break;
    case W_HANGUP: /* told once */
        vp_pair (p);
        hev_task_add_fd (self, p[0], POLLIN | POLLOUT);
        __real_close (p[1]);
        w->ready = 1;
        for (i = 0; i < 20; i++)
            hev_task_yield (HEV_TASK_WAITIO);
        break;
    case W_UNREAD: /* told once, never read */
        vp_pair (p);
        hev_task_add_fd (self, p[0], POLLIN | POLLOUT);
        VP_HARNESS (__real_write (p[1], buf, 10) == 10);
        w->ready = 1;
        for (i = 0; i < 20; i++)
            hev_task_yield (HEV_TASK_WAITIO);
        break;
    case W_CALL: {
        HevTaskCall *c = hev_task_call_new (sizeof (HevTaskCall), 16384);
        VP_HARNESS (c);
        w->ready = 1;
        hev_task_call_jump (c, call_entry);
        break;
    }
    default: /* ends, after it has used a timer and a lock */
        hev_task_usleep (10);
        hev_task_mutex_lock (&cmutex);
        hev_task_mutex_unlock (&cmutex);
        w->ready = 1;
        return;
    }
    res.returned++;
    res.kind = w->kind;
    hev_task_yield (HEV_TASK_WAITIO);
}

static uint64_t
us (clockid_t c)
{
    struct timespec t;

    __real_clock_gettime (c, &t);
    return t.tv_sec * 1000000ull + t.tv_nsec / 1000;
}

static int out_fd;

static int
busy (const Result *r)
{
    return r->cpu_us >= 10000 + r->wall_us / 4;
}

static int
often (const Result *r)
{
    return r->waits > 10 || r->switches > 20 + r->wall_us / 20000;
}

static void
measure (void *data)
{
    struct rusage a, b;
    uint64_t cpu, wall, waits;
    int i, k;

    (void)data;
    VP_HARNESS (hev_task_mutex_lock (&mutex) == 0);
    /* all have to be where they wait */
    for (k = 0; k < 200; k++) {
        for (i = 0; i < nw && ws[i].ready; i++)
            ;
        if (i == nw)
            break;
        hev_task_yield (HEV_TASK_YIELD);
        if (k > 50)
            hev_task_sleep (1);
    }
    VP_HARNESS (i == nw);
    /* whatever still moves comes to rest, a system that spins does not */
    for (k = 0; k < 8; k++) {
        hev_task_sleep (5 << k);
        getrusage (RUSAGE_SELF, &a);
        cpu = us (CLOCK_PROCESS_CPUTIME_ID);
        wall = us (CLOCK_MONOTONIC);
        waits = vp_n_waits;
        hev_task_sleep (WINDOW);
        res.waits = vp_n_waits - waits;
        res.cpu_us = us (CLOCK_PROCESS_CPUTIME_ID) - cpu;
        res.wall_us = us (CLOCK_MONOTONIC) - wall;
        getrusage (RUSAGE_SELF, &b);
        res.switches = b.ru_nvcsw - a.ru_nvcsw;
        if (res.returned || (!busy (&res) && !often (&res)))
            break;
    }
    VP_HARNESS (__real_write (out_fd, &res, sizeof (res)) == sizeof (res));
    _exit (0);
}

static void
w_idle (uint64_t n)
{
    char what[600] = "";
    int p[2], st, i, first = -1;
    Result r;
    pid_t pid;

    memset (ws, 0, sizeof (ws));
    nw = 1 + vp_range (vp_chance (40) ? MAXW : 5);
    for (i = 0; i < nw; i++) {
        ws[i].kind = i == 0 ? (int)(n % W_N) : (int)vp_range (W_N);
        /* half of them in numbers of one kind */
        if (n / W_N % 2 && i)
            ws[i].kind = ws[0].kind;
        if (strlen (what) < 500 && (!i || ws[i].kind != first)) {
            strcat (what, i ? ", " : "");
            strcat (what, names[ws[i].kind] + 12);
        }
        first = ws[0].kind;
        vp_mix (ws[i].kind);
    }
    VP_HARNESS (pipe2 (p, O_CLOEXEC) == 0);
    fflush (stdout);
    pid = fork ();
    VP_HARNESS (pid >= 0);
    if (pid == 0) {
        HevTask *m;

        __real_close (p[0]);
        out_fd = p[1];
        alarm (60);
        signal (SIGPIPE, SIG_IGN);
        vp_gai_hook = gai;
        vp_gni_hook = gni;
        VP_HARNESS (hev_task_system_init () == 0);
        hev_task_mutex_init (&mutex);
        hev_task_mutex_init (&cmutex);
        hev_task_cond_init (&cond);
        m = hev_task_new (65536);
        VP_HARNESS (m);
        hev_task_run (m, measure, NULL);
        for (i = 0; i < nw; i++) {
            ws[i].h = hev_task_new (131072);
            VP_HARNESS (ws[i].h);
            hev_task_ref (ws[i].h);
            hev_task_run (ws[i].h, entry, &ws[i]);
        }
        hev_task_system_run ();
        _exit (7);
    }
    __real_close (p[1]);
    st = __real_read (p[0], &r, sizeof (r)) == sizeof (r);
    __real_close (p[0]);
    if (!st) {
        VP_HARNESS (waitpid (pid, &i, 0) == pid);
        VP_HARNESS (!WIFEXITED (i) || WEXITSTATUS (i) != 8);
        vp_fail ("child", "no measurement, status %x, waiting in: %s", i, what);
    }
    VP_HARNESS (waitpid (pid, &i, 0) == pid);
    VP_CHECK (r.returned == 0, "returned",
              "%lu waits ended although nothing happened, last: %s",
              (unsigned long)r.returned, names[r.kind] + 12);
    VP_CHECK (!busy (&r), "spin",
              "%lu us of processor time in %lu us while all wait in: %s",
              (unsigned long)r.cpu_us, (unsigned long)r.wall_us, what);
    VP_CHECK (!often (&r), "spin",
              "%lu returns from the kernel's wait and %lu switches in %lu us "
              "while all wait in: %s",
              (unsigned long)r.waits, (unsigned long)r.switches,
              (unsigned long)r.wall_us, what);
    vp_evn ("tasks waiting", nw);
    for (i = 0; i < nw; i++)
        vp_ev (names[ws[i].kind]);
    vp_evn ("microseconds watched", r.wall_us);
    vp_evn ("returns from the kernel's wait", r.waits);
    vp_nontrivial ();
    vp_sample ("%d tasks waiting in %s; %lu us of processor time in %lu us", nw,
               what, (unsigned long)r.cpu_us, (unsigned long)r.wall_us);
}

static const VpWork works[] = {
    { "idle", w_idle },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    return vp_main (argc, argv, works);
}
