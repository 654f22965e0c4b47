/* Descriptors created through the library (C19): compared with the plain
 * system call for the same arguments, in a scratch directory. */
#include "vp.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/stat.h>
#include <hev-task-system.h>
#include <hev-task.h>
#include <hev-task-io.h>
#include <hev-task-io-pipe.h>
#include <hev-task-io-socket.h>

static char dir[256];
static int dirfd_ = -1;

static void
scratch (void)
{
    const char *t = getenv ("TMPDIR");

    snprintf (dir, sizeof (dir), "%s/vp-open.XXXXXX", t ? t : "/tmp");
    VP_HARNESS (mkdtemp (dir));
    dirfd_ = __real_open (dir, O_RDONLY | O_DIRECTORY);
    VP_HARNESS (dirfd_ >= 0);
}

static void
wipe (void)
{
    unlinkat (dirfd_, "a", 0);
    unlinkat (dirfd_, "b", 0);
}

/* descriptor 0 is as good as any other */
static void
zero_free (void)
{
    __real_close (0);
}

static void
zero_take (void)
{
    if (__real_fcntl (0, F_GETFD) < 0)
        VP_HARNESS (__real_open ("/dev/null", O_RDWR) == 0);
}

static void
scratch_end (void)
{
    wipe ();
    __real_close (dirfd_);
    rmdir (dir);
}

static void
put (const char *name)
{
    int fd = __real_openat (dirfd_, name, O_CREAT | O_WRONLY | O_TRUNC, 0644);

    VP_HARNESS (fd >= 0 && __real_write (fd, "content", 7) == 7);
    __real_close (fd);
}

/* x: what the library returned, y: what the plain call returned */
static void
compare (int x, int ex, int y, int ey, const char *what, int strict_nb)
{
    struct stat sx, sy;
    int fx, fy;

    if (y < 0) {
        VP_CHECK (x < 0, "accepts", "%s succeeded, the plain call fails: %s",
                  what, strerror (ey));
        VP_CHECK (ex == ey, "errno", "%s failed with %d, the plain call %d",
                  what, ex, ey);
        vp_ev ("failures compared");
        return;
    }
    VP_CHECK (x >= 0, "refuses", "%s failed: %s", what, strerror (ex));
    fx = __real_fcntl (x, F_GETFL);
    fy = __real_fcntl (y, F_GETFL);
    if (strict_nb)
        VP_CHECK (fx & O_NONBLOCK, "blocking", "%s: blocking mode", what);
    VP_CHECK ((fx | O_NONBLOCK) == (fy | O_NONBLOCK), "flags",
              "%s: flags %o instead of %o", what, fx, fy);
    VP_CHECK (__real_fcntl (x, F_GETFD) == __real_fcntl (y, F_GETFD), "cloexec",
              "%s: close-on-exec differs", what);
    VP_HARNESS (fstat (x, &sx) == 0 && fstat (y, &sy) == 0);
    VP_CHECK (sx.st_mode == sy.st_mode, "mode", "%s: mode %o instead of %o",
              what, sx.st_mode, sy.st_mode);
    VP_CHECK (sx.st_size == sy.st_size, "size", "%s: size %ld instead of %ld",
              what, (long)sx.st_size, (long)sy.st_size);
    vp_ev ("descriptors compared");
}

static int
close_if (int fd)
{
    return fd >= 0 ? __real_close (fd) : 0;
}

static void
leak_check (const uint64_t a[16], const char *what)
{
    uint64_t b[16];

    vp_fd_snapshot (b);
    VP_CHECK (!memcmp (a, b, sizeof (b)), "fd-leak", "%s: descriptors %s", what,
              vp_fd_diff_str (a, b));
}

/* ---- files ---- */

static void
one_open (void)
{
    static const int acc[] = { O_RDONLY, O_WRONLY, O_RDWR };
    static const int opt[] = { O_CREAT,     O_EXCL,     O_TRUNC,    O_APPEND,
                               O_CLOEXEC,   O_NONBLOCK, O_NOFOLLOW, O_SYNC,
                               O_DIRECTORY, O_TMPFILE };
    int how = vp_range (3), fl = acc[vp_range (3)], x, y, ex, ey;
    mode_t mode = vp_range (010000), mask = (mode_t[]){ 0, 022, 077 }[vp_range (3)];
    unsigned i;
    char pa[300], pb[300], what[120];
    uint64_t a[16];
    int exists = vp_chance (50), tmp;

    wipe ();
    for (i = 0; i < ARRAY_LEN (opt); i++)
        if (vp_chance (opt[i] == O_TMPFILE || opt[i] == O_DIRECTORY ? 8 : 35))
            fl |= opt[i];
    tmp = (fl & O_TMPFILE) == O_TMPFILE;
    if (exists) {
        put ("a");
        put ("b");
    }
    snprintf (pa, sizeof (pa), "%s/%s", dir, tmp ? "" : "a");
    snprintf (pb, sizeof (pb), "%s/%s", dir, tmp ? "" : "b");
    umask (mask);
    vp_fd_snapshot (a);
    errno = 0;
    if (how == 2) {
        x = hev_task_io_creat (pa, mode);
        ex = errno;
        y = __real_creat (pb, mode);
        ey = errno;
        snprintf (what, sizeof (what), "creat(%o)", mode);
    } else if (how == 1) {
        int rel = vp_chance (50);
        x = hev_task_io_openat (dirfd_, rel ? (tmp ? "." : "a") : pa, fl, mode);
        ex = errno;
        y = __real_openat (dirfd_, rel ? (tmp ? "." : "b") : pb, fl, mode);
        ey = errno;
        snprintf (what, sizeof (what), "openat(%o, %o)", fl, mode);
    } else {
        x = hev_task_io_open (pa, fl, mode);
        ex = errno;
        y = __real_open (pb, fl, mode);
        ey = errno;
        snprintf (what, sizeof (what), "open(%o, %o)", fl, mode);
    }
    umask (022);
    vp_mix (fl * 64 + how + (exists << 30));
    compare (x, ex, y, ey, what, 1);
    close_if (x);
    close_if (y);
    leak_check (a, what);
}

/* ---- sockets, pipes, duplicates ---- */

static void
one_socket (void)
{
    static const int dom[] = { AF_UNIX, AF_INET, AF_INET6, 999 };
    static const int typ[] = { SOCK_STREAM, SOCK_DGRAM, SOCK_SEQPACKET, 77 };
    int d = dom[vp_range (4)], t = typ[vp_range (4)], p = vp_chance (90) ? 0 : 17;
    int x, y, ex, ey, xt, yt, v[2] = { -1, -1 }, w[2] = { -1, -1 };
    socklen_t l = sizeof (xt);
    uint64_t a[16];
    char what[100];

    if (vp_chance (40))
        t |= SOCK_CLOEXEC;
    if (vp_chance (20))
        t |= SOCK_NONBLOCK;
    vp_mix (d * 1000 + t * 3 + p);
    vp_fd_snapshot (a);
    if (vp_chance (50)) {
        snprintf (what, sizeof (what), "socket(%d, %d, %d)", d, t, p);
        x = hev_task_io_socket_socket (d, t, p);
        ex = errno;
        y = __real_socket (d, t, p);
        ey = errno;
        compare (x, ex, y, ey, what, 1);
        if (x >= 0) {
            getsockopt (x, SOL_SOCKET, SO_TYPE, &xt, &l);
            getsockopt (y, SOL_SOCKET, SO_TYPE, &yt, &l);
            VP_CHECK (xt == yt, "type", "%s: type %d", what, xt);
            getsockopt (x, SOL_SOCKET, SO_DOMAIN, &xt, &l);
            getsockopt (y, SOL_SOCKET, SO_DOMAIN, &yt, &l);
            VP_CHECK (xt == yt, "type", "%s: domain %d", what, xt);
        }
        close_if (x);
        close_if (y);
    } else {
        int i;
        snprintf (what, sizeof (what), "socketpair(%d, %d, %d)", d, t, p);
        x = hev_task_io_socket_socketpair (d, t, p, v);
        ex = errno;
        y = __real_socketpair (d, t, p, w);
        ey = errno;
        if (y < 0) {
            VP_CHECK (x < 0 && ex == ey, "accepts", "%s: %d errno %d", what, x,
                      ex);
            vp_ev ("failures compared");
        } else {
            char c = 0;
            VP_CHECK (x == 0, "refuses", "%s: %d errno %d", what, x, ex);
            for (i = 0; i < 2; i++)
                compare (v[i], 0, w[i], 0, what, 1);
            VP_CHECK (__real_write (v[0], "x", 1) == 1 &&
                          __real_read (v[1], &c, 1) == 1 && c == 'x',
                      "pair", "%s: not connected to each other", what);
            for (i = 0; i < 2; i++) {
                __real_close (v[i]);
                __real_close (w[i]);
            }
        }
    }
    leak_check (a, what);
}

static void
one_pipe (void)
{
    int v[2] = { -1, -1 }, w[2] = { -1, -1 }, i;
    uint64_t a[16];
    char c = 0;

    vp_fd_snapshot (a);
    VP_CHECK (hev_task_io_pipe_pipe (v) == 0, "refuses", "pipe failed");
    VP_HARNESS (__real_pipe (w) == 0);
    for (i = 0; i < 2; i++)
        compare (v[i], 0, w[i], 0, "pipe", 1);
    VP_CHECK (__real_write (v[1], "x", 1) == 1 && __real_read (v[0], &c, 1) == 1 &&
                  c == 'x',
              "pair", "pipe: the second end does not write to the first");
    for (i = 0; i < 2; i++) {
        __real_close (v[i]);
        __real_close (w[i]);
    }
    leak_check (a, "pipe");
}

static int
source (int *extra)
{
    int fd[2], r;

    *extra = -1;
    switch (vp_range (5)) {
    case 0:
        VP_HARNESS (__real_pipe (fd) == 0);
        break;
    case 1:
        VP_HARNESS (__real_socketpair (AF_UNIX, SOCK_STREAM, 0, fd) == 0);
        break;
    case 2:
        put ("a");
        return __real_openat (dirfd_, "a", O_RDWR | O_APPEND | O_CLOEXEC);
    case 3:
        return __real_open ("/dev/null", O_WRONLY);
    default:
        return -1 - (int)vp_range (3);
    }
    r = vp_range (2);
    *extra = fd[1 - r];
    return fd[r];
}

static int
same_object (int a, int b)
{
    struct stat x, y;

    return fstat (a, &x) == 0 && fstat (b, &y) == 0 && x.st_dev == y.st_dev &&
           x.st_ino == y.st_ino;
}

static void
one_dup (void)
{
    uint64_t a[16], b[16];
    int extra, fd, x, y, ex, ey, fl = 0;

    vp_fd_snapshot (a);
    fd = source (&extra);
    if (fd >= 0)
        fl = __real_fcntl (fd, F_GETFL);
    if (vp_chance (20))
        zero_free ();
    if (vp_chance (50)) {
        y = __real_dup (fd);
        ey = errno;
        close_if (y);
        x = hev_task_io_dup (fd);
        ex = errno;
        if (y >= 0)
            VP_CHECK (x == y, "number",
                      "dup returned %d, %d is the lowest free number", x, y);
        vp_ev ("dup");
    } else {
        int target = vp_chance (20) ? fd : 60 + vp_range (8);
        int busy = vp_chance (40) && target != fd;
        if (vp_chance (10))
            target = -1;
        if (busy && target >= 0)
            VP_HARNESS (__real_dup2 (dirfd_, target) == target);
        y = target < 0 ? -1 : fd < 0 ? -1 : target;
        ey = EBADF;
        x = hev_task_io_dup2 (fd, target);
        ex = errno;
        if (y >= 0)
            VP_CHECK (x == y, "number", "dup2 to %d returned %d", target, x);
        else if (busy && target >= 0) {
            /* a failed dup2 leaves the target alone */
            VP_CHECK (same_object (target, dirfd_), "target",
                      "failed dup2 closed its target");
            __real_close (target);
        }
        vp_ev ("dup2");
    }
    vp_mix (x + 5000 * fl);
    if (y < 0) {
        VP_CHECK (x < 0 && ex == ey, "accepts", "dup of %d: %d", fd, x);
        vp_ev ("failures compared");
    } else {
        int nf = __real_fcntl (x, F_GETFL);
        VP_CHECK (nf & O_NONBLOCK, "blocking", "duplicate in blocking mode");
        VP_CHECK ((nf | O_NONBLOCK) == (fl | O_NONBLOCK), "flags",
                  "duplicate has flags %o, the original %o", nf, fl);
        VP_CHECK (same_object (x, fd), "object", "duplicate of something else");
        if (x != fd)
            VP_CHECK (!(__real_fcntl (x, F_GETFD) & FD_CLOEXEC), "cloexec",
                      "duplicate is close-on-exec");
        VP_CHECK (__real_fcntl (fd, F_GETFL) >= 0, "original",
                  "the original was closed");
        vp_ev ("descriptors compared");
        if (x != fd)
            __real_close (x);
    }
    close_if (fd);
    close_if (extra);
    zero_take ();
    vp_fd_snapshot (b);
    VP_CHECK (!memcmp (a, b, sizeof (a)), "fd-leak", "dup: descriptors %s",
              vp_fd_diff_str (a, b));
}

/* ---- accept ---- */

static int acc_l, acc_c, acc_res, acc_err;
static struct sockaddr_storage acc_a;
static socklen_t acc_al;
static int acc_fault, acc_zero;

static void
acceptor (void *data)
{
    VP_HARNESS (hev_task_add_fd (hev_task_self (), acc_l, POLLIN) == 0);
    if (acc_zero)
        zero_free ();
    vp_fault_on = acc_fault > 0;
    vp_fault_at = acc_fault;
    vp_fault_seen = vp_fault_hits = 0;
    acc_res = hev_task_io_socket_accept (acc_l, (void *)&acc_a, &acc_al, NULL,
                                         NULL);
    acc_err = errno;
    vp_fault_on = 0;
    hev_task_del_fd (hev_task_self (), acc_l);
}

static void
one_accept (int fault)
{
    uint64_t a[16], b[16];
    struct sockaddr_storage la, want;
    socklen_t ll, wl = sizeof (want);
    int un = vp_chance (50), one = 1;
    struct linger lin = { 1, 0 };

    vp_fd_snapshot (a);
    memset (&la, 0, sizeof (la));
    if (un) {
        la.ss_family = AF_UNIX; /* an automatic abstract name */
        ll = sizeof (sa_family_t);
    } else {
        struct sockaddr_in *i = (void *)&la;
        i->sin_family = AF_INET;
        i->sin_addr.s_addr = htonl (INADDR_LOOPBACK);
        ll = sizeof (*i);
    }
    acc_l = __real_socket (la.ss_family, SOCK_STREAM | SOCK_NONBLOCK, 0);
    setsockopt (acc_l, SOL_SOCKET, SO_REUSEADDR, &one, sizeof (one));
    VP_HARNESS (bind (acc_l, (void *)&la, ll) == 0);
    VP_HARNESS (listen (acc_l, 5) == 0);
    ll = sizeof (la);
    VP_HARNESS (getsockname (acc_l, (void *)&la, &ll) == 0);
    acc_c = __real_socket (la.ss_family, SOCK_STREAM, 0);
    if (un && vp_chance (50)) {
        struct sockaddr_storage me = { .ss_family = AF_UNIX };
        VP_HARNESS (bind (acc_c, (void *)&me, sizeof (sa_family_t)) == 0);
    }
    setsockopt (acc_c, SOL_SOCKET, SO_LINGER, &lin, sizeof (lin));
    VP_HARNESS (__real_connect (acc_c, (void *)&la, ll) == 0);
    VP_HARNESS (getsockname (acc_c, (void *)&want, &wl) == 0);
    acc_al = sizeof (acc_a);
    memset (&acc_a, 0x33, sizeof (acc_a));
    acc_fault = fault;
    acc_zero = vp_chance (20);
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    hev_task_run (hev_task_new (65536), acceptor, NULL);
    hev_task_system_run ();
    hev_task_system_fini ();
    if (fault && vp_fault_hits) {
        VP_CHECK (acc_res < 0, "fault", "accept returned %d when %s failed",
                  acc_res, vp_fault_last);
        vp_ev ("failing steps of accept");
    } else {
        VP_CHECK (acc_res >= 0, "refuses", "accept: %d, errno %d", acc_res,
                  acc_err);
        VP_CHECK (__real_fcntl (acc_res, F_GETFL) & O_NONBLOCK, "blocking",
                  "accepted descriptor in blocking mode");
        VP_CHECK (acc_al == wl && !memcmp (&acc_a, &want, wl), "address",
                  "accept reported another address (%u bytes, %u expected)",
                  acc_al, wl);
        VP_CHECK (!(__real_fcntl (acc_res, F_GETFD) & FD_CLOEXEC), "cloexec",
                  "accepted descriptor is close-on-exec");
        VP_CHECK (__real_fcntl (acc_res, F_GETFL) == (O_RDWR | O_NONBLOCK),
                  "flags", "accepted descriptor has flags %o",
                  __real_fcntl (acc_res, F_GETFL));
        vp_ev (acc_res ? "accepts compared" : "descriptor 0 accepted");
        __real_close (acc_c); /* a reset: nothing lingers in the kernel */
        acc_c = -1;
        __real_close (acc_res);
    }
    zero_take ();
    __real_close (acc_l);
    close_if (acc_c);
    vp_fd_snapshot (b);
    VP_CHECK (!memcmp (a, b, sizeof (a)), "fd-leak", "accept: descriptors %s",
              vp_fd_diff_str (a, b));
}

static void
w_create (uint64_t n)
{
    int i;

    scratch ();
    zero_take ();
    for (i = 0; i < 20; i++) {
        int op = vp_range (8);
        if (op < 6 && vp_chance (20))
            zero_free ();
        switch (op) {
        case 0:
        case 1:
        case 2:
            one_open ();
            break;
        case 3:
        case 4:
            one_socket ();
            break;
        case 5:
            one_pipe ();
            break;
        case 6:
            one_dup ();
            break;
        default:
            one_accept (0);
        }
        zero_take ();
    }
    scratch_end ();
    vp_nontrivial ();
    vp_sample ("20 creation calls compared");
}

/* every call in turn, every step of it failing */
static void
w_fail (uint64_t n)
{
    uint64_t a[16], b[16];
    int op = vp_case % 9, at = 1 + vp_case / 9 % 4, res = 0;
    int fd, extra = -1, pair[2] = { -1, -1 };
    char path[300];
    static const char *names[] = { "open",   "creat",      "openat", "dup",
                                   "dup2",   "pipe",       "socket", "socketpair",
                                   "accept" };

    scratch ();
    if (op == 8) {
        one_accept (at);
        scratch_end ();
        vp_nontrivial ();
        return;
    }
    put ("a");
    fd = __real_openat (dirfd_, "a", O_RDWR);
    snprintf (path, sizeof (path), "%s/a", dir);
    vp_fd_snapshot (a);
    vp_fault_seen = vp_fault_hits = 0;
    vp_fault_at = at;
    vp_fault_on = 1;
    switch (op) {
    case 0:
        res = hev_task_io_open (path, O_RDWR);
        break;
    case 1:
        res = hev_task_io_creat (path, 0600);
        break;
    case 2:
        res = hev_task_io_openat (dirfd_, "a", O_RDWR | O_CREAT, 0600);
        break;
    case 3:
        res = hev_task_io_dup (fd);
        break;
    case 4:
        res = hev_task_io_dup2 (fd, 70);
        break;
    case 5:
        res = hev_task_io_pipe_pipe (pair);
        break;
    case 6:
        res = hev_task_io_socket_socket (AF_UNIX, SOCK_STREAM, 0);
        break;
    case 7:
        res = hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, pair);
        break;
    }
    vp_fault_on = 0;
    vp_mix (op * 8 + at);
    if (vp_fault_hits) {
        VP_CHECK (res < 0, "fault", "%s returned %d when its %s failed",
                  names[op], res, vp_fault_last);
        vp_ev ("failing steps");
        vp_sample ("%s, step %d (%s) fails", names[op], at, vp_fault_last);
    } else {
        VP_CHECK (res >= 0, "refuses", "%s: %d", names[op], res);
        if (op == 5 || op == 7) {
            __real_close (pair[0]);
            __real_close (pair[1]);
        } else {
            __real_close (res);
        }
        vp_ev ("calls with fewer steps");
    }
    vp_fd_snapshot (b);
    VP_CHECK (!memcmp (a, b, sizeof (a)), "fd-leak",
              "%s with step %d failing: descriptors %s", names[op], at,
              vp_fd_diff_str (a, b));
    close_if (fd);
    close_if (extra);
    scratch_end ();
    vp_nontrivial ();
}

static const VpWork works[] = {
    { "create", w_create },
    { "fail", w_fail },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    vp_keep_stdin = 1; /* see zero_free */
    return vp_main (argc, argv, works);
}
