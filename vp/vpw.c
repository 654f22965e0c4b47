/* Monitors and fault injection at the libc boundary (linked with --wrap). */
#include "vp.h"
#include <pthread.h>
#include <signal.h>
#include <sched.h>
#include <sys/eventfd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define VP_SAN 1
#endif
#endif

/* ------------------------------------------------------------------ */
/* state */

__thread int vp_vt_on; /* the other threads are left alone */
uint64_t vp_now = 1000000000ull;
uint64_t vp_tick_ns;
unsigned vp_real_idle_ms;
int (*vp_idle_hook) (void);
void (*vp_jump_hook) (uint64_t from, uint64_t to);
void (*vp_poll_hook) (int timeout);
void (*vp_dead_hook) (void);
const char *vp_dead_key = "deadlock";
uint64_t vp_n_waits;
uint64_t vp_steps, vp_step_limit = 2000000;
int vp_shuffle;
uint64_t vp_advances;
unsigned vp_eagain_pct, vp_short_pct;
uint64_t vp_inj_count;
void (*vp_sys_hook) (const char *op, int fd, ssize_t ret, int err);
int (*vp_sys_force) (const char *op, int fd, ssize_t *ret, int *err);
void (*vp_settime_hook) (int fd, const struct itimerspec *v);
int vp_close_monitor;
uint64_t vp_close_count[4096];

uint64_t vp_fault_at, vp_fault_seen, vp_fault_hits;
unsigned vp_fault_pct;
__thread int vp_fault_on;
int vp_fault_any, vp_fault_sig;
const char *vp_fault_last = "";

int vp_track;
uint64_t vp_n_malloc, vp_n_free, vp_n_mmap, vp_n_munmap;
int vp_quarantine;

void (*vp_delay_hook) (const char *op);
int vp_jitter;
int (*vp_gai_hook) (const char *, const char *, const struct addrinfo *,
                    struct addrinfo **);
int (*vp_gni_hook) (const struct sockaddr *, socklen_t, char *, socklen_t,
                    char *, socklen_t, int);

/* not a pthread mutex, which would order the threads for a race detector */
static char lock;

static void
do_lock (void)
{
    while (__atomic_test_and_set (&lock, __ATOMIC_ACQUIRE))
        sched_yield ();
}

static void
do_unlock (void)
{
    __atomic_clear (&lock, __ATOMIC_RELEASE);
}

/* widens the windows between threads */
static void
delay (const char *op)
{
    if (vp_delay_hook) {
        int e = errno;
        vp_delay_hook (op);
        errno = e;
    }
    vp_sig_point ();
}

/* ------------------------------------------------------------------ */
/* failure injection */

static int
fault (const char *what)
{
    uint64_t seen;

    if (!vp_fault_on && !__atomic_load_n (&vp_fault_any, __ATOMIC_ACQUIRE))
        return 0;
    seen = __atomic_add_fetch (&vp_fault_seen, 1, __ATOMIC_RELAXED);
    if ((vp_fault_at && seen == vp_fault_at) ||
        (vp_fault_pct && vp_chance (vp_fault_pct))) {
        vp_fault_last = what;
        vp_fault_hits++;
        return 1;
    }
    return 0;
}

/* ------------------------------------------------------------------ */
/* epoll registrations (for re-arming after an injected would-block) */

#define MAXFD 4096
static struct
{
    int epfd; /* plus one, 0: none */
    struct epoll_event ev;
} regs[MAXFD];

static void
rearm (int fd)
{
    struct epoll_event ev = regs[fd].ev;
    __real_epoll_ctl (regs[fd].epfd - 1, EPOLL_CTL_MOD, fd, &ev);
}

void
vp_rearm (int fd)
{
    if (fd >= 0 && fd < MAXFD && regs[fd].epfd)
        rearm (fd);
}

static int
can_inject (int fd, uint32_t events)
{
    if (fd < 0 || fd >= MAXFD || !regs[fd].epfd)
        return 0;
    return (regs[fd].ev.events & events) == events;
}

static int
is_stream (int fd)
{
    int type;
    socklen_t len = sizeof (type);

    if (getsockopt (fd, SOL_SOCKET, SO_TYPE, &type, &len) < 0)
        return errno == ENOTSOCK;
    return type == SOCK_STREAM;
}

int
__wrap_epoll_ctl (int epfd, int op, int fd, struct epoll_event *ev)
{
    int res;

    if (fault ("epoll_ctl")) {
        errno = ENOMEM;
        return -1;
    }
    res = __real_epoll_ctl (epfd, op, fd, ev);
    if (res == 0 && fd >= 0 && fd < MAXFD) {
        if (op == EPOLL_CTL_DEL) {
            regs[fd].epfd = 0;
        } else {
            regs[fd].epfd = epfd + 1;
            regs[fd].ev = *ev;
        }
    }
    return res;
}

static int
not_zero (int fd, int level)
{
    int n;

    if (fd != 0 || vp_zero < level)
        return fd;
    n = __real_dup (fd); /* known to sanitizers */
    __real_close (fd);
    return n;
}

int
__wrap_epoll_create (int size)
{
    if (fault ("epoll_create")) {
        errno = EMFILE;
        return -1;
    }
    delay ("epoll_create");
    return not_zero (__real_epoll_create (size), 1);
}

int
__wrap_epoll_create1 (int flags)
{
    if (fault ("epoll_create1")) {
        errno = EMFILE;
        return -1;
    }
    delay ("epoll_create");
    return not_zero (__real_epoll_create1 (flags), 1);
}

/* ------------------------------------------------------------------ */
/* virtual time */

#define MAXVT 16
static struct
{
    int fd; /* -1: free */
    uint64_t expire; /* 0: disarmed */
    uint64_t interval;
} vts[MAXVT];
static int vts_init;

static void
vt_setup (void)
{
    int i;
    if (vts_init)
        return;
    for (i = 0; i < MAXVT; i++)
        vts[i].fd = -1;
    vts_init = 1;
}

void
vp_vt_start (uint64_t start_ns)
{
    vt_setup ();
    vp_vt_on = 1;
    vp_now = start_ns;
    /* or just before the uptime does not fit a counter of 32 bits */
    if (vp_chance (15)) {
        static const uint64_t wrap[] = { 0x80000000ull, 0x100000000ull };
        static const uint64_t unit[] = { 1, 1000, 1000000 };
        uint64_t w = wrap[vp_range (2)] * unit[vp_range (3)];
        vp_now = w - vp_rnd () % (vp_chance (50) ? 1000000000ull : 50000000);
    }
}

void
vp_vt_stop (void)
{
    vp_vt_on = 0;
}

int
__wrap_clock_gettime (clockid_t clk, struct timespec *ts)
{
    uint64_t t;

    if (!vp_vt_on)
        return __real_clock_gettime (clk, ts);
    if (vp_tick_ns)
        vp_now += vp_rnd () % (vp_tick_ns + 1);
    t = vp_now;
    /* the wall clock is unrelated to the monotonic one and jumps about */
    if (clk == CLOCK_REALTIME)
        t = 5000000000000000ull + vp_rnd () % 1000000000000000ull;
    ts->tv_sec = t / 1000000000ull;
    ts->tv_nsec = t % 1000000000ull;
    return 0;
}

int
__wrap_timerfd_create (int clk, int flags)
{
    int i, fd;

    if (fault ("timerfd_create")) {
        errno = EMFILE;
        return -1;
    }
    if (!vp_vt_on)
        return not_zero (__real_timerfd_create (clk, flags), 2);
    fd = not_zero (eventfd (0, EFD_NONBLOCK | EFD_CLOEXEC), 2);
    if (fd < 0)
        return fd;
    for (i = 0; i < MAXVT; i++) {
        if (vts[i].fd < 0) {
            vts[i].fd = fd;
            vts[i].expire = 0;
            vts[i].interval = 0;
            return fd;
        }
    }
    vp_broken ("too many virtual timers");
}

static void
vt_fire (void)
{
    int i;

    for (i = 0; i < MAXVT; i++) {
        uint64_t one = 1;
        if (vts[i].fd < 0 || !vts[i].expire || vts[i].expire > vp_now)
            continue;
        if (vts[i].interval)
            vts[i].expire += vts[i].interval;
        else
            vts[i].expire = 0;
        if (__real_write (vts[i].fd, &one, 8) != 8)
            vp_broken ("virtual timer");
    }
}

int
__wrap_timerfd_settime (int fd, int flags, const struct itimerspec *v,
                        struct itimerspec *old)
{
    uint64_t cnt, val;
    int i;

    if (fault ("timerfd_settime")) {
        errno = ENOMEM;
        return -1;
    }
    if (vp_settime_hook)
        vp_settime_hook (fd, v);
    if (!vp_vt_on)
        return __real_timerfd_settime (fd, flags, v, old);
    for (i = 0; i < MAXVT; i++)
        if (vts[i].fd == fd)
            break;
    if (i == MAXVT) {
        errno = EBADF;
        return -1;
    }
    if (v->it_value.tv_nsec < 0 || v->it_value.tv_nsec >= 1000000000L ||
        v->it_value.tv_sec < 0 || v->it_interval.tv_nsec < 0 ||
        v->it_interval.tv_nsec >= 1000000000L || v->it_interval.tv_sec < 0) {
        errno = EINVAL;
        return -1;
    }
    if (old)
        memset (old, 0, sizeof (*old));
    while (__real_read (fd, &cnt, 8) == 8)
        ;
    val = (uint64_t)v->it_value.tv_sec * 1000000000ull + v->it_value.tv_nsec;
    vts[i].interval = (uint64_t)v->it_interval.tv_sec * 1000000000ull +
                      v->it_interval.tv_nsec;
    if (!val)
        vts[i].expire = 0;
    else if (flags & TFD_TIMER_ABSTIME)
        vts[i].expire = val;
    else
        vts[i].expire = vp_now + val;
    vt_fire ();
    return 0;
}

int
vp_vt_armed (void)
{
    int i;

    for (i = 0; i < MAXVT; i++)
        if (vts[i].fd >= 0 && vts[i].expire)
            return 1;
    return 0;
}

static int
vt_advance (void)
{
    uint64_t min = 0;
    int i;

    for (i = 0; i < MAXVT; i++)
        if (vts[i].fd >= 0 && vts[i].expire && (!min || vts[i].expire < min))
            min = vts[i].expire;
    if (!min)
        return 0;
    if (min > vp_now) {
        if (vp_jump_hook)
            vp_jump_hook (vp_now, min);
        vp_now = min;
    }
    vp_advances++;
    vt_fire ();
    return 1;
}

static int
poll_real (int epfd, struct epoll_event *ev, int max, int timeout)
{
    int n, i;

    if (vp_shuffle && max > 1 && vp_chance (50))
        max = vp_between (1, max < 4 ? max : 4);
    n = __real_epoll_wait (epfd, ev, max, timeout);
    /* signals that come faster than this wait must not starve the harness */
    while (n < 0 && errno == EINTR && timeout > 0 && !vp_sig_pass ())
        n = __real_epoll_wait (epfd, ev, max, --timeout);
    if (vp_shuffle) {
        for (i = n - 1; i > 0; i--) {
            int j = vp_range (i + 1);
            struct epoll_event t = ev[i];
            ev[i] = ev[j];
            ev[j] = t;
        }
    }
    return n;
}

int
__wrap_epoll_wait (int epfd, struct epoll_event *ev, int max, int timeout)
{
    int n;

    if (!vp_vt_on) {
        n = __real_epoll_wait (epfd, ev, max, timeout);
        __atomic_fetch_add (&vp_n_waits, 1, __ATOMIC_RELAXED);
        delay ("epoll_wait");
        return n;
    }
    vp_y_check ();
    if (++vp_steps > vp_step_limit && vp_dead_hook)
        vp_dead_hook ();
    if (vp_steps > vp_step_limit)
        vp_fail ("livelock", "no progress after %lu scheduling steps",
                 (unsigned long)vp_steps);
    if (vp_poll_hook)
        vp_poll_hook (timeout);
    for (;;) {
        vt_fire ();
        n = poll_real (epfd, ev, max, 0);
        if (n != 0 || timeout == 0)
            return n;
        if (vp_sig_wait ()) {
            errno = EINTR;
            return -1;
        }
        if (vp_real_idle_ms) {
            n = poll_real (epfd, ev, max, vp_real_idle_ms);
            if (n != 0)
                return n;
        }
        if (++vp_steps > vp_step_limit)
            vp_fail ("livelock", "no progress after %lu scheduling steps",
                     (unsigned long)vp_steps);
        if (vp_idle_hook && vp_idle_hook ())
            continue;
        if (vt_advance ())
            continue;
        if (timeout > 0) {
            vp_now += (uint64_t)timeout * 1000000ull;
            vt_fire ();
            return poll_real (epfd, ev, max, 0);
        }
        /* nothing can ever happen: double check with real time, for data
         * still travelling inside the kernel */
        n = poll_real (epfd, ev, max, 300);
        if (n != 0)
            return n;
        if (vp_dead_hook)
            vp_dead_hook ();
        vp_fail (vp_dead_key,
                 "every task waits, no timer is armed and nothing is ready");
    }
}

int
__wrap_epoll_pwait (int epfd, struct epoll_event *ev, int max, int timeout,
                    const sigset_t *ss)
{
    (void)ss;
    return __wrap_epoll_wait (epfd, ev, max, timeout);
}

/* ------------------------------------------------------------------ */
/* data transfer calls */

#define EPILOGUE(op)                       \
    do {                                   \
        vp_sig_point ();                   \
        if (vp_sys_hook) {                 \
            int e_ = errno;                \
            vp_sys_hook (op, fd, res, e_); \
            errno = e_;                    \
        }                                  \
        return res;                        \
    } while (0)

#define FORCE(op)                                     \
    do {                                              \
        ssize_t r_;                                   \
        int e_;                                       \
        if (vp_sys_force && vp_sys_force (op, fd, &r_, &e_)) { \
            errno = e_;                               \
            res = r_;                                 \
            EPILOGUE (op);                            \
        }                                             \
    } while (0)

#define INJ_EAGAIN(op, evs)                                   \
    do {                                                      \
        if (vp_eagain_pct && can_inject (fd, evs) &&          \
            vp_chance (vp_eagain_pct)) {                      \
            vp_inj_count++;                                   \
            rearm (fd);                                       \
            errno = EAGAIN;                                   \
            res = -1;                                         \
            EPILOGUE (op);                                    \
        }                                                     \
    } while (0)

static size_t
shorten (int fd, size_t count)
{
    if (vp_short_pct && count > 1 && vp_chance (vp_short_pct) &&
        is_stream (fd)) {
        vp_inj_count++;
        if (vp_chance (50))
            return 1;
        return 1 + vp_rnd () % (count - 1);
    }
    return count;
}

static size_t
iov_total (const struct iovec *iov, size_t n)
{
    size_t t = 0, i;
    for (i = 0; i < n; i++)
        t += iov[i].iov_len;
    return t;
}

static int
iov_trim (struct iovec *dst, const struct iovec *src, int n, size_t total)
{
    int i;

    for (i = 0; i < n && total; i++) {
        dst[i] = src[i];
        if (dst[i].iov_len > total)
            dst[i].iov_len = total;
        total -= dst[i].iov_len;
    }
    return i;
}

/* A transfer that was cut short hides data or room that is still there, so
 * the edge is re-armed, as a real short transfer would imply. */
#define POST(full, cnt)                                     \
    do {                                                    \
        if (cnt != full && fd >= 0 && fd < MAXFD && regs[fd].epfd) { \
            int e_ = errno;                                 \
            rearm (fd);                                     \
            errno = e_;                                     \
        }                                                   \
    } while (0)

ssize_t
__wrap_read (int fd, void *buf, size_t count)
{
    ssize_t res;
    size_t c;

    if (!vp_vt_on) {
        delay ("read");
        res = __real_read (fd, buf, count);
        delay ("read");
        return res;
    }
    FORCE ("read");
    INJ_EAGAIN ("read", EPOLLIN);
    c = shorten (fd, count);
    res = __real_read (fd, buf, c);
    POST (count, c);
    EPILOGUE ("read");
}

ssize_t
__wrap_write (int fd, const void *buf, size_t count)
{
    ssize_t res;
    size_t c;

    if (!vp_vt_on) {
        delay ("write");
        res = __real_write (fd, buf, count);
        delay ("write");
        return res;
    }
    FORCE ("write");
    INJ_EAGAIN ("write", EPOLLOUT);
    c = shorten (fd, count);
    res = __real_write (fd, buf, c);
    POST (count, c);
    EPILOGUE ("write");
}

ssize_t
__wrap_readv (int fd, const struct iovec *iov, int n)
{
    static __thread struct iovec t[1024];
    ssize_t res;
    size_t c, full;

    if (!vp_vt_on || n > 1024 || n < 0)
        return __real_readv (fd, iov, n);
    FORCE ("readv");
    INJ_EAGAIN ("readv", EPOLLIN);
    full = iov_total (iov, n);
    c = shorten (fd, full);
    if (c != full)
        res = __real_readv (fd, t, iov_trim (t, iov, n, c));
    else
        res = __real_readv (fd, iov, n);
    POST (full, c);
    EPILOGUE ("readv");
}

ssize_t
__wrap_writev (int fd, const struct iovec *iov, int n)
{
    static __thread struct iovec t[1024];
    ssize_t res;
    size_t c, full;

    if (!vp_vt_on || n > 1024 || n < 0)
        return __real_writev (fd, iov, n);
    FORCE ("writev");
    INJ_EAGAIN ("writev", EPOLLOUT);
    full = iov_total (iov, n);
    c = shorten (fd, full);
    if (c != full)
        res = __real_writev (fd, t, iov_trim (t, iov, n, c));
    else
        res = __real_writev (fd, iov, n);
    POST (full, c);
    EPILOGUE ("writev");
}

ssize_t
__wrap_recv (int fd, void *buf, size_t count, int flags)
{
    ssize_t res;
    size_t c;

    if (!vp_vt_on)
        return __real_recv (fd, buf, count, flags);
    FORCE ("recv");
    INJ_EAGAIN ("recv", EPOLLIN);
    c = shorten (fd, count);
    res = __real_recv (fd, buf, c, flags);
    POST (count, c);
    EPILOGUE ("recv");
}

ssize_t
__wrap_send (int fd, const void *buf, size_t count, int flags)
{
    ssize_t res;
    size_t c;

    if (!vp_vt_on)
        return __real_send (fd, buf, count, flags);
    FORCE ("send");
    INJ_EAGAIN ("send", EPOLLOUT);
    c = shorten (fd, count);
    res = __real_send (fd, buf, c, flags);
    POST (count, c);
    EPILOGUE ("send");
}

ssize_t
__wrap_recvfrom (int fd, void *buf, size_t count, int flags,
                 struct sockaddr *a, socklen_t *al)
{
    ssize_t res;
    size_t c;

    if (!vp_vt_on)
        return __real_recvfrom (fd, buf, count, flags, a, al);
    FORCE ("recvfrom");
    INJ_EAGAIN ("recvfrom", EPOLLIN);
    c = shorten (fd, count);
    res = __real_recvfrom (fd, buf, c, flags, a, al);
    POST (count, c);
    EPILOGUE ("recvfrom");
}

ssize_t
__wrap_sendto (int fd, const void *buf, size_t count, int flags,
               const struct sockaddr *a, socklen_t al)
{
    ssize_t res;
    size_t c;

    if (!vp_vt_on)
        return __real_sendto (fd, buf, count, flags, a, al);
    FORCE ("sendto");
    INJ_EAGAIN ("sendto", EPOLLOUT);
    c = shorten (fd, count);
    res = __real_sendto (fd, buf, c, flags, a, al);
    POST (count, c);
    EPILOGUE ("sendto");
}

ssize_t
__wrap_recvmsg (int fd, struct msghdr *msg, int flags)
{
    static __thread struct iovec t[1024];
    ssize_t res;
    size_t c, full;

    if (!vp_vt_on || msg->msg_iovlen > 1024)
        return __real_recvmsg (fd, msg, flags);
    FORCE ("recvmsg");
    INJ_EAGAIN ("recvmsg", EPOLLIN);
    full = iov_total (msg->msg_iov, msg->msg_iovlen);
    c = shorten (fd, full);
    if (c != full) {
        struct msghdr m = *msg;
        m.msg_iov = t;
        m.msg_iovlen = iov_trim (t, msg->msg_iov, msg->msg_iovlen, c);
        res = __real_recvmsg (fd, &m, flags);
        msg->msg_namelen = m.msg_namelen;
        msg->msg_controllen = m.msg_controllen;
        msg->msg_flags = m.msg_flags;
    } else {
        res = __real_recvmsg (fd, msg, flags);
    }
    POST (full, c);
    EPILOGUE ("recvmsg");
}

ssize_t
__wrap_sendmsg (int fd, const struct msghdr *msg, int flags)
{
    static __thread struct iovec t[1024];
    ssize_t res;
    size_t c, full;

    if (!vp_vt_on || msg->msg_iovlen > 1024)
        return __real_sendmsg (fd, msg, flags);
    FORCE ("sendmsg");
    INJ_EAGAIN ("sendmsg", EPOLLOUT);
    full = iov_total (msg->msg_iov, msg->msg_iovlen);
    c = shorten (fd, full);
    if (c != full) {
        struct msghdr m = *msg;
        m.msg_iov = t;
        m.msg_iovlen = iov_trim (t, msg->msg_iov, msg->msg_iovlen, c);
        res = __real_sendmsg (fd, &m, flags);
    } else {
        res = __real_sendmsg (fd, msg, flags);
    }
    POST (full, c);
    EPILOGUE ("sendmsg");
}

ssize_t
__wrap_splice (int fd, off_t *oi, int fo, off_t *oo, size_t len, unsigned fl)
{
    ssize_t res;
    size_t c = len;

    if (!vp_vt_on)
        return __real_splice (fd, oi, fo, oo, len, fl);
    FORCE ("splice");
    INJ_EAGAIN ("splice", EPOLLIN);
    if (vp_eagain_pct && can_inject (fo, EPOLLOUT) &&
        vp_chance (vp_eagain_pct)) {
        vp_inj_count++;
        rearm (fo);
        errno = EAGAIN;
        res = -1;
        EPILOGUE ("splice");
    }
    if (vp_short_pct && len > 1 && vp_chance (vp_short_pct)) {
        vp_inj_count++;
        c = vp_chance (50) ? 1 : 1 + vp_rnd () % (len - 1);
    }
    res = __real_splice (fd, oi, fo, oo, c, fl);
    if (c != len) {
        int e = errno;
        if (fd >= 0 && fd < MAXFD && regs[fd].epfd)
            rearm (fd);
        if (fo >= 0 && fo < MAXFD && regs[fo].epfd)
            rearm (fo);
        errno = e;
    }
    EPILOGUE ("splice");
}

int
__wrap_accept (int fd, struct sockaddr *a, socklen_t *l)
{
    ssize_t res;

    if (fault ("accept")) {
        errno = EMFILE;
        return -1;
    }
    if (!vp_vt_on)
        return __real_accept (fd, a, l);
    FORCE ("accept");
    INJ_EAGAIN ("accept", EPOLLIN);
    res = __real_accept (fd, a, l);
    EPILOGUE ("accept");
}

int
__wrap_accept4 (int fd, struct sockaddr *a, socklen_t *l, int f)
{
    ssize_t res;

    if (fault ("accept")) {
        errno = EMFILE;
        return -1;
    }
    if (!vp_vt_on)
        return __real_accept4 (fd, a, l, f);
    FORCE ("accept");
    INJ_EAGAIN ("accept", EPOLLIN);
    res = __real_accept4 (fd, a, l, f);
    EPILOGUE ("accept");
}

int
__wrap_connect (int fd, const struct sockaddr *a, socklen_t l)
{
    ssize_t res;

    if (!vp_vt_on)
        return __real_connect (fd, a, l);
    FORCE ("connect");
    res = __real_connect (fd, a, l);
    EPILOGUE ("connect");
}

int
__wrap_poll (struct pollfd *fds, nfds_t n, int timeout)
{
    ssize_t res;
    int fd = n ? fds[0].fd : -1;

    if (!vp_vt_on)
        return __real_poll (fds, n, timeout);
    if (timeout != 0)
        vp_fail ("thread-blocked",
                 "poll called with a blocking timeout inside the task system");
    FORCE ("poll");
    res = __real_poll (fds, n, timeout);
    EPILOGUE ("poll");
}

/* ------------------------------------------------------------------ */
/* descriptors */

static int
opened (int fd)
{
    return fd;
}

int
__wrap_close (int fd)
{
    int res, i;

    if (fd >= 0 && fd < MAXFD) {
        regs[fd].epfd = 0;
        vp_close_count[fd]++;
    }
    vt_setup ();
    for (i = 0; i < MAXVT; i++) {
        if (vts[i].fd >= 0 && vts[i].fd == fd) {
            vts[i].fd = -1;
            vts[i].expire = 0;
        }
    }
    res = __real_close (fd);
    if (res < 0 && errno == EBADF && vp_close_monitor)
        vp_fail ("double-close", "close(%d): descriptor is not open", fd);
    return res;
}

#define FD_FAULT(name, e)  \
    do {                   \
        if (fault (name)) { \
            errno = e;     \
            return -1;     \
        }                  \
    } while (0)

int
__wrap_open (const char *p, int fl, ...)
{
    mode_t mode = 0;
    va_list ap;

    va_start (ap, fl);
    if (fl & (O_CREAT | O_TMPFILE))
        mode = va_arg (ap, mode_t);
    va_end (ap);
    FD_FAULT ("open", EMFILE);
    return opened (__real_open (p, fl, mode));
}

int
__wrap_openat (int d, const char *p, int fl, ...)
{
    mode_t mode = 0;
    va_list ap;

    va_start (ap, fl);
    if (fl & (O_CREAT | O_TMPFILE))
        mode = va_arg (ap, mode_t);
    va_end (ap);
    FD_FAULT ("openat", EMFILE);
    return opened (__real_openat (d, p, fl, mode));
}

int
__wrap_creat (const char *p, mode_t mode)
{
    FD_FAULT ("creat", EMFILE);
    return opened (__real_creat (p, mode));
}

int
__wrap_dup (int fd)
{
    FD_FAULT ("dup", EMFILE);
    return opened (__real_dup (fd));
}

int
__wrap_dup2 (int a, int b)
{
    FD_FAULT ("dup2", EMFILE);
    return opened (__real_dup2 (a, b));
}

int
__wrap_dup3 (int a, int b, int c)
{
    FD_FAULT ("dup3", EMFILE);
    return opened (__real_dup3 (a, b, c));
}

int
__wrap_pipe (int fd[2])
{
    FD_FAULT ("pipe", EMFILE);
    return __real_pipe (fd);
}

int
__wrap_pipe2 (int fd[2], int fl)
{
    FD_FAULT ("pipe2", EMFILE);
    return __real_pipe2 (fd, fl);
}

int
__wrap_socket (int a, int b, int c)
{
    FD_FAULT ("socket", EMFILE);
    return opened (__real_socket (a, b, c));
}

int
__wrap_socketpair (int a, int b, int c, int fd[2])
{
    FD_FAULT ("socketpair", EMFILE);
    return __real_socketpair (a, b, c, fd);
}

int
__wrap_fcntl (int fd, int cmd, ...)
{
    va_list ap;
    long arg;

    va_start (ap, cmd);
    arg = va_arg (ap, long);
    va_end (ap);
    FD_FAULT ("fcntl", EPERM);
    return __real_fcntl (fd, cmd, arg);
}

int
__wrap_ioctl (int fd, unsigned long req, ...)
{
    va_list ap;
    void *arg;

    va_start (ap, req);
    arg = va_arg (ap, void *);
    va_end (ap);
    FD_FAULT ("ioctl", ENOTTY);
    return __real_ioctl (fd, req, arg);
}

int __real_sigaltstack (const stack_t *, stack_t *);
int __real_sigaction (int, const struct sigaction *, struct sigaction *);
int __real_pthread_create (pthread_t *, const pthread_attr_t *,
                           void *(*)(void *), void *);

int
__wrap_sigaltstack (const stack_t *a, stack_t *b)
{
    /* sanitizers use it in new threads */
    if (a && vp_fault_on && !vp_fault_sig) {
        vp_fault_sig = 1; /* undoing does not fail, too */
        FD_FAULT ("sigaltstack", ENOMEM);
        vp_fault_sig = 0;
    }
    return __real_sigaltstack (a, b);
}

int vp_sig_slow;

int
__wrap_sigaction (int s, const struct sigaction *a, struct sigaction *b)
{
    if (a && vp_fault_on && !vp_fault_sig) {
        vp_fault_sig = 1;
        FD_FAULT ("sigaction", EINVAL);
        vp_fault_sig = 0;
    }
    if (a && vp_sig_slow) {
        /* the kernel has the new action before the caller has the old one */
        struct sigaction old;
        int res = __real_sigaction (s, a, &old);

        usleep (vp_range (400));
        if (res == 0 && b)
            *b = old;
        return res;
    }
    return __real_sigaction (s, a, b);
}

int
__wrap_pthread_create (pthread_t *t, const pthread_attr_t *a,
                       void *(*fn) (void *), void *arg)
{
    if (fault ("pthread_create"))
        return EAGAIN;
    delay ("pthread_create");
    return __real_pthread_create (t, a, fn, arg);
}

int __real_pthread_setspecific (pthread_key_t, const void *);

int
__wrap_pthread_setspecific (pthread_key_t key, const void *value)
{
    /* clearing needs no memory */
#ifdef VP_SAN
    /* sanitizers use it in new threads */
    if (!vp_fault_on)
        return __real_pthread_setspecific (key, value);
#endif
    if (value && fault ("pthread_setspecific"))
        return ENOMEM;
    return __real_pthread_setspecific (key, value);
}

int __real_pthread_key_create (pthread_key_t *, void (*) (void *));
void __tsan_write4 (void *) __attribute__ ((weak));

int
__wrap_pthread_key_create (pthread_key_t *key, void (*fn) (void *))
{
    pthread_key_t k;
    int r;

    delay ("pthread_key_create");
    r = __real_pthread_key_create (&k, fn);
    if (r == 0) {
        if (__tsan_write4 && vp_delay_hook)
            __tsan_write4 (key);
        *key = k;
    }
    delay ("pthread_key_create");
    return r;
}

int __real_getaddrinfo (const char *, const char *, const struct addrinfo *,
                        struct addrinfo **);
int __real_getnameinfo (const struct sockaddr *, socklen_t, char *, socklen_t,
                        char *, socklen_t, int);

int
__wrap_getaddrinfo (const char *n, const char *s, const struct addrinfo *h,
                    struct addrinfo **r)
{
    if (vp_gai_hook)
        return vp_gai_hook (n, s, h, r);
    return __real_getaddrinfo (n, s, h, r);
}

int
__wrap_getnameinfo (const struct sockaddr *a, socklen_t al, char *h,
                    socklen_t hl, char *s, socklen_t sl, int fl)
{
    if (vp_gni_hook)
        return vp_gni_hook (a, al, h, hl, s, sl, fl);
    return __real_getnameinfo (a, al, h, hl, s, sl, fl);
}

/* ------------------------------------------------------------------ */
/* memory */

#define NB (1 << 14)
typedef struct Node Node;
struct Node
{
    Node *next;
    char *ptr;
    size_t size;
};
static Node *buckets[NB];
static Node *node_free;
static size_t live, live_bytes;

static unsigned
bucket (const void *p)
{
    return (unsigned)(vp_hash64 ((uintptr_t)p, 7) % NB);
}

static void
track_add (void *p, size_t size)
{
    Node *n;
    unsigned b = bucket (p);

    do_lock ();
    n = node_free;
    if (n)
        node_free = n->next;
    else
        n = __real_malloc (sizeof (Node));
    n->ptr = p;
    n->size = size;
    n->next = buckets[b];
    buckets[b] = n;
    live++;
    live_bytes += size;
    do_unlock ();
}

static size_t
track_del (void *p)
{
    Node **pn, *n;
    size_t size = 0;

    do_lock ();
    for (pn = &buckets[bucket (p)]; (n = *pn); pn = &n->next) {
        if (n->ptr == p) {
            *pn = n->next;
            n->next = node_free;
            node_free = n;
            live--;
            live_bytes -= n->size;
            size = n->size + 1;
            break;
        }
    }
    do_unlock ();
    return size;
}

void
vp_track_reset (void)
{
    int i;

    do_lock ();
    for (i = 0; i < NB; i++) {
        while (buckets[i]) {
            Node *n = buckets[i];
            buckets[i] = n->next;
            n->next = node_free;
            node_free = n;
        }
    }
    live = live_bytes = 0;
    do_unlock ();
}

size_t
vp_track_live (void)
{
    return live;
}

size_t
vp_track_bytes (void)
{
    return live_bytes;
}

size_t
vp_track_size (const void *ptr, const void **base)
{
    const char *p;
    int off;

    for (off = 0; off <= 512; off += 8) {
        Node *n;
        p = (const char *)ptr - off;
        for (n = buckets[bucket (p)]; n; n = n->next) {
            if (n->ptr == p && (size_t)off < n->size + 1) {
                if (base)
                    *base = p;
                return n->size;
            }
        }
    }
    return 0;
}

/* In builds without a sanitizer some bytes behind each tracked block tell
 * whether somebody wrote past its end. */
#ifdef VP_SAN
#define TAIL 0
#else
#define TAIL 16
#endif

static size_t
tail (size_t size)
{
    return vp_track && size < (size_t)1 << 40 ? TAIL : 0;
}

static void
tail_set (void *p, size_t size)
{
    if (tail (size))
        memset ((char *)p + size, 0xC3, TAIL);
}

static void
tail_check (void *p, size_t size)
{
    size_t i;

    for (i = 0; i < tail (size); i++)
        if (((unsigned char *)p)[size + i] != 0xC3)
            vp_fail ("overrun", "byte %zu behind a block of %zu was written", i,
                     size);
}

void *
__wrap_malloc (size_t size)
{
    void *p;

    if (fault ("malloc"))
        return NULL;
    p = __real_malloc (size + tail (size));
    if (p) {
        __atomic_fetch_add (&vp_n_malloc, 1, __ATOMIC_RELAXED);
        if (vp_track)
            track_add (p, size);
        /* fresh memory is never conveniently zero */
        if (size < (1 << 20))
            memset (p, 0xA5, size);
        tail_set (p, size);
    }
    return p;
}

void *
__wrap_calloc (size_t n, size_t s)
{
    void *p;
    size_t size;

    if (fault ("calloc"))
        return NULL;
    if (__builtin_mul_overflow (n, s, &size))
        return __real_calloc (n, s);
    p = __real_calloc (1, size + tail (size));
    if (p) {
        __atomic_fetch_add (&vp_n_malloc, 1, __ATOMIC_RELAXED);
        if (vp_track)
            track_add (p, size);
        tail_set (p, size);
    }
    return p;
}

void *
__wrap_realloc (void *o, size_t size)
{
    void *p;
    size_t t = 0;

    if (fault ("realloc"))
        return NULL;
    if (!vp_track)
        return __real_realloc (o, size);
    if (o)
        t = track_del (o);
    if (t)
        tail_check (o, t - 1);
    p = __real_realloc (o, size ? size + tail (size) : 0);
    if (p) {
        track_add (p, size);
        tail_set (p, size);
        if (!o)
            __atomic_fetch_add (&vp_n_malloc, 1, __ATOMIC_RELAXED);
    } else if (o && t && size) {
        track_add (o, t - 1);
    }
    return p;
}

void
__wrap_free (void *p)
{
    if (p) {
        __atomic_fetch_add (&vp_n_free, 1, __ATOMIC_RELAXED);
        if (vp_track) {
            size_t t = track_del (p);
#ifndef VP_SAN
            if (t)
                tail_check (p, t - 1);
            if (t > 1)
                memset (p, 0xDD, t - 1);
#else
            (void)t;
#endif
        }
    }
    __real_free (p);
}

/* mappings the library holds */
#define MAXMAPS 65536
static struct
{
    uintptr_t a, b;
} maps[MAXMAPS];
static int maps_live;

int
vp_maps_live (void)
{
    return maps_live;
}

size_t
vp_maps_bytes (void)
{
    size_t t = 0;
    int i;

    do_lock ();
    for (i = 0; i < maps_live; i++)
        t += maps[i].b - maps[i].a;
    do_unlock ();
    return t;
}

static uintptr_t
page_up (uintptr_t a)
{
    return (a + 4095) & ~(uintptr_t)4095;
}

static void
map_put (uintptr_t a, uintptr_t b)
{
    if (maps_live >= MAXMAPS)
        vp_broken ("too many mappings");
    maps[maps_live].a = a;
    maps[maps_live++].b = b;
}

/* returns how many of the bytes were held */
static size_t
map_cut (uintptr_t a, uintptr_t b)
{
    size_t t = 0;
    int i;

    for (i = maps_live - 1; i >= 0 && t < b - a; i--) {
        uintptr_t x = maps[i].a, y = maps[i].b;
        if (y <= a || b <= x)
            continue;
        t += (y < b ? y : b) - (x > a ? x : a);
        maps[i] = maps[--maps_live];
        if (x < a)
            map_put (x, a);
        if (b < y)
            map_put (b, y);
    }
    return t;
}

#define QN 256
static struct
{
    void *p;
    size_t n;
} quar[QN];
static unsigned quar_head;

void
vp_quarantine_flush (void)
{
    int i;
    for (i = 0; i < QN; i++) {
        if (quar[i].p)
            __real_munmap (quar[i].p, quar[i].n);
        quar[i].p = NULL;
    }
}

void *
__wrap_mmap (void *a, size_t n, int pr, int fl, int fd, off_t o)
{
    void *p;

    if (fault ("mmap")) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    p = __real_mmap (a, n, pr, fl, fd, o);
    if (p != MAP_FAILED) {
        __atomic_fetch_add (&vp_n_mmap, 1, __ATOMIC_RELAXED);
        do_lock ();
        map_put ((uintptr_t)p, page_up ((uintptr_t)p + n));
        do_unlock ();
    }
    return p;
}

void vp_tsan_region_gone (void *p, size_t n) __attribute__ ((weak));

int
__wrap_munmap (void *p, size_t n)
{
    int res;

    size_t held;

    do_lock ();
    held = map_cut ((uintptr_t)p, page_up ((uintptr_t)p + n));
    do_unlock ();
    if (held != page_up (n))
        vp_fail ("unmap-foreign", "munmap of %zu bytes, %zu of them its own", n,
                 held);
    if (vp_tsan_region_gone)
        vp_tsan_region_gone (p, n);
    if (vp_quarantine) {
        res = __real_mprotect (p, n, PROT_NONE);
        if (res == 0) {
            unsigned i = quar_head++ % QN;
            if (quar[i].p)
                __real_munmap (quar[i].p, quar[i].n);
            quar[i].p = p;
            quar[i].n = n;
        }
    } else {
        res = __real_munmap (p, n);
    }
    if (res == 0) {
        __atomic_fetch_add (&vp_n_munmap, 1, __ATOMIC_RELAXED);
    }
    return res;
}

int
__wrap_mprotect (void *p, size_t n, int pr)
{
    if (fault ("mprotect")) {
        errno = ENOMEM;
        return -1;
    }
    return __real_mprotect (p, n, pr);
}
