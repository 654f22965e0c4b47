/* Runtime support shared by all drivers: seeded choices, verdicts, evidence
 * counters, and the monitors at the libc boundary (vpw.c). */
#ifndef VP_H
#define VP_H

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <netdb.h>
#include <time.h>

#define ARRAY_LEN(a) (sizeof (a) / sizeof ((a)[0]))

typedef struct
{
    const char *name;
    void (*run) (uint64_t case_no);
} VpWork;

int vp_main (int argc, char **argv, const VpWork *works);

/* choices */
uint64_t vp_rnd (void);
unsigned vp_range (unsigned n);            /* 0 .. n-1 */
int vp_between (int lo, int hi);           /* lo .. hi */
int vp_chance (unsigned percent);
void vp_rnd_seed (uint64_t x);          /* of the calling thread */
uint64_t vp_hash64 (uint64_t a, uint64_t b);
extern int vp_thorough;
extern int vp_level; /* size knob passed by the runner */
extern uint64_t vp_case;
extern uint64_t vp_param;
extern int vp_zero; /* what of the library may be descriptor 0 */
extern int vp_keep_stdin; /* descriptor 0 is never free */

/* calls with a yielder: the calling task is suspended in the yielder only
 * (one thread). VP_YIELDER defines F from F_body, VP_YCALL wraps the call. */
void vp_y (void *task, int state);
void vp_y_check (void);
void vp_y_reset (void);
#define VP_YIELDER(f)                         \
    static int                                \
    f (HevTaskYieldType type, void *data)     \
    {                                         \
        int r_;                               \
        vp_y (hev_task_self (), 2);           \
        r_ = f##_body (type, data);           \
        vp_y (hev_task_self (), 3);           \
        return r_;                            \
    }
#define VP_YCALL(y, call)                     \
    ({                                        \
        if (y)                                \
            vp_y (hev_task_self (), 1);       \
        __typeof__ (call) r_ = (call);        \
        if (y)                                \
            vp_y (hev_task_self (), 0);       \
        r_;                                   \
    })

/* signals of the program (vpsig.c): percent of the waits interrupted */
extern int vp_sig;
extern int vp_sig_slow; /* other threads run inside a change of handlers */
extern int vp_sig_alt; /* handlers on the alternate stack only */
extern int vp_sig_own; /* only those the thread sends itself */
int vp_sig_wait (void);
int vp_sig_pass (void);
void vp_sig_point (void);
void vp_sig_start (void);
void vp_sig_case (uint64_t x);
void vp_sig_case_end (void);
void vp_sig_stop (void);

/* verdicts */
void vp_fail (const char *key, const char *fmt, ...)
    __attribute__ ((noreturn, format (printf, 2, 3)));
void vp_broken (const char *fmt, ...)
    __attribute__ ((noreturn, format (printf, 1, 2)));
#define VP_CHECK(c, key, ...)           \
    do {                                \
        if (!(c))                       \
            vp_fail (key, __VA_ARGS__); \
    } while (0)
#define VP_HARNESS(c)                                               \
    do {                                                            \
        if (!(c))                                                   \
            vp_broken ("%s:%d: %s", __FILE__, __LINE__, #c);        \
    } while (0)

/* evidence */
void vp_ev (const char *name);          /* counts an observed event */
void vp_evn (const char *name, uint64_t n);
void vp_mix (uint64_t v);               /* adds to the trace hash of the case */
void vp_nontrivial (void);
void vp_sample (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));

/* scribbles over the free part of the stack below the caller */
void vp_scribble (void);

/* ---- monitors at the libc boundary ---- */

/* virtual time */
extern __thread int vp_vt_on;
extern uint64_t vp_now;        /* ns, CLOCK_MONOTONIC */
extern uint64_t vp_tick_ns;    /* max random advance per clock read */
extern unsigned vp_real_idle_ms; /* real wait before an idle decision */
void vp_vt_start (uint64_t start_ns);
void vp_vt_stop (void);
int vp_vt_armed (void);        /* a timer will fire in the future */
extern void (*vp_jump_hook) (uint64_t from, uint64_t to);
extern int (*vp_idle_hook) (void);   /* all tasks wait: return 1 if it acted */
extern void (*vp_poll_hook) (int timeout); /* before every epoll_wait */
extern void (*vp_dead_hook) (void);  /* before a deadlock verdict */
extern const char *vp_dead_key;
extern int vp_dead_return;  /* deadlock: longjmp-free escape, see vpw.c */
extern uint64_t vp_n_waits;    /* kernel waits in real time */
extern uint64_t vp_steps, vp_step_limit;
extern int vp_shuffle;         /* shuffle events, random batch size */
extern uint64_t vp_advances;   /* number of virtual clock jumps */

/* injection of would-block, short transfers */
extern unsigned vp_eagain_pct, vp_short_pct;
extern uint64_t vp_inj_count;
void vp_rearm (int fd);        /* reports a registered descriptor's state anew */
/* observation of library system calls: op is "read", "write", ... */
extern void (*vp_sys_hook) (const char *op, int fd, ssize_t ret, int err);
/* overriding: return 1 to force *ret / *err */
extern int (*vp_sys_force) (const char *op, int fd, ssize_t *ret, int *err);
extern void (*vp_settime_hook) (int fd, const struct itimerspec *v);
extern int vp_close_monitor;   /* closing a closed descriptor is a violation */
extern uint64_t vp_close_count[4096];

/* failure enumeration: the vp_fault_at-th fallible call fails */
extern uint64_t vp_fault_at, vp_fault_seen;
extern unsigned vp_fault_pct;
extern __thread int vp_fault_on;
extern int vp_fault_any; /* in every thread */
extern int vp_fault_sig; /* a signal call failed */
extern const char *vp_fault_last;
extern uint64_t vp_fault_hits;

/* called around system calls that hand over between threads */
extern void (*vp_delay_hook) (const char *op);
extern int vp_jitter; /* delay atomic accesses at random (race detector builds) */
/* stand-ins for the resolver */
extern int (*vp_gai_hook) (const char *, const char *, const struct addrinfo *,
                           struct addrinfo **);
extern int (*vp_gni_hook) (const struct sockaddr *, socklen_t, char *,
                           socklen_t, char *, socklen_t, int);

/* accounting */
extern int vp_track;
void vp_track_reset (void);
size_t vp_track_live (void);           /* blocks allocated, not freed */
size_t vp_track_bytes (void);
size_t vp_track_size (const void *ptr, const void **base); /* enclosing block */
extern uint64_t vp_n_malloc, vp_n_free, vp_n_mmap, vp_n_munmap;
int vp_maps_live (void);
size_t vp_maps_bytes (void);
extern int vp_quarantine;
void vp_quarantine_flush (void);
void vp_fd_snapshot (uint64_t set[16]); /* descriptors 0..1023 */
int vp_fd_diff (const uint64_t a[16], const uint64_t b[16], char *buf,
                size_t len);
const char *vp_fd_diff_str (const uint64_t a[16], const uint64_t b[16]);

void *__real_malloc (size_t);
void *__real_calloc (size_t, size_t);
void *__real_realloc (void *, size_t);
void __real_free (void *);
int __real_close (int);
ssize_t __real_read (int, void *, size_t);
ssize_t __real_write (int, const void *, size_t);
ssize_t __real_readv (int, const struct iovec *, int);
ssize_t __real_writev (int, const struct iovec *, int);
ssize_t __real_recv (int, void *, size_t, int);
ssize_t __real_send (int, const void *, size_t, int);
ssize_t __real_recvfrom (int, void *, size_t, int, struct sockaddr *,
                         socklen_t *);
ssize_t __real_sendto (int, const void *, size_t, int, const struct sockaddr *,
                       socklen_t);
ssize_t __real_recvmsg (int, struct msghdr *, int);
ssize_t __real_sendmsg (int, const struct msghdr *, int);
int __real_poll (struct pollfd *, nfds_t, int);
int vp_poll (struct pollfd *, nfds_t, int);
int __real_accept (int, struct sockaddr *, socklen_t *);
int __real_accept4 (int, struct sockaddr *, socklen_t *, int);
int __real_connect (int, const struct sockaddr *, socklen_t);
int __real_socket (int, int, int);
int __real_socketpair (int, int, int, int[2]);
int __real_pipe (int[2]);
int __real_pipe2 (int[2], int);
int __real_open (const char *, int, ...);
int __real_openat (int, const char *, int, ...);
int __real_creat (const char *, mode_t);
int __real_dup (int);
int __real_dup2 (int, int);
int __real_dup3 (int, int, int);
int __real_fcntl (int, int, ...);
int __real_ioctl (int, unsigned long, ...);
void *__real_mmap (void *, size_t, int, int, int, off_t);
int __real_munmap (void *, size_t);
int __real_mprotect (void *, size_t, int);
int __real_epoll_create (int);
int __real_epoll_create1 (int);
int __real_epoll_ctl (int, int, int, struct epoll_event *);
int __real_epoll_wait (int, struct epoll_event *, int, int);
int __real_clock_gettime (clockid_t, struct timespec *);
int __real_timerfd_create (int, int);
int __real_timerfd_settime (int, int, const struct itimerspec *,
                            struct itimerspec *);
ssize_t __real_splice (int, off_t *, int, off_t *, size_t, unsigned);

void vp_nonblock (int fd);
int vp_writable (int fd);
void vp_pair (int fd[2]);       /* non-blocking AF_UNIX stream pair */
void vp_pipe (int fd[2]);       /* non-blocking pipe */

#endif
