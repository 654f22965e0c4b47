/* Signals of the program, while tasks run. */
#include "vp.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define KINDS 3

int __real_sigaction (int, const struct sigaction *, struct sigaction *);
int __real_pthread_create (pthread_t *, const pthread_attr_t *,
                           void *(*) (void *), void *);

int vp_sig, vp_sig_alt, vp_sig_own;

static struct
{
    int sig, flags;
    struct sigaction got;
} kinds[KINDS];

static volatile long seen[KINDS], sent[KINDS], bad;
static long in_waits, at_calls, at_will;
static long last_waits, last_calls, last_will;
static sigset_t mask0;
static volatile int pelting, pelt_stop;
static pthread_t pelter;
static __thread uint64_t state;

static uint64_t
rnd (void)
{
    state ^= state << 13;
    state ^= state >> 7;
    state ^= state << 17;
    return state >> 8;
}

static void
note (int sig)
{
    int i;

    for (i = 0; i < KINDS && kinds[i].sig != sig; i++)
        ;
    if (i == KINDS)
        __atomic_fetch_add (&bad, 1, __ATOMIC_SEQ_CST);
    else
        __atomic_fetch_add (&seen[i], 1, __ATOMIC_SEQ_CST);
}

static void
plain (int sig)
{
    int e = errno;

    note (sig);
    errno = e ^ 0x55;
    errno = e;
}

static void
informed (int sig, siginfo_t *si, void *ctx)
{
    (void)ctx;
    if (!si || si->si_signo != sig)
        __atomic_fetch_add (&bad, 1, __ATOMIC_SEQ_CST);
    plain (sig);
}

static void
send_one (void)
{
    int i = rnd () % KINDS;

    __atomic_fetch_add (&sent[i], 1, __ATOMIC_SEQ_CST);
    VP_HARNESS (raise (kinds[i].sig) == 0);
}

/* a wait of the thread is interrupted: non-zero at will */
int
vp_sig_wait (void)
{
    int e = errno;

    if (!vp_sig || !state || rnd () % 100 >= (unsigned)vp_sig)
        return 0;
    send_one ();
    in_waits++;
    errno = e;
    return 1;
}

static int passes;

/* an interrupted wait is shown to the library, a bounded number of times */
int
vp_sig_pass (void)
{
    if (passes <= 0)
        return 0;
    passes--;
    in_waits++;
    return 1;
}

/* around the calls of the library */
void
vp_sig_point (void)
{
    int e = errno;

    if (!vp_sig || !state || rnd () % 400 >= (unsigned)vp_sig)
        return;
    send_one ();
    at_calls++;
    errno = e;
}

/* at any moment, to any thread; no descriptors come and go */
static int task_dir = -1;

static void
pelt (pid_t me)
{
    struct
    {
        uint64_t ino;
        int64_t off;
        unsigned short len;
        unsigned char type;
        char name[];
    } *d;
    char buf[4096];
    long n, at;
    int k = 0, pick = 0;

    if (lseek (task_dir, 0, SEEK_SET) < 0)
        return;
    n = syscall (SYS_getdents64, task_dir, buf, sizeof (buf));
    for (at = 0; at < n; at += d->len) {
        int t;

        d = (void *)(buf + at);
        t = atoi (d->name);
        if (t > 0 && t != me && rnd () % (unsigned)++k == 0)
            pick = t;
    }
    /* it may be gone by now, and what it was sent with it: not counted */
    if (pick)
        syscall (SYS_tgkill, getpid (), pick, SIGUSR1);
}

static void *
pelter_main (void *data)
{
    pid_t me = (pid_t)syscall (SYS_gettid);

    state = (uintptr_t)data | 1;
    while (!__atomic_load_n (&pelt_stop, __ATOMIC_SEQ_CST)) {
        struct timespec ts = { 0, 20000 + rnd () % 400000 };

        nanosleep (&ts, NULL);
        if (!__atomic_load_n (&pelting, __ATOMIC_SEQ_CST))
            continue;
        if (rnd () % 2) {
            pelt (me);
        } else {
            int i = KINDS - 1;
            union sigval v = { 0 };
            __atomic_fetch_add (&sent[i], 1, __ATOMIC_SEQ_CST);
            if (sigqueue (getpid (), kinds[i].sig, v) < 0)
                __atomic_fetch_sub (&sent[i], 1, __ATOMIC_SEQ_CST);
        }
        __atomic_fetch_add (&at_will, 1, __ATOMIC_RELAXED);
    }
    return NULL;
}

void
vp_sig_start (void)
{
    sigset_t all, old;
    int i;

    if (!vp_sig)
        return;
    kinds[0].sig = SIGUSR1;
    kinds[0].flags = SA_RESTART;
    kinds[1].sig = SIGUSR2;
    kinds[1].flags = SA_RESTART | SA_SIGINFO;
    kinds[2].sig = SIGRTMIN + 3;
    kinds[2].flags = SA_RESTART | SA_SIGINFO | SA_ONSTACK;
    for (i = 0; i < KINDS; i++) {
        struct sigaction sa;
        int j;

        memset (&sa, 0, sizeof (sa));
        sa.sa_flags = kinds[i].flags | (vp_sig_alt ? SA_ONSTACK : 0);
        if (sa.sa_flags & SA_SIGINFO)
            sa.sa_sigaction = informed;
        else
            sa.sa_handler = plain;
        for (j = 0; j < KINDS; j++)
            sigaddset (&sa.sa_mask, j == 0 ? SIGUSR1 :
                                    j == 1 ? SIGUSR2 : SIGRTMIN + 3);
        VP_HARNESS (__real_sigaction (kinds[i].sig, &sa, NULL) == 0);
        VP_HARNESS (__real_sigaction (kinds[i].sig, NULL, &kinds[i].got) == 0);
    }
    i = __real_open ("/proc/self/task", O_RDONLY | O_DIRECTORY);
    VP_HARNESS (i >= 0);
    task_dir = __real_fcntl (i, F_DUPFD_CLOEXEC, 700);
    VP_HARNESS (task_dir >= 0);
    __real_close (i);
    pthread_sigmask (SIG_SETMASK, NULL, &mask0);
    sigfillset (&all);
    pthread_sigmask (SIG_SETMASK, &all, &old);
    VP_HARNESS (__real_pthread_create (&pelter, NULL, pelter_main,
                                       (void *)(uintptr_t)getpid ()) == 0);
    pthread_sigmask (SIG_SETMASK, &old, NULL);
}

void
vp_sig_case (uint64_t x)
{
    if (!vp_sig)
        return;
    state = x | 1;
    passes = 20;
    /* some cases with the signals of the thread itself only */
    __atomic_store_n (&pelting, !vp_sig_own && rnd () % 2, __ATOMIC_SEQ_CST);
}

void
vp_sig_case_end (void)
{
    sigset_t cur;
    int i, tries;

    if (!vp_sig)
        return;
    __atomic_store_n (&pelting, 0, __ATOMIC_SEQ_CST);
    state = 0;
    pthread_sigmask (SIG_SETMASK, NULL, &cur);
    VP_CHECK (!memcmp (&cur, &mask0, 8), "signal-mask",
              "the thread's signal mask has changed");
    for (i = 0; i < KINDS; i++) {
        struct sigaction sa;

        VP_HARNESS (__real_sigaction (kinds[i].sig, NULL, &sa) == 0);
        VP_CHECK (sa.sa_flags == kinds[i].got.sa_flags &&
                      sa.sa_sigaction == kinds[i].got.sa_sigaction,
                  "signal-handler", "the handler of signal %d has changed",
                  kinds[i].sig);
        /* only the last kind is queued, the others may merge; the pelter may
         * be in between */
        if (i < KINDS - 1)
            continue;
        for (tries = 0; seen[i] != sent[i] && tries < 10000; tries++) {
            struct timespec ts = { 0, 1000000 };
            nanosleep (&ts, NULL);
        }
        VP_CHECK (seen[i] == sent[i], "signal-lost",
                  "%ld of %ld signals %d were handled", seen[i], sent[i],
                  kinds[i].sig);
    }
    VP_CHECK (!bad, "signal-args", "a handler got wrong arguments");
    vp_evn ("waits interrupted", in_waits - last_waits);
    vp_evn ("signals handled around calls", at_calls - last_calls);
    vp_evn ("signals at any moment", at_will - last_will);
    vp_mix (in_waits - last_waits);
    vp_mix (at_calls - last_calls);
    if (in_waits + at_calls + at_will > last_waits + last_calls + last_will)
        vp_nontrivial ();
    last_waits = in_waits;
    last_calls = at_calls;
    last_will = at_will;
}

void
vp_sig_stop (void)
{
    if (!vp_sig)
        return;
    pelt_stop = 1;
    pthread_join (pelter, NULL);
}
