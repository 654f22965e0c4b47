/* Failing allocations and system calls while something is set up (C27). */
#define _GNU_SOURCE
#include "mods.h"
#include <signal.h>
#include <sys/wait.h>

typedef struct
{
    const char *name;
    /* 0: reported failure, 1: was set up, worked and is gone again */
    int (*run) (void);
    int outside; /* of a task system */
} Op;

/* parameters, the same for all runs of a case */
static uint64_t seed;
static const char *what;
static int company; /* other programs run, too */

/* what the operation was like when nothing failed */
static int first, plain;

static void
same_as_plain (int v, const char *thing)
{
    if (first)
        plain = v;
    VP_CHECK (v == plain, "broken", "%s: %s", thing,
              v ? "only after a failure" : "not after a failure");
}

#define ON vp_fault_on = 1
#define OFF vp_fault_on = 0

/* ---- set-up operations ---- */

static void
done_entry (void *data)
{
    *(int *)data = 1;
}

/* whether what is below the stack of the calling task can be accessed */
static void
guard_entry (void *data)
{
    uintptr_t sp = (uintptr_t)&data, lo, hi, end = 0;
    char line[512], prot[8];
    int none = 0;
    FILE *f = fopen ("/proc/self/maps", "r");

    VP_HARNESS (f);
    *(int *)data = 1;
    while (fgets (line, sizeof (line), f)) {
        if (sscanf (line, "%lx-%lx %7s", &lo, &hi, prot) != 3)
            continue;
        if (lo <= sp && sp < hi) {
            *(int *)data = 1 + (end == lo && none);
            break;
        }
        end = hi;
        none = prot[0] == '-' && prot[1] == '-';
    }
    fclose (f);
}

static int
op_init (void)
{
    int r, done = 0;
    HevTask *t;
    struct sigaction a, b;

    sigaction (SIGSEGV, NULL, &a);
    ON;
    r = hev_task_system_init ();
    OFF;
    VP_CHECK (r == 0 || r < 0, "value", "init returned %d", r);
    if (r < 0)
        return 0;
    sigaction (SIGSEGV, NULL, &b);
    same_as_plain (a.sa_sigaction != b.sa_sigaction, "a handler of overflows");
    t = hev_task_new (-1);
    VP_CHECK (t, "broken", "no task after init");
    hev_task_run (t, done_entry, &done);
    mods[vp_range (NMODS)]();
    hev_task_system_run ();
    VP_CHECK (done && !mods_live, "broken", "the task did not run");
    hev_task_system_fini ();
    return 1;
}

/* one system in a thread: another is refused, and the one there is stays */
static int
op_again (void)
{
    unsigned char *m = hev_malloc (200), *l;
    HevTask *t;
    int r, done = 0;

    VP_CHECK (m, "existing", "no memory");
    memset (m, 0x5a, 200);
    t = hev_task_new (-1);
    VP_CHECK (t, "existing", "no task");
    ON;
    r = hev_task_system_init ();
    OFF;
    VP_CHECK (r < 0, "again", "another init in the thread returned %d", r);
    hev_task_run (t, done_entry, &done);
    l = hev_malloc (200);
    VP_CHECK (l && l != m, "existing", "no memory after another init");
    memset (l, 0xa5, 200);
    while (!done)
        hev_task_sleep (1);
    for (r = 0; r < 200; r++)
        VP_CHECK (m[r] == 0x5a && l[r] == 0xa5, "existing",
                  "memory changed after another init");
    hev_free (m);
    hev_free (l);
    vp_ev ("another init refused");
    return 1;
}

static int
op_task (void)
{
    int size = vp_chance (30) ? -1 : 32768 + (int)vp_range (100000), done = 0;
    int guard = vp_chance (20);
    HevTask *t;

    ON;
    t = hev_task_new (size);
    OFF;
    if (!t)
        return 0;
    VP_CHECK (hev_task_get_state (t) == HEV_TASK_STOPPED, "broken", "state %d",
              hev_task_get_state (t));
    if (vp_chance (20)) {
        hev_task_unref (t);
        return 1;
    }
    hev_task_ref (t);
    if (guard && (first || vp_fault_at)) {
        hev_task_run (t, guard_entry, &done);
        hev_task_join (t);
        same_as_plain (done == 2, "a guard below the stack");
    } else {
        hev_task_run (t, done_entry, &done);
        hev_task_join (t);
    }
    VP_CHECK (done, "broken", "the task did not run");
    hev_task_unref (t);
    return 1;
}

typedef struct
{
    HevTaskChannel *c;
    unsigned char *buf;
    int size, r;
} ChanArg;

static void
one_reader (void *data)
{
    ChanArg *a = data;
    a->r = hev_task_channel_read (a->c, a->buf, a->size);
}

static int
op_chan (void)
{
    unsigned n = vp_chance (40) ? 0 : 1 + vp_range (8);
    unsigned size = 1 + vp_range (vp_chance (80) ? 200 : 20000), i;
    HevTaskChannel *c[2] = { NULL, NULL };
    unsigned char *out, *in;
    ChanArg a;
    HevTask *t;
    int r;

    ON;
    if (n)
        r = hev_task_channel_new_with_buffers (&c[0], &c[1], size, n);
    else
        r = hev_task_channel_new (&c[0], &c[1]);
    OFF;
    VP_CHECK (r == 0 || r < 0, "value", "channel_new returned %d", r);
    if (r < 0)
        return 0;
    VP_CHECK (c[0] && c[1], "value", "no channels");
    out = __real_malloc (size);
    in = __real_calloc (1, size);
    for (i = 0; i < size; i++)
        out[i] = vp_rnd ();
    a.c = c[1];
    a.buf = in;
    a.size = size;
    t = hev_task_new (-1);
    VP_CHECK (t, "retry", "no task");
    hev_task_ref (t);
    hev_task_run (t, one_reader, &a);
    r = hev_task_channel_write (c[0], out, size);
    VP_CHECK (r == (int)size, "broken", "write returned %d of %u", r, size);
    hev_task_join (t);
    hev_task_unref (t);
    VP_CHECK (a.r == (int)size && !memcmp (in, out, size), "broken",
              "read returned %d of %u", a.r, size);
    hev_task_channel_destroy (c[0]);
    hev_task_channel_destroy (c[1]);
    __real_free (in);
    __real_free (out);
    return 1;
}

static int
op_select (void)
{
    HevTaskChannel *c[2], *s;
    HevTaskChannelSelect *self;
    int v = 7;

    ON;
    self = hev_task_channel_select_new ();
    OFF;
    if (!self)
        return 0;
    VP_CHECK (hev_task_channel_new_with_buffers (&c[0], &c[1], 4, 2) == 0,
              "retry", "no channel");
    VP_CHECK (hev_task_channel_select_read (self, 0) == NULL, "broken",
              "an empty selector had something");
    hev_task_channel_select_add (self, c[0]);
    VP_CHECK (hev_task_channel_select_read (self, 0) == NULL, "broken",
              "an empty channel was readable");
    hev_task_channel_write (c[1], &v, 4);
    s = hev_task_channel_select_read (self, 1000);
    VP_CHECK (s == c[0], "broken", "selected another one");
    hev_task_channel_select_del (self, c[0]);
    hev_task_channel_destroy (c[0]);
    hev_task_channel_destroy (c[1]);
    hev_task_channel_select_destroy (self);
    return 1;
}

static void
cbuf_use (HevCircularBuffer *b, size_t size)
{
    struct iovec iov[2];
    size_t i;

    VP_CHECK (hev_circular_buffer_get_max_size (b) == size &&
                  hev_circular_buffer_get_use_size (b) == 0,
              "broken", "another size");
    VP_CHECK (hev_circular_buffer_writing (b, iov) == 1 && iov[0].iov_len == size,
              "broken", "no room");
    for (i = 0; i < size; i++)
        ((unsigned char *)iov[0].iov_base)[i] = i;
    hev_circular_buffer_write_finish (b, size);
    VP_CHECK (hev_circular_buffer_reading (b, iov) == 1 && iov[0].iov_len == size,
              "broken", "no data");
    for (i = 0; i < size; i++)
        VP_CHECK (((unsigned char *)iov[0].iov_base)[i] == (unsigned char)i,
                  "broken", "another byte");
    hev_circular_buffer_read_finish (b, size);
}

static int
op_cbuf (void)
{
    size_t size = 1 + vp_range (vp_chance (70) ? 300 : 30000);
    HevCircularBuffer *b;

    ON;
    b = hev_circular_buffer_new (size);
    OFF;
    if (!b)
        return 0;
    cbuf_use (b, size);
    hev_circular_buffer_unref (b);
    return 1;
}

/* a layer over a socket pair, or on top of another layer */
static int
op_cio (void)
{
    int kind = vp_range (4), fd[2] = { -1, -1 }, n = 1 + vp_range (300), i, r;
    int rs = vp_chance (75) ? 1 + (int)vp_range (500) : 0;
    int ws = vp_chance (75) ? 1 + (int)vp_range (500) : 0;
    unsigned char out[300], in[300];
    HevTaskCIO *io = NULL;

    vp_pair (fd);
    ON;
    switch (kind) {
    case 0:
        io = HEV_TASK_CIO (hev_task_cio_fd_new (fd[0], fd[0]));
        break;
    case 1:
        io = HEV_TASK_CIO (hev_task_cio_socket_new (AF_UNIX, fd[0]));
        break;
    case 2:
        io = HEV_TASK_CIO (hev_task_cio_null_new ());
        break;
    case 3:
        io = HEV_TASK_CIO (hev_task_cio_buffer_new (rs, ws));
        break;
    }
    OFF;
    if (!io) {
        __real_close (fd[0]);
        __real_close (fd[1]);
        return 0;
    }
    if (kind == 2) {
        __real_close (fd[0]);
        __real_close (fd[1]);
        r = hev_task_cio_write (io, "x", 1, NULL, NULL);
        VP_CHECK (r == 1, "broken", "write returned %d", r);
        hev_object_unref (HEV_OBJECT (io));
        return 1;
    }
    if (kind == 3) {
        HevTaskCIOFd *f = hev_task_cio_fd_new (fd[0], fd[0]);
        VP_CHECK (f, "retry", "no layer");
        io = hev_task_cio_push (io, HEV_TASK_CIO (f));
    }
    for (i = 0; i < n; i++)
        out[i] = vp_rnd ();
    VP_HARNESS (__real_write (fd[1], out, n) == n);
    if (kind == 3 && rs) {
        r = hev_task_cio_buffer_peek (HEV_TASK_CIO_BUFFER (io), in, 1);
        VP_CHECK (r == 1 && in[0] == out[0], "broken", "peek returned %d", r);
    }
    r = 0;
    while (r < n) {
        int k = hev_task_cio_read (io, in + r, n - r, NULL, NULL);
        VP_CHECK (k > 0, "broken", "read returned %d", k);
        r += k;
    }
    VP_CHECK (!memcmp (in, out, n), "broken", "read other bytes");
    for (r = 0; r < n;) {
        int k = hev_task_cio_write (io, out + r, n - r, NULL, NULL);
        VP_CHECK (k > 0, "broken", "write returned %d", k);
        r += k;
    }
    VP_HARNESS (__real_ioctl (fd[1], FIONREAD, &r) == 0);
    same_as_plain (r == n, "written at once");
    r = hev_task_cio_flush (io, NULL, NULL);
    VP_CHECK (r >= 0, "broken", "flush returned %d", r);
    VP_CHECK (__real_read (fd[1], in, n) == n && !memcmp (in, out, n), "broken",
              "wrote other bytes");
    hev_object_unref (HEV_OBJECT (io));
    __real_close (fd[1]);
    return 1;
}

static int
op_call (void)
{
    int base = sizeof (MCall) + vp_range (200);
    MCall *c;

    ON;
    c = (MCall *)hev_task_call_new (base, 16384 + vp_range (20000));
    OFF;
    if (!c)
        return 0;
    c->x = vp_range (1000);
    VP_CHECK (hev_task_call_jump (&c->base, call_entry) ==
                  (void *)(intptr_t)(c->x * 3),
              "broken", "another result");
    hev_task_call_destroy (&c->base);
    return 1;
}

/* set-up is over when the splice yields for the first time */
static int
splice_yielder (HevTaskYieldType type, void *data)
{
    OFF;
    hev_task_yield (type);
    return 0;
}

static int
op_splice (void)
{
    int a[2], b[2], n = 1 + vp_range (2000), i, r, cio = vp_chance (40);
    int size = 1 + vp_range (5000), m = 1 + vp_range (2000), back;
    static unsigned char out[2000], ret[2000], in[2001];
    HevTaskCIO *x = NULL, *y = NULL;
    HevTask *self = hev_task_self ();

    if (size < n)
        size = n;
    if (size < m)
        size = m;
    vp_pair (a);
    vp_pair (b);
    for (i = 0; i < n; i++)
        out[i] = vp_rnd ();
    for (i = 0; i < m; i++)
        ret[i] = vp_rnd ();
    VP_HARNESS (__real_write (a[0], out, n) == n);
    VP_HARNESS (__real_write (b[0], ret, m) == m);
    shutdown (a[0], SHUT_WR);
    shutdown (b[0], SHUT_WR);
    if (cio) {
        x = HEV_TASK_CIO (hev_task_cio_socket_new (AF_UNIX, a[1]));
        y = HEV_TASK_CIO (hev_task_cio_socket_new (AF_UNIX, b[1]));
        VP_CHECK (x && y, "retry", "no layer");
        if (vp_chance (60)) {
            HevTaskCIO *u = HEV_TASK_CIO (hev_task_cio_buffer_new (4096, 4096));
            VP_CHECK (u, "retry", "no layer");
            x = hev_task_cio_push (u, x);
        }
    } else {
        VP_CHECK (hev_task_add_fd (self, a[1], POLLIN | POLLOUT) == 0 &&
                      hev_task_add_fd (self, b[1], POLLIN | POLLOUT) == 0,
                  "retry", "no registration");
    }
    ON;
    if (cio)
        hev_task_cio_splice (x, y, size, splice_yielder, NULL);
    else
        hev_task_io_splice (a[1], a[1], b[1], b[1], size, splice_yielder, NULL);
    OFF;
    if (cio)
        hev_task_cio_flush (x, NULL, NULL);
    r = __real_read (b[0], in, n + 1);
    if (r > 0) {
        /* it started: then it has to have done its work */
        VP_CHECK (r == n && !memcmp (in, out, n), "broken",
                  "spliced %d bytes of %d", r, n);
        back = __real_read (a[0], in, m + 1);
        VP_CHECK (back == m && !memcmp (in, ret, m), "broken",
                  "spliced %d bytes of %d back", back, m);
        r = 1;
    } else {
        VP_CHECK (r < 0 && errno == EAGAIN, "value", "the other end was shut");
        r = __real_read (a[0], in, 1);
        VP_CHECK (r < 0 && errno == EAGAIN, "value", "spliced one way only");
        r = __real_read (a[1], in, n + 1);
        VP_CHECK (r == n && !memcmp (in, out, n), "value",
                  "%d bytes of %d are left after a failure", r, n);
        r = __real_read (b[1], in, m + 1);
        VP_CHECK (r == m && !memcmp (in, ret, m), "value",
                  "%d bytes of %d are left after a failure", r, m);
        r = 0;
    }
    if (cio) {
        hev_object_unref (HEV_OBJECT (x));
        hev_object_unref (HEV_OBJECT (y));
    } else {
        hev_task_del_fd (self, a[1]);
        hev_task_del_fd (self, b[1]);
        __real_close (a[1]);
        __real_close (b[1]);
    }
    __real_close (a[0]);
    __real_close (b[0]);
    return r;
}

static int
op_reg (void)
{
    HevTask *self = hev_task_self ();
    int fd[2], r, m;
    char c;

    vp_pair (fd);
    ON;
    r = hev_task_add_fd (self, fd[0], POLLIN);
    m = r == 0 ? hev_task_mod_fd (self, fd[0], POLLIN | POLLOUT) : 0;
    OFF;
    VP_CHECK (r == 0 || r < 0, "value", "add returned %d", r);
    if (r == 0) {
        VP_HARNESS (__real_write (fd[1], "x", 1) == 1);
        r = hev_task_io_read (fd[0], &c, 1, NULL, NULL);
        VP_CHECK (r == 1, "broken", "read returned %d", r);
        VP_CHECK (hev_task_del_fd (self, fd[0]) == 0, "broken", "del failed");
        r = m == 0;
    } else {
        r = 0;
    }
    __real_close (fd[0]);
    __real_close (fd[1]);
    return r;
}

static int
op_fd (void)
{
    int fd[2] = { -1, -1 }, r = -1, n = 1, kind = vp_range (6), s[2];
    int fl;

    vp_pair (s);
    ON;
    switch (kind) {
    case 0:
        r = fd[0] = hev_task_io_open ("/dev/null", O_RDWR);
        break;
    case 1:
        r = fd[0] = hev_task_io_dup (s[0]);
        break;
    case 2:
        r = fd[0] = hev_task_io_socket_socket (AF_UNIX, SOCK_STREAM, 0);
        break;
    case 3:
        r = hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, fd);
        n = 2;
        break;
    case 4:
        r = hev_task_io_pipe_pipe (fd);
        n = 2;
        break;
    case 5:
        r = fd[0] = hev_task_io_openat (AT_FDCWD, "/dev/null", O_WRONLY);
        break;
    }
    OFF;
    __real_close (s[0]);
    __real_close (s[1]);
    if (r < 0)
        return 0;
    while (n--) {
        fl = __real_fcntl (fd[n], F_GETFL);
        VP_CHECK (fl >= 0 && (fl & O_NONBLOCK), "broken", "descriptor %d",
                  fd[n]);
        __real_close (fd[n]);
    }
    return 1;
}

static int
op_mem (void)
{
    size_t a = 1 + vp_range (6000), b = 1 + vp_range (6000), i, n;
    unsigned char *p, *q, *z;
    int r = 1;

    p = hev_malloc (a);
    VP_CHECK (p, "retry", "no memory");
    for (i = 0; i < a; i++)
        p[i] = i * 7;
    ON;
    z = vp_chance (50) ? hev_malloc0 (b) : hev_calloc (b, 1);
    q = hev_realloc (p, b);
    OFF;
    if (z) {
        for (i = 0; i < b; i++)
            VP_CHECK (!z[i], "broken", "a byte is not zero");
        memset (z, 0xEE, b);
        hev_free (z);
    } else {
        r = 0;
    }
    n = a;
    if (q) {
        p = q;
        n = a < b ? a : b;
    } else {
        r = 0;
    }
    for (i = 0; i < n; i++)
        VP_CHECK (p[i] == (unsigned char)(i * 7), "broken", "a byte changed");
    hev_free (p);
    return r;
}

static const Op ops[] = {
    { "init", op_init, 1 },
    { "task", op_task },
    { "channel", op_chan },
    { "selector", op_select },
    { "buffer", op_cbuf },
    { "layer", op_cio },
    { "call stack", op_call },
    { "splice", op_splice },
    { "registration", op_reg },
    { "descriptor", op_fd },
    { "memory", op_mem },
    { "another init", op_again },
};

/* ---- one run with failures ---- */

typedef struct
{
    stack_t ss;
    struct sigaction bus, segv;
    uint64_t fds[16];
    size_t blocks;
    int maps;
} State;

static void
state_get (State *s)
{
    memset (s, 0, sizeof (*s));
    sigaltstack (NULL, &s->ss);
    sigaction (SIGBUS, NULL, &s->bus);
    sigaction (SIGSEGV, NULL, &s->segv);
    vp_fd_snapshot (s->fds);
    s->blocks = vp_track_live ();
    s->maps = vp_maps_live ();
}

static void
state_same (const State *a, const char *when, int blocks)
{
    State b;

    state_get (&b);
    VP_CHECK (!memcmp (a->fds, b.fds, sizeof (b.fds)), "leak-fd",
              "%s: %s failed, descriptors %s %s", what,
              vp_fault_last ? vp_fault_last : "nothing",
              vp_fd_diff_str (a->fds, b.fds), when);
    VP_CHECK (a->maps == b.maps, "leak-map", "%s: %s failed, %d mappings %s",
              what, vp_fault_last ? vp_fault_last : "nothing", b.maps - a->maps,
              when);
    if (blocks)
        VP_CHECK (a->blocks == b.blocks, "leak", "%s: %s failed, %d blocks %s",
                  what, vp_fault_last ? vp_fault_last : "nothing",
                  (int)(b.blocks - a->blocks), when);
    VP_CHECK (a->ss.ss_sp == b.ss.ss_sp && a->ss.ss_flags == b.ss.ss_flags,
              "signal-stack", "%s: %s failed, another one is installed %s", what,
              vp_fault_last ? vp_fault_last : "nothing", when);
    VP_CHECK (a->bus.sa_sigaction == b.bus.sa_sigaction &&
                  a->segv.sa_sigaction == b.segv.sa_sigaction,
              "signal-handler", "%s: %s failed, another one is installed %s",
              what, vp_fault_last ? vp_fault_last : "nothing", when);
}

static uint64_t
faults_set (uint64_t at, unsigned pct)
{
    vp_fault_at = at;
    vp_fault_pct = pct;
    vp_fault_seen = 0;
    vp_fault_sig = 0;
    return vp_fault_hits;
}

static void
faults_clear (void)
{
    OFF;
    vp_fault_at = 0;
    vp_fault_pct = 0;
}

typedef struct
{
    const Op *op;
    uint64_t at;
    unsigned pct;
    int hits, res, times;
} Run;

/* the operation with failures, then without */
static void
attempt (Run *r)
{
    State s;
    uint64_t h, rnd = vp_rnd (), hits = 0;
    int i;

    for (i = 0; i < r->times; i++) {
        state_get (&s);
        vp_rnd_seed (seed);
        h = faults_set (r->at, r->pct);
        r->res = r->op->run ();
        faults_clear ();
        hits += vp_fault_hits - h;
        if (!r->res) {
            VP_CHECK (vp_fault_hits != h, "refused",
                      "%s was refused without a failure", r->op->name);
            vp_ev ("reported a failure");
        } else if (vp_fault_hits != h) {
            vp_ev ("worked in spite of a failure");
        }
        /* a failed operation does not give way to others */
        if (!r->res || !company)
            state_same (&s, "after it", r->op->outside);
    }
    r->hits = hits;
    vp_rnd_seed (seed);
    VP_CHECK (r->op->run () == 1, "retry",
              "%s failed although nothing fails any more (%s failed before)",
              r->op->name, vp_fault_last ? vp_fault_last : "nothing");
    if (!company)
        state_same (&s, "after another try", r->op->outside);
    vp_rnd_seed (rnd);
}

/* objects that exist before, used afterwards */
typedef struct
{
    HevTaskChannel *c[2], *d[2];
    HevCircularBuffer *b;
    HevTask *t;
    unsigned char *mem;
    int got, pair[2];
    HevTaskCIO *io;
    Run *r;
} Witness;

static void
witness_task (void *data)
{
    Witness *w = data;

    VP_CHECK (hev_task_channel_read (w->d[1], &w->got, 4) == 4, "existing",
              "a task was not served by its channel");
    hev_task_sleep (1);
    w->got++;
}

static void
main_entry (void *data)
{
    Witness *w = data;
    int i, v;

    VP_CHECK (hev_task_channel_new_with_buffers (&w->c[0], &w->c[1], 4, 3) == 0 &&
                  hev_task_channel_new (&w->d[0], &w->d[1]) == 0,
              "new", "no channel");
    for (i = 0; i < 3; i++)
        hev_task_channel_write (w->c[0], &i, 4);
    w->b = hev_circular_buffer_new (64);
    w->t = hev_task_new (-1);
    w->mem = hev_malloc (500);
    vp_pair (w->pair);
    w->io = HEV_TASK_CIO (hev_task_cio_fd_new (w->pair[0], w->pair[0]));
    VP_CHECK (w->b && w->t && w->mem && w->io, "new", "not made");
    memset (w->mem, 0x3C, 500);
    hev_task_ref (w->t);
    hev_task_run (w->t, witness_task, w);
    hev_task_yield (HEV_TASK_YIELD);

    attempt (w->r);

    for (i = 0; i < 3; i++)
        VP_CHECK (hev_task_channel_read (w->c[1], &v, 4) == 4 && v == i,
                  "existing", "a channel lost a message");
    v = 41;
    VP_CHECK (hev_task_channel_write (w->d[0], &v, 4) == 4, "existing",
              "no reader");
    hev_task_join (w->t);
    VP_CHECK (w->got == 42, "existing", "a task got lost");
    hev_task_unref (w->t);
    cbuf_use (w->b, 64);
    hev_circular_buffer_unref (w->b);
    for (i = 0; i < 500; i++)
        VP_CHECK (w->mem[i] == 0x3C, "existing", "memory changed");
    hev_free (w->mem);
    VP_CHECK (hev_task_cio_write (w->io, &v, 4, NULL, NULL) == 4 &&
                  __real_read (w->pair[1], &i, 4) == 4 && i == 41,
              "existing", "a layer does not work");
    hev_object_unref (HEV_OBJECT (w->io));
    __real_close (w->pair[1]);
    for (i = 0; i < 2; i++) {
        hev_task_channel_destroy (w->c[i]);
        hev_task_channel_destroy (w->d[i]);
    }
    mods[vp_range (NMODS)]();
    vp_ev ("used what existed before");
}

/* the number of calls that could have failed */
static uint64_t
one_run (const Op *op, uint64_t at, unsigned pct, int *hits)
{
    Run r = { op, at, pct, 0, 0, 1 + (vp_chance (10) ? vp_range (20) : 0) };
    Witness w;
    State s;

    what = op->name;
    vp_fault_last = NULL;
    vp_track_reset ();
    state_get (&s);
    company = 0;
    if (op->outside) {
        attempt (&r);
    } else {
        HevTask *t;

        memset (&w, 0, sizeof (w));
        w.r = &r;
        VP_CHECK (hev_task_system_init () == 0, "init", "failed");
        t = hev_task_new (262144);
        VP_CHECK (t, "new", "no task");
        hev_task_run (t, main_entry, &w);
        company = vp_chance (50);
        if (company)
            mods[vp_range (NMODS)]();
        hev_task_system_run ();
        VP_CHECK (!mods_live, "existing", "%d programs are left", mods_live);
        hev_task_system_fini ();
    }
    state_same (&s, "after the end", 1);
    *hits = r.hits;
    return vp_fault_seen;
}

static void
w_setup (uint64_t n)
{
    const Op *op = &ops[n % ARRAY_LEN (ops)];
    uint64_t calls, k, failed = 0;
    const char *c;
    int hits, i;

    mods_dns = 0;
    vp_fault_any = 0;
    vp_close_monitor = 1;
    seed = vp_rnd ();
    vp_track = 1;
    first = 1;
    calls = one_run (op, 0, 0, &hits);
    first = 0;
    vp_mix (n % ARRAY_LEN (ops));
    for (k = 1; k <= calls && k <= 64; k++) {
        one_run (op, k, 0, &hits);
        if (!hits)
            continue; /* cached memory was used */
        for (c = vp_fault_last; c && *c; c++)
            vp_mix (*c);
        vp_mix (k);
        failed++;
    }
    for (i = 0; i < 4; i++) {
        one_run (op, 0, 10 + vp_range (80), &hits);
        if (hits)
            vp_ev ("several random failures");
        vp_mix (hits);
    }
    vp_track = 0;
    vp_close_monitor = 0;
    vp_evn ("single failures", failed);
    if (failed)
        vp_nontrivial ();
    vp_sample ("%s: each of %d calls failed", op->name, (int)failed);
}

/* ---- lookups: the helper thread is started once per process ---- */

static int
quiet_gai (const char *node, const char *service, const struct addrinfo *hints,
           struct addrinfo **res)
{
    __atomic_store_n (&vp_fault_any, 0, __ATOMIC_RELEASE);
    return mods_gai (node, service, hints, res);
}

static int
quiet_gni (const struct sockaddr *a, socklen_t al, char *h, socklen_t hl,
           char *s, socklen_t sl, int fl)
{
    __atomic_store_n (&vp_fault_any, 0, __ATOMIC_RELEASE);
    snprintf (h, hl, "name");
    return 0;
}

static int by_name;

static int
lookup (void)
{
    int r;

    if (by_name) {
        struct addrinfo *a = NULL;
        r = hev_task_dns_getaddrinfo ("7", NULL, NULL, &a);
        __atomic_store_n (&vp_fault_any, 0, __ATOMIC_RELEASE);
        if (r == 0) {
            VP_CHECK (a && a->ai_protocol == 7, "broken", "another answer");
            __real_free (a);
        }
    } else {
        struct sockaddr sa = { AF_UNIX };
        char name[16] = "";
        r = hev_task_dns_getnameinfo (&sa, sizeof (sa), name, 16, NULL, 0, 0);
        __atomic_store_n (&vp_fault_any, 0, __ATOMIC_RELEASE);
        if (r == 0)
            VP_CHECK (!strcmp (name, "name"), "broken", "another answer");
    }
    return r;
}

typedef struct
{
    uint64_t at;
    unsigned pct;
    int r;
} Look;

static void
look_entry (void *data)
{
    Look *l = data;
    uint64_t h = faults_set (l->at, l->pct);

    __atomic_store_n (&vp_fault_any, l->at || l->pct, __ATOMIC_RELEASE);
    l->r = lookup ();
    l->at = vp_fault_at = 0;
    vp_fault_pct = 0;
    if (l->r) {
        VP_CHECK (vp_fault_hits != h, "refused", "a lookup was refused");
        VP_CHECK (l->r == EAI_SYSTEM || l->r == EAI_MEMORY || l->r == EAI_AGAIN,
                  "value", "the lookup returned %d", l->r);
        vp_ev ("reported a failure");
        l->r = lookup ();
        VP_CHECK (l->r == 0, "retry", "the lookup returned %d (%s failed before)",
                  l->r, vp_fault_last);
    } else if (vp_fault_hits != h) {
        vp_ev ("worked in spite of a failure");
    }
    mods[vp_range (NMODS)]();
}

/* what is there when the system is gone: blocks, mappings, descriptors */
static void
look (uint64_t at, unsigned pct, int tries, int *left)
{
    Look l = { at, pct, 0 };
    uint64_t s[16];
    HevTask *t;
    int i;

    vp_track_reset ();
    vp_track = 1;
    while (tries--) {
        l.at = at;
        l.pct = pct;
        VP_CHECK (hev_task_system_init () == 0, "init", "failed");
        t = hev_task_new (-1);
        VP_CHECK (t, "new", "no task");
        hev_task_run (t, look_entry, &l);
        hev_task_system_run ();
        VP_CHECK (!mods_live, "existing", "programs are left");
        hev_task_system_fini ();
    }
    vp_fd_snapshot (s);
    left[0] = vp_track_live ();
    left[1] = vp_maps_live ();
    for (i = 0, left[2] = 0; i < 16; i++)
        left[2] += __builtin_popcountll (s[i]);
}

static void
w_lookup (uint64_t n)
{
    int fd[2], want[3], got[3], st, k;
    unsigned pct = n % 24 == 23 ? 10 + vp_range (70) : 0;
    uint64_t at = pct ? 0 : 1 + n % 24, h = vp_fault_hits;
    pid_t pid;

    what = "lookup";
    vp_gai_hook = quiet_gai;
    vp_gni_hook = quiet_gni;
    mods_dns = 0;
    by_name = vp_chance (60);
    /* what a process without failures has in the end */
    VP_HARNESS (__real_pipe (fd) == 0);
    pid = fork ();
    VP_HARNESS (pid >= 0);
    if (!pid) {
        look (0, 0, 1, want);
        VP_HARNESS (__real_write (fd[1], want, sizeof (want)) == sizeof (want));
        _exit (0);
    }
    VP_HARNESS (waitpid (pid, &st, 0) == pid);
    VP_CHECK (st == 0, "broken", "a lookup without failures: status %x", st);
    VP_HARNESS (__real_read (fd[0], want, sizeof (want)) == sizeof (want));
    look (at, pct, 1 + vp_range (3), got);
    for (k = 0; k < 1000; k++) {
        /* a thread may still be on its way out */
        got[0] = vp_track_live ();
        got[1] = vp_maps_live ();
        if (got[0] == want[0] && got[1] == want[1])
            break;
        usleep (1000);
    }
    VP_CHECK (got[0] == want[0], "leak", "%s failed: %d blocks instead of %d",
              vp_fault_last, got[0], want[0]);
    VP_CHECK (got[1] == want[1], "leak-map", "%s failed: %d mappings not %d",
              vp_fault_last, got[1], want[1]);
    VP_CHECK (got[2] == want[2], "leak-fd", "%s failed: %d descriptors not %d",
              vp_fault_last, got[2], want[2]);
    vp_track = 0;
    __real_close (fd[0]);
    __real_close (fd[1]);
    vp_mix (vp_hash64 (at, by_name));
    if (vp_fault_hits != h) {
        vp_evn ("failures during a first lookup", vp_fault_hits - h);
        vp_nontrivial ();
        vp_sample ("lookup: call %d (%s) failed", (int)at, vp_fault_last);
    }
}

static const VpWork works[] = {
    { "setup", w_setup },
    { "lookup", w_lookup },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    return vp_main (argc, argv, works);
}
