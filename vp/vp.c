#include "vp.h"
#include <sys/stat.h>
#include <linux/sockios.h>

int vp_thorough;
int vp_level = 1;
uint64_t vp_case, vp_param;
static __thread uint64_t rng_s[2];
static char lock;
static const VpWork *cur_work;
static uint64_t base_seed;
static uint64_t *progress;

static uint64_t
splitmix (uint64_t *x)
{
    uint64_t z = (*x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

uint64_t
vp_hash64 (uint64_t a, uint64_t b)
{
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x165667B19E3779F9ull);
    return splitmix (&x);
}

uint64_t
vp_rnd (void)
{
    uint64_t s1 = rng_s[0];
    const uint64_t s0 = rng_s[1];
    const uint64_t r = s0 + s1;
    rng_s[0] = s0;
    s1 ^= s1 << 23;
    rng_s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
}

void
vp_rnd_seed (uint64_t x)
{
    rng_s[0] = splitmix (&x);
    rng_s[1] = splitmix (&x) | 1;
}

unsigned
vp_range (unsigned n)
{
    return n ? (unsigned)((vp_rnd () >> 11) % n) : 0;
}

int
vp_between (int lo, int hi)
{
    return lo + (int)vp_range ((unsigned)(hi - lo + 1));
}

int
vp_chance (unsigned percent)
{
    return vp_range (100) < percent;
}

/* ---- evidence ---- */

#define MAX_EV 128
static struct
{
    const char *name;
    uint64_t n;
} evs[MAX_EV];
static int n_evs;
static uint64_t case_hash;
static int case_nontrivial;
static uint64_t *hashes;
static size_t n_hashes, cap_hashes;
static uint64_t n_cases, n_nontrivial;
#define MAX_SAMPLES 4
static char samples[MAX_SAMPLES][400];
static int n_samples, sample_cases;

void
vp_evn (const char *name, uint64_t n)
{
    int i;

    /* not a pthread mutex, which would order the threads for a race detector */
    while (__atomic_test_and_set (&lock, __ATOMIC_ACQUIRE))
        ;
    for (i = 0; i < n_evs; i++)
        if (evs[i].name == name || !strcmp (evs[i].name, name))
            break;
    if (i < MAX_EV) {
        evs[i].name = name;
        evs[i].n += n;
        if (i == n_evs)
            n_evs++;
    }
    __atomic_clear (&lock, __ATOMIC_RELEASE);
}

void
vp_ev (const char *name)
{
    vp_evn (name, 1);
}

void
vp_mix (uint64_t v)
{
    case_hash = vp_hash64 (case_hash, v);
}

void
vp_nontrivial (void)
{
    case_nontrivial = 1;
}

void
vp_sample (const char *fmt, ...)
{
    va_list ap;
    int used;

    if (n_samples >= MAX_SAMPLES)
        return;
    used = snprintf (samples[n_samples], sizeof (samples[0]), "%s#%lu: ",
                     cur_work->name, (unsigned long)vp_case);
    va_start (ap, fmt);
    vsnprintf (samples[n_samples] + used, sizeof (samples[0]) - used, fmt, ap);
    va_end (ap);
    n_samples++;
}

void
vp_fail (const char *key, const char *fmt, ...)
{
    char buf[2048];
    va_list ap;

    va_start (ap, fmt);
    vsnprintf (buf, sizeof (buf), fmt, ap);
    va_end (ap);
    dprintf (1, "VPFAIL key=%s work=%s case=%lu %s\n", key,
             cur_work ? cur_work->name : "?", (unsigned long)vp_case, buf);
    _exit (9);
}

void
vp_broken (const char *fmt, ...)
{
    char buf[1024];
    va_list ap;

    va_start (ap, fmt);
    vsnprintf (buf, sizeof (buf), fmt, ap);
    va_end (ap);
    dprintf (1, "VPBROKEN work=%s case=%lu %s (errno %d)\n",
             cur_work ? cur_work->name : "?", (unsigned long)vp_case, buf,
             errno);
    _exit (8);
}

__attribute__ ((noinline, no_sanitize ("address"), no_sanitize ("undefined")))
void
vp_scribble (void)
{
    volatile char buf[1536];
    size_t i;

    for (i = 0; i < sizeof (buf); i++)
        buf[i] = (char)0xA5;
}

void
vp_nonblock (int fd)
{
    int fl = __real_fcntl (fd, F_GETFL);
    VP_HARNESS (fl >= 0);
    VP_HARNESS (__real_fcntl (fd, F_SETFL, fl | O_NONBLOCK) == 0);
}

static struct
{
    void *task;
    int state;
} ys[256];
static int n_ys;

void
vp_y (void *task, int state)
{
    int i;

    for (i = 0; i < n_ys && ys[i].task != task; i++)
        ;
    if (i == n_ys && state > 1)
        return;
    if (state == 3)
        state = 1;
    if (i == n_ys) {
        VP_HARNESS (i < 256);
        ys[n_ys++].task = task;
    }
    ys[i].state = state;
    if (!state)
        ys[i] = ys[--n_ys];
}

void
vp_y_reset (void)
{
    n_ys = 0;
}

void
vp_y_check (void)
{
    int i;

    for (i = 0; i < n_ys; i++)
        VP_CHECK (ys[i].state != 1, "yielder",
                  "a call waits without having consulted its yielder");
}

/* not ended by a signal */
int
vp_poll (struct pollfd *p, nfds_t n, int timeout)
{
    int r;

    do {
        r = __real_poll (p, n, timeout);
    } while (r < 0 && errno == EINTR);
    return r;
}

/* 1: there is room for output, and whoever waits for it was told so.  The
 * kernel frees all but one byte of a message before it looks whether a local
 * socket's output just became possible, and so announces nothing when that
 * last byte makes the difference. */
int
vp_writable (int fd)
{
    struct pollfd p = { fd, POLLOUT, 0 };
    socklen_t len = sizeof (int);
    int q, size;

    vp_poll (&p, 1, 0);
    if (!(p.revents & POLLOUT) || (p.revents & (POLLERR | POLLHUP)))
        return 0;
    if (getsockopt (fd, SOL_SOCKET, SO_SNDBUF, &size, &len) == 0 &&
        __real_ioctl (fd, SIOCOUTQ, &q) == 0 && (q + 1) * 4 <= size &&
        (q + 2) * 4 > size)
        return 0;
    return 1;
}

/* either end may be the one with the lowest number */
static void
low_end (int fd[2])
{
    int n;

    if (fd[0] != 0 || vp_chance (50))
        return;
    n = __real_dup (fd[0]);
    VP_HARNESS (n >= 0);
    __real_close (fd[0]);
    fd[0] = n;
    n = __real_dup (fd[1]);
    VP_HARNESS (n >= 0);
    __real_close (fd[1]);
    fd[1] = n;
}

void
vp_pair (int fd[2])
{
    VP_HARNESS (__real_socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0,
                                   fd) == 0);
    low_end (fd);
}

void
vp_pipe (int fd[2])
{
    VP_HARNESS (__real_pipe2 (fd, O_NONBLOCK) == 0);
    low_end (fd);
}

void
vp_fd_snapshot (uint64_t set[16])
{
    int i;

    memset (set, 0, 16 * sizeof (uint64_t));
    for (i = 0; i < 256; i++)
        if (__real_fcntl (i, F_GETFD) >= 0)
            set[i / 64] |= 1ull << (i % 64);
}

int
vp_fd_diff (const uint64_t a[16], const uint64_t b[16], char *buf, size_t len)
{
    int i, n = 0;
    size_t o = 0;

    buf[0] = 0;
    for (i = 0; i < 1024; i++) {
        int x = !!(a[i / 64] & (1ull << (i % 64)));
        int y = !!(b[i / 64] & (1ull << (i % 64)));
        if (x == y)
            continue;
        n++;
        if (o + 8 < len)
            o += snprintf (buf + o, len - o, "%c%d ", y ? '+' : '-', i);
    }
    return n;
}

const char *
vp_fd_diff_str (const uint64_t a[16], const uint64_t b[16])
{
    static char buf[256];
    return vp_fd_diff (a, b, buf, sizeof (buf)) ? buf : NULL;
}

static void
json_str (FILE *fp, const char *s)
{
    fputc ('"', fp);
    for (; *s; s++) {
        if (*s == '"' || *s == '\\')
            fputc ('\\', fp);
        if ((unsigned char)*s < 32)
            fputc (' ', fp);
        else
            fputc (*s, fp);
    }
    fputc ('"', fp);
}

/* Descriptor 0 is free in a part of the cases, so that any descriptor of the
 * library or of the workload can have that number. */
int vp_keep_stdin;
int vp_zero; /* 1: not for the system's epoll, 2: nor for its timer */

static void
stdin_case (uint64_t x)
{
    static int ours;

    if (vp_keep_stdin)
        x = 1ull << 40;
    if (ours && (x >> 40) % 4 == 0) {
        __real_close (0);
        ours = 0;
    } else if (!ours && (x >> 40) % 4 && fcntl (0, F_GETFD) < 0) {
        ours = __real_open ("/dev/null", O_RDWR) == 0;
        VP_HARNESS (ours);
    }
    vp_zero = (x >> 44) % 3;
    if (!ours)
        vp_ev ("cases with descriptor 0 free");
}

int
vp_main (int argc, char **argv, const VpWork *works)
{
    const char *work = NULL, *out = NULL, *prog = NULL;
    uint64_t first = 0, count = 1, i, wh;
    static uint64_t dummy[4];
    int k;

    for (k = 1; k + 1 < argc; k += 2) {
        const char *a = argv[k], *v = argv[k + 1];
        if (!strcmp (a, "--work"))
            work = v;
        else if (!strcmp (a, "--seed"))
            base_seed = strtoull (v, NULL, 0);
        else if (!strcmp (a, "--first"))
            first = strtoull (v, NULL, 0);
        else if (!strcmp (a, "--count"))
            count = strtoull (v, NULL, 0);
        else if (!strcmp (a, "--out"))
            out = v;
        else if (!strcmp (a, "--progress"))
            prog = v;
        else if (!strcmp (a, "--thorough"))
            vp_thorough = atoi (v);
        else if (!strcmp (a, "--level"))
            vp_level = atoi (v);
        else if (!strcmp (a, "--param"))
            vp_param = strtoull (v, NULL, 0);
        else if (!strcmp (a, "--signals"))
            vp_sig = atoi (v);
        else
            vp_broken ("unknown option %s", a);
    }
    for (; works->name; works++)
        if (work && !strcmp (works->name, work))
            break;
    if (!works->name)
        vp_broken ("unknown work %s", work ? work : "(none)");
    cur_work = works;
    progress = dummy;
    if (prog) {
        int fd = __real_open (prog, O_RDWR | O_CREAT, 0600);
        VP_HARNESS (fd >= 0 && ftruncate (fd, 64) == 0);
        progress = __real_mmap (NULL, 64, PROT_READ | PROT_WRITE, MAP_SHARED,
                                fd, 0);
        VP_HARNESS (progress != MAP_FAILED);
        __real_close (fd);
    }
    wh = 1469598103934665603ull;
    for (k = 0; works->name[k]; k++)
        wh = (wh ^ (unsigned char)works->name[k]) * 1099511628211ull;

    __real_close (0);
    vp_sig_start ();
    for (i = first; i < first + count; i++) {
        uint64_t x = vp_hash64 (vp_hash64 (base_seed, wh), i);
        vp_case = i;
        progress[0] = i;
        progress[1] = 1;
        vp_rnd_seed (x);
        case_hash = wh;
        case_nontrivial = 0;
        vp_steps = 0;
        vp_y_reset ();
        stdin_case (x);
        vp_sig_case (x);
        works->run (i);
        vp_sig_case_end ();
        n_cases++;
        if (case_nontrivial) {
            n_nontrivial++;
            if (n_hashes == cap_hashes) {
                cap_hashes = cap_hashes ? cap_hashes * 2 : 1024;
                hashes = __real_realloc (hashes, cap_hashes * 8);
                VP_HARNESS (hashes);
            }
            hashes[n_hashes++] = case_hash;
        }
    }
    vp_sig_stop ();
    progress[1] = 2;
    (void)sample_cases;

    if (out) {
        char path[512];
        FILE *fp;

        snprintf (path, sizeof (path), "%s.hash", out);
        fp = fopen (path, "w");
        VP_HARNESS (fp);
        if (n_hashes)
            fwrite (hashes, 8, n_hashes, fp);
        fclose (fp);
        fp = fopen (out, "w");
        VP_HARNESS (fp);
        fprintf (fp, "{\"cases\":%lu,\"nontrivial\":%lu,\"events\":{",
                 (unsigned long)n_cases, (unsigned long)n_nontrivial);
        for (k = 0; k < n_evs; k++) {
            fprintf (fp, "%s", k ? "," : "");
            json_str (fp, evs[k].name);
            fprintf (fp, ":%lu", (unsigned long)evs[k].n);
        }
        fprintf (fp, "},\"samples\":[");
        for (k = 0; k < n_samples; k++) {
            fprintf (fp, "%s", k ? "," : "");
            json_str (fp, samples[k]);
        }
        fprintf (fp, "]}\n");
        fclose (fp);
    }
    __real_free (hashes);
    return 0;
}
