/* The memory allocator: contents and cache. */
#include "vp.h"
#include <hev-task-system.h>
#include <hev-task.h>
#include <hev-memory-allocator.h>

#define MAXB 3000

typedef struct
{
    unsigned char *p;
    size_t n;
    uint64_t id;
} B;

static B bs[MAXB];
static int nb;
static uint64_t ids, n_ops, n_refused;

static unsigned char
pat (uint64_t id, size_t i)
{
    return (id * 0x9e3779b97f4a7c15ull >> 40) + i * 31 + (i >> 8) * 7;
}

static void
fill (B *b)
{
    size_t i;

    if (b->n > 200000) { /* ends only */
        for (i = 0; i < 4096; i++) {
            b->p[i] = pat (b->id, i);
            b->p[b->n - 1 - i] = pat (b->id, b->n - 1 - i);
        }
        return;
    }
    for (i = 0; i < b->n; i++)
        b->p[i] = pat (b->id, i);
}

static void
verify_range (const unsigned char *p, uint64_t id, size_t from, size_t to,
              const char *when)
{
    size_t i;

    for (i = from; i < to; i++)
        VP_CHECK (p[i] == pat (id, i), "content",
                  "byte %zu of block %lu changed, seen %s", i,
                  (unsigned long)id, when);
}

static void
verify (B *b, const char *when)
{
    if (b->n > 200000) {
        verify_range (b->p, b->id, 0, 4096, when);
        verify_range (b->p, b->id, b->n - 4096, b->n, when);
    } else {
        verify_range (b->p, b->id, 0, b->n, when);
    }
    vp_ev ("blocks verified");
}

static void
check_block (void *p, size_t n, const char *how)
{
    const void *base = NULL;
    size_t size;
    int i;

    VP_CHECK (((uintptr_t)p & 15) == 0, "alignment", "%s(%zu) returned %p", how,
              n, p);
    size = vp_track_size (p, &base);
    VP_CHECK (base != NULL, "wild", "%s(%zu) returned memory of no block", how,
              n);
    VP_CHECK ((const char *)base + size >= (char *)p + n, "too-small",
              "%s(%zu) returned a block of %zu bytes", how, n,
              size - (size_t)((char *)p - (const char *)base));
    for (i = 0; i < nb; i++)
        VP_CHECK ((unsigned char *)p + n <= bs[i].p ||
                      bs[i].p + bs[i].n <= (unsigned char *)p,
                  "overlap", "%s(%zu) overlaps a live block of %zu bytes", how,
                  n, bs[i].n);
    vp_ev ("blocks checked");
}

static size_t
some_size (void)
{
    switch (vp_range (12)) {
    case 0:
        return 1 + vp_range (16);
    case 1:
        return 64 * (1 + vp_range (66)) - 1 + vp_range (3);
    case 2:
        return 4096 - 2 + vp_range (5);
    case 3:
        return 4096 + 1 + vp_range (5000);
    case 4:
        return vp_chance (10) ? 100000 + vp_range (300000) : 1 + vp_range (9000);
    case 5:
        return 4032 + vp_range (130);
    default:
        return 1 + vp_range (700);
    }
}

static size_t
absurd_size (void)
{
    switch (vp_range (8)) {
    case 0:
        return SIZE_MAX - vp_range (130);
    case 1:
        return (1ull << 38) + 64 * vp_range (70) + 1; /* 2^32 units of 64 */
    case 2:
        return (1ull << 63) + vp_range (10000);
    case 3:
        return SIZE_MAX / 2 + vp_range (100);
    case 4:
        return (1ull << 47) + vp_range (10000);
    case 5:
        return (1ull << 62) + 64 * vp_range (70);
    case 6:
        return ((uint64_t)vp_range (1000) << 38 | 1ull << 61) +
               64 * vp_range (66);
    default:
        return (SIZE_MAX & ~4095ull) + vp_range (4096);
    }
}

static void
add (void *p, size_t n)
{
    B *b = &bs[nb++];

    b->p = p;
    b->n = n;
    b->id = ++ids;
    fill (b);
}

static int faulty;

static void
mem_ops (int n)
{
    size_t s, c, i;
    void *p;
    uint64_t hits;
    int k;

    while (n--) {
        n_ops++;
        hits = vp_fault_hits;
        vp_fault_on = faulty && vp_chance (20);
        vp_fault_pct = 60;
        switch (vp_range (12)) {
        case 0:
        case 1:
        case 2:
            if (nb == MAXB)
                break;
            s = some_size ();
            p = hev_malloc (s);
            vp_fault_on = 0;
            if (!p) {
                VP_CHECK (vp_fault_hits != hits, "refused",
                          "malloc(%zu) returned null", s);
                n_refused++;
                break;
            }
            check_block (p, s, "malloc");
            add (p, s);
            break;
        case 3:
            if (nb == MAXB)
                break;
            s = some_size ();
            p = hev_malloc0 (s);
            vp_fault_on = 0;
            if (!p) {
                VP_CHECK (vp_fault_hits != hits, "refused",
                          "malloc0(%zu) returned null", s);
                n_refused++;
                break;
            }
            check_block (p, s, "malloc0");
            for (i = 0; i < s; i++)
                VP_CHECK (((char *)p)[i] == 0, "not-zero",
                          "byte %zu of malloc0(%zu) is not zero", i, s);
            vp_ev ("zeroed blocks");
            add (p, s);
            break;
        case 4:
            if (nb == MAXB)
                break;
            s = 1 + vp_range (vp_chance (50) ? 20 : 300);
            c = 1 + vp_range (vp_chance (50) ? 20 : 90);
            p = hev_calloc (c, s);
            vp_fault_on = 0;
            if (!p) {
                VP_CHECK (vp_fault_hits != hits, "refused",
                          "calloc(%zu, %zu) returned null", c, s);
                n_refused++;
                break;
            }
            check_block (p, s * c, "calloc");
            for (i = 0; i < s * c; i++)
                VP_CHECK (((char *)p)[i] == 0, "not-zero",
                          "byte %zu of calloc(%zu, %zu) is not zero", i, c, s);
            vp_ev ("zeroed blocks");
            add (p, s * c);
            break;
        case 5:
        case 6: {
            B b;
            if (!nb)
                break;
            k = vp_range (nb);
            b = bs[k];
            s = vp_chance (30) ? b.n + vp_range (80) : some_size ();
            verify (&b, "before a resize");
            bs[k] = bs[--nb]; /* may overlap itself */
            p = hev_realloc (b.p, s);
            vp_fault_on = 0;
            if (!p) {
                VP_CHECK (vp_fault_hits != hits, "refused",
                          "realloc(%zu) returned null", s);
                verify (&b, "after a failed resize");
                bs[nb++] = b;
                n_refused++;
                break;
            }
            check_block (p, s, "realloc");
            if (b.n > 200000)
                verify_range (p, b.id, 0, s < 4096 ? s : 4096, "after a resize");
            else
                verify_range (p, b.id, 0, s < b.n ? s : b.n, "after a resize");
            vp_ev ("resizes");
            add (p, s);
            break;
        }
        case 7:
            /* requests that cannot be satisfied */
            vp_fault_on = 0;
            if (vp_param) /* not under sanitizers */
                break;
            switch (vp_range (4)) {
            case 0:
                s = absurd_size ();
                p = hev_malloc (s);
                VP_CHECK (p == NULL, "too-small", "malloc(%zu) returned a block",
                          s);
                break;
            case 1:
                s = absurd_size ();
                p = hev_malloc0 (s);
                VP_CHECK (p == NULL, "too-small",
                          "malloc0(%zu) returned a block", s);
                break;
            case 2:
                switch (vp_range (4)) {
                case 0:
                    c = (SIZE_MAX >> 5) + 1 + vp_range (4);
                    s = 32;
                    break;
                case 1:
                    c = 1ull << 32;
                    s = (1ull << 32) + vp_range (2);
                    break;
                case 2:
                    s = (1ull << 63) + vp_range (40);
                    c = 2 + vp_range (3);
                    break;
                default:
                    s = absurd_size ();
                    c = 1 + vp_range (5);
                }
                p = hev_calloc (c, s);
                VP_CHECK (p == NULL, "too-small",
                          "calloc(%zu, %zu) returned a block", c, s);
                break;
            default:
                if (!nb)
                    break;
                k = vp_range (nb);
                s = absurd_size ();
                p = hev_realloc (bs[k].p, s);
                VP_CHECK (p == NULL, "too-small",
                          "realloc(%zu) returned a block", s);
                verify (&bs[k], "after a failed resize");
            }
            vp_ev ("impossible requests");
            break;
        default:
            vp_fault_on = 0;
            if (!nb)
                break;
            k = vp_range (nb);
            verify (&bs[k], "before free");
            p = bs[k].p;
            bs[k] = bs[--nb];
            hev_free (p);
            vp_ev ("frees");
        }
        vp_fault_on = 0;
        vp_mix (nb);
        if (vp_chance (2))
            for (k = 0; k < nb; k++)
                verify (&bs[k], "in passing");
    }
}

static void
mem_task (void *data)
{
    int n = (int)(intptr_t)data;

    while (n > 0) {
        mem_ops (n < 40 ? n : 40);
        n -= 40;
        hev_task_yield (HEV_TASK_YIELD);
    }
}

static void
w_mem (uint64_t n)
{
    int i, ops;
    uint64_t hits = vp_fault_hits;

    nb = ids = n_ops = n_refused = 0;
    vp_track_reset ();
    vp_track = 1;
    faulty = vp_chance (30);
    ops = 20 + vp_range (vp_chance (10) ? 2000 : 200);
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    if (vp_chance (50)) {
        HevTask *a = hev_task_new (65536), *b = hev_task_new (65536);
        hev_task_run (a, mem_task, (void *)(intptr_t)ops);
        hev_task_run (b, mem_task, (void *)(intptr_t)(ops / 2));
        hev_task_system_run ();
    }
    mem_ops (ops);
    for (i = 0; i < nb; i++)
        verify (&bs[i], "at the end");
    while (nb)
        hev_free (bs[--nb].p);
    hev_task_system_fini ();
    VP_CHECK (vp_track_live () == 0, "leak", "%zu blocks left at the end",
              vp_track_live ());
    vp_track = 0;
    vp_nontrivial ();
    vp_evn ("failures injected", vp_fault_hits - hits);
    vp_sample ("%lu operations, %lu blocks, %lu refused", (unsigned long)n_ops,
               (unsigned long)ids, (unsigned long)n_refused);
}

/* ---- the cache ---- */

#define NCLASS 64
static long cached[NCLASS + 1];
static int fuzzy;
static size_t base_live;
static long max_seen;

static unsigned
class_of (size_t n)
{
    return (n + 63) / 64; /* 1 .. 64 are cached */
}

static long
cache_size (void)
{
    return (long)vp_track_live () - (long)base_live - nb;
}

static void
check_cache (const char *when)
{
    long c = cache_size ();

    VP_HARNESS (c >= 0);
    VP_CHECK (c <= 1000, "cache-bound", "%ld blocks are cached after %s", c,
              when);
    if (c > max_seen)
        max_seen = c;
    vp_ev ("cache sizes checked");
}

static void
cache_alloc (size_t s)
{
    uint64_t m0 = vp_n_malloc;
    unsigned c = class_of (s);
    void *p;

    if (nb == MAXB)
        return;
    switch (vp_range (3)) {
    case 0:
        p = hev_malloc0 (s);
        break;
    case 1:
        p = hev_calloc (1, s);
        break;
    default:
        p = hev_malloc (s);
    }
    VP_CHECK (p != NULL, "refused", "malloc(%zu)", s);
    if (c <= NCLASS && !fuzzy) {
        if (cached[c]) {
            VP_CHECK (vp_n_malloc == m0, "no-reuse",
                      "malloc(%zu) asked the system, %ld freed blocks of its "
                      "size class are cached",
                      s, cached[c]);
            cached[c]--;
            vp_ev ("blocks reused");
        }
    }
    bs[nb].p = p;
    bs[nb].n = s;
    nb++;
    check_cache ("an allocation");
}

static void
cache_free (int k)
{
    unsigned c = class_of (bs[k].n);
    long before = cache_size (), after;
    void *p = bs[k].p;
    size_t s = bs[k].n;

    bs[k] = bs[--nb];
    hev_free (p);
    after = cache_size ();
    check_cache ("a free");
    if (c > NCLASS) {
        VP_CHECK (after <= before, "big-cached",
                  "a freed block of %zu bytes was kept", s);
        vp_ev ("big blocks freed");
    } else {
        cached[c]++;
        VP_CHECK (after > before || before >= 1000, "evicted-early",
                  "freeing %zu bytes dropped cached blocks, only %ld are cached",
                  s, after);
        if (after < before + 1)
            fuzzy = 1; /* something was evicted, we do not know what */
        /* freed and requested again right away */
        if (vp_chance (10)) {
            uint64_t m0 = vp_n_malloc;
            size_t t = (c - 1) * 64 + 1 + vp_range (64);
            p = hev_malloc (t);
            VP_CHECK (p && vp_n_malloc == m0, "no-reuse",
                      "malloc(%zu) right after freeing %zu bytes asked the "
                      "system (%ld blocks cached)",
                      t, s, after);
            cached[c]--;
            bs[nb].p = p;
            bs[nb].n = t;
            nb++;
            vp_ev ("blocks reused at once");
        }
    }
}

static void
w_cache (uint64_t n)
{
    int cycles = 1 + vp_range (3), phases, k, style, i;
    uint64_t before[16], after[16];

    max_seen = 0;
    n_ops = 0;
    vp_fd_snapshot (before);
    while (cycles--) {
        vp_track_reset ();
        vp_track = 1;
        nb = fuzzy = 0;
        memset (cached, 0, sizeof (cached));
        VP_CHECK (hev_task_system_init () == 0, "init", "init");
        base_live = vp_track_live ();
        phases = 1 + vp_range (6);
        while (phases--) {
            int cnt = 1 + vp_range (vp_chance (60) ? 1800 : 100);
            size_t one = 1 + vp_range (4300);
            style = vp_range (5);
            for (i = 0; i < cnt; i++) {
                n_ops++;
                switch (style) {
                case 0: /* fill with one class */
                    cache_alloc (one);
                    break;
                case 1: /* many classes */
                    cache_alloc (1 + vp_range (4300));
                    break;
                case 2: /* free all */
                    if (nb)
                        cache_free (vp_range (nb));
                    break;
                case 3:
                    if (nb && vp_chance (50))
                        cache_free (vp_range (nb));
                    else
                        cache_alloc (vp_chance (70) ? one : some_size ());
                    break;
                default:
                    if (nb && vp_chance (80))
                        cache_free (nb - 1);
                    else if (nb && vp_chance (15)) {
                        /* resizing to nothing, and blocks of nothing */
                        void *p;
                        k = vp_range (nb);
                        p = hev_realloc (bs[k].p, 0);
                        bs[k] = bs[--nb];
                        if (p)
                            hev_free (p);
                        p = vp_chance (50) ? hev_malloc (0) :
                            vp_chance (50) ? hev_malloc0 (0) :
                                             hev_calloc (0, vp_range (9));
                        if (p)
                            hev_free (p);
                        vp_ev ("blocks of nothing");
                        check_cache ("a resize to nothing");
                        fuzzy = 1;
                    } else if (nb) {
                        /* resizing moves a block between classes */
                        size_t s = some_size ();
                        void *p;
                        k = vp_range (nb);
                        p = hev_realloc (bs[k].p, s);
                        VP_CHECK (p != NULL, "refused", "realloc");
                        bs[k].p = p;
                        bs[k].n = s;
                        /* how a resize finds its memory is its own business */
                        if (cache_size () < 0)
                            vp_broken ("resize");
                        check_cache ("a resize");
                        fuzzy = 1;
                    }
                }
            }
            vp_mix (cache_size ());
        }
        while (nb)
            cache_free (vp_range (nb));
        hev_task_system_fini ();
        VP_CHECK (vp_track_live () == 0, "leak",
                  "%zu blocks (%zu bytes) not given back by fini",
                  vp_track_live (), vp_track_bytes ());
        vp_track = 0;
    }
    vp_fd_snapshot (after);
    VP_CHECK (!memcmp (before, after, sizeof (before)), "fd-leak", "%s",
              vp_fd_diff_str (before, after));
    if (max_seen > 100)
        vp_nontrivial ();
    if (max_seen == 1000)
        vp_ev ("cases that filled the cache");
    vp_sample ("%lu operations, at most %ld blocks cached",
               (unsigned long)n_ops, max_seen);
}

static const VpWork works[] = {
    { "mem", w_mem },
    { "cache", w_cache },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    return vp_main (argc, argv, works);
}
