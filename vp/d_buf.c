/* The circular buffer as a bounded byte queue. */
#include "vp.h"
#include <hev-task-system.h>
#include <hev-task.h>
#include <hev-circular-buffer.h>

#define MAXCAP 70000

static unsigned char *q; /* model queue: unlimited, from head to tail */
static size_t head, tail, qcap;
static uint64_t stamp;

static void
q_push (unsigned char c)
{
    if (tail == qcap) {
        memmove (q, q + head, tail - head);
        tail -= head;
        head = 0;
    }
    VP_HARNESS (tail < qcap);
    q[tail++] = c;
}

typedef struct
{
    HevCircularBuffer *b;
    size_t cap;
    unsigned char *lo, *hi;
    int refs;
} Buf;

static void
inside (Buf *x, struct iovec *iov, int n, const char *what)
{
    int i;

    VP_CHECK (n >= 0 && n <= 2, "regions", "%d %s regions", n, what);
    for (i = 0; i < n; i++) {
        unsigned char *p = iov[i].iov_base;
        VP_CHECK (iov[i].iov_len > 0, "regions", "empty %s region", what);
        VP_CHECK (p >= x->lo && p + iov[i].iov_len <= x->hi &&
                      iov[i].iov_len <= x->cap,
                  "outside", "%s region of %zu bytes is outside the buffer",
                  what, iov[i].iov_len);
    }
}

static int
disjoint (struct iovec *a, struct iovec *b)
{
    char *p = a->iov_base, *r = b->iov_base;

    return p + a->iov_len <= r || r + b->iov_len <= p;
}

static void
observe (Buf *x)
{
    struct iovec r[4], w[4];
    int nr, nw, i, j;
    size_t used = tail - head, tot = 0, k, at = head;

    /* entries beyond the returned count must not be needed */
    memset (r, 0x5a, sizeof (r));
    memset (w, 0x5a, sizeof (w));
    nr = hev_circular_buffer_reading (x->b, r);
    nw = hev_circular_buffer_writing (x->b, w);
    VP_CHECK (hev_circular_buffer_get_use_size (x->b) == used, "used",
              "used size %zu, %zu bytes are unread",
              hev_circular_buffer_get_use_size (x->b), used);
    VP_CHECK (hev_circular_buffer_get_max_size (x->b) == x->cap, "max",
              "maximum size %zu", hev_circular_buffer_get_max_size (x->b));
    inside (x, r, nr, "readable");
    inside (x, w, nw, "writable");
    for (i = 0; i < nr; i++)
        for (k = 0; k < r[i].iov_len; k++, at++) {
            VP_CHECK (at < tail, "content", "more readable bytes than unread");
            VP_CHECK (((unsigned char *)r[i].iov_base)[k] == q[at], "content",
                      "readable byte %zu of %zu is wrong (capacity %zu)",
                      at - head, used, x->cap);
        }
    VP_CHECK (at == tail, "content", "%zu of %zu unread bytes are readable",
              at - head, used);
    for (i = 0; i < nw; i++)
        tot += w[i].iov_len;
    VP_CHECK (tot == x->cap - used, "room",
              "%zu bytes writable, %zu expected (capacity %zu)", tot,
              x->cap - used, x->cap);
    for (i = 0; i < nw; i++) {
        for (j = 0; j < nr; j++)
            VP_CHECK (disjoint (&w[i], &r[j]), "overlap",
                      "writable and readable regions overlap");
        if (i)
            VP_CHECK (disjoint (&w[0], &w[1]), "overlap", "writable overlap");
    }
    if (nr == 2)
        VP_CHECK (disjoint (&r[0], &r[1]), "overlap", "readable overlap");
    vp_ev (nr == 2 ? "states with wrapped data" :
           nw == 2 ? "states with wrapped room" :
           !nr     ? "empty states" :
           !nw     ? "full states" :
                     "other states");
}

static size_t
part (size_t n)
{
    switch (vp_range (5)) {
    case 0:
        return n;
    case 1:
        return n ? 1 : 0;
    case 2:
        return 0;
    default:
        return n ? vp_rnd () % (n + 1) : 0;
    }
}

static void do_read (Buf *x);

static void
do_write (Buf *x)
{
    struct iovec w[2];
    int n = hev_circular_buffer_writing (x->b, w), i;
    size_t tot = 0, k, amount, left;

    for (i = 0; i < n; i++)
        tot += w[i].iov_len;
    if (vp_chance (20)) {
        /* a consumer goes on while the producer fills what it was offered */
        do_read (x);
        vp_ev ("consumes between offer and commit");
    }
    amount = left = part (tot);
    for (i = 0; i < n; i++)
        for (k = 0; k < w[i].iov_len; k++) {
            unsigned char c = vp_hash64 (++stamp, 7);
            ((unsigned char *)w[i].iov_base)[k] = c;
            if (left) {
                q_push (c);
                left--;
            }
        }
    hev_circular_buffer_write_finish (x->b, amount);
    vp_mix (amount);
    vp_evn ("bytes committed", amount);
}

static void
do_read (Buf *x)
{
    size_t amount = part (tail - head);

    head += amount;
    hev_circular_buffer_read_finish (x->b, amount);
    vp_mix (amount + 1000000);
    vp_evn ("bytes consumed", amount);
}

static void
w_buf (uint64_t n)
{
    Buf x;
    struct iovec w[2];
    int ops, k;
    size_t live;

    vp_track_reset ();
    vp_track = 1;
    if (!q) {
        qcap = MAXCAP * 4;
        q = __real_malloc (qcap);
    }
    head = tail = 0;
    memset (&x, 0, sizeof (x));
    x.cap = vp_chance (50) ? 1 + vp_range (9) :
            vp_chance (90) ? 1 + vp_range (300) :
                             1 + vp_range (MAXCAP - 1);
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    live = vp_track_live ();
    x.b = hev_circular_buffer_new (x.cap);
    VP_CHECK (x.b != NULL, "new", "new(%zu) failed", x.cap);
    x.refs = 1;
    k = hev_circular_buffer_writing (x.b, w);
    VP_CHECK (k == 1 && w[0].iov_len == x.cap, "room",
              "a new buffer of %zu bytes offers %d regions, the first of %zu "
              "bytes",
              x.cap, k, w[0].iov_len);
    x.lo = w[0].iov_base;
    x.hi = x.lo + x.cap;
    {
        const void *base = NULL;
        size_t size = vp_track_size (x.b, &base);
        VP_CHECK (base && x.lo >= (const unsigned char *)base &&
                      x.hi <= (const unsigned char *)base + size,
                  "outside", "the buffer of %zu bytes is outside its block",
                  x.cap);
    }
    ops = x.cap > 1000 ? 10 + vp_range (30) : 10 + vp_range (120);
    observe (&x);
    while (ops--) {
        switch (vp_range (9)) {
        case 0:
            if (vp_chance (50)) {
                VP_CHECK (hev_circular_buffer_ref (x.b) == x.b, "ref", "ref");
                x.refs++;
            } else if (x.refs > 1) {
                hev_circular_buffer_unref (x.b);
                x.refs--;
            }
            break;
        case 1:
        case 2:
        case 3:
        case 4:
            do_write (&x);
            break;
        default:
            do_read (&x);
        }
        observe (&x);
    }
    while (x.refs-- > 1) {
        hev_circular_buffer_unref (x.b);
        observe (&x);
    }
    hev_circular_buffer_unref (x.b);
    if (vp_param) /* no cache in between */
        VP_CHECK (vp_track_live () == live, "leak",
                  "buffer not freed at its last unref");
    hev_task_system_fini ();
    VP_CHECK (vp_track_live () == 0, "leak", "%zu blocks left",
              vp_track_live ());
    vp_track = 0;
    vp_nontrivial ();
    vp_sample ("capacity %zu, %zu bytes left", x.cap, tail - head);
}

/* every sequence of commits and consumes on small capacities */
static void
w_small (uint64_t n)
{
    size_t cap = 1 + vp_case % 6, i;
    uint64_t code = vp_case / 6;
    Buf x;
    struct iovec w[2];

    if (!q) {
        qcap = MAXCAP * 4;
        q = __real_malloc (qcap);
    }
    head = tail = 0;
    memset (&x, 0, sizeof (x));
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    x.cap = cap;
    x.b = hev_circular_buffer_new (cap);
    VP_HARNESS (x.b);
    VP_CHECK (hev_circular_buffer_writing (x.b, w) == 1, "room", "new");
    x.lo = w[0].iov_base;
    x.hi = x.lo + cap;
    observe (&x);
    vp_mix (vp_case);
    /* alternate: commit a, consume b, ... digits of the case number */
    for (i = 0; i < 12; i++) {
        size_t lim = i % 2 ? tail - head : cap - (tail - head);
        size_t amount = code % (lim + 1), k, left;
        int nw, j;

        code /= lim + 1;
        if (i % 2 == 0) {
            left = amount;
            nw = hev_circular_buffer_writing (x.b, w);
            for (j = 0; j < nw; j++)
                for (k = 0; k < w[j].iov_len && left; k++, left--) {
                    unsigned char c = ++stamp;
                    ((unsigned char *)w[j].iov_base)[k] = c;
                    q_push (c);
                }
            VP_CHECK (left == 0, "room", "not enough room offered");
            hev_circular_buffer_write_finish (x.b, amount);
        } else {
            head += amount;
            hev_circular_buffer_read_finish (x.b, amount);
        }
        observe (&x);
    }
    hev_circular_buffer_unref (x.b);
    hev_task_system_fini ();
    vp_nontrivial ();
}

static void
w_huge (uint64_t n)
{
    size_t s = SIZE_MAX - vp_range (200);
    HevCircularBuffer *b;

    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    b = hev_circular_buffer_new (s);
    VP_CHECK (b == NULL, "huge", "new(%zu) returned a buffer", s);
    vp_ev ("impossible capacities");
    hev_task_system_fini ();
    vp_mix (s);
    vp_nontrivial ();
}

static const VpWork works[] = {
    { "buf", w_buf },
    { "small", w_small },
    { "huge", w_huge },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    return vp_main (argc, argv, works);
}
