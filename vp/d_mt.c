/* Task systems in several threads (C25) and objects shared between them. */
#define _GNU_SOURCE
#include "mods.h"
#include <pthread.h>

#define MAXTH 6
#define MAXSH 4

static pthread_barrier_t bar;
static uint64_t case_seed;
static int sharing;

/* ------------------------------------------------------------------ */
/* objects shared by all threads */

typedef struct
{
    HevObjectAtomic base;
    int *gone;
    uint64_t words[MAXTH]; /* each written by one thread only */
    uint64_t sums[MAXTH];  /* what it wrote there */
} Shared;

static Shared *shared[MAXSH];
static int nshared, gone[MAXSH];
static HevObjectAtomicClass shared_class;

static void
shared_destruct (HevObject *o)
{
    Shared *s = (Shared *)o;
    uint64_t sum = 0;
    int i;

    /* reads what every thread wrote before it let go */
    for (i = 0; i < MAXTH; i++) {
        sum += s->words[i] & 1;
        VP_CHECK (s->words[i] == s->sums[i], "lost", "a write to the object");
    }
    __atomic_fetch_add (s->gone, 1, __ATOMIC_RELAXED);
    HEV_OBJECT_ATOMIC_TYPE->destruct (o);
    memset (s, 0xEE, sizeof (*s));
    __real_free (s);
    vp_evn ("words read by destructors", MAXTH);
    vp_evn ("odd words", sum);
}

static void
shared_make (int threads)
{
    int i, k;

    memcpy (&shared_class, HEV_OBJECT_ATOMIC_TYPE, sizeof (shared_class));
    ((HevObjectClass *)&shared_class)->name = "Shared";
    ((HevObjectClass *)&shared_class)->destruct = shared_destruct;
    for (i = 0; i < nshared; i++) {
        Shared *s = __real_calloc (1, sizeof (*s));
        VP_HARNESS (s);
        VP_CHECK (hev_object_atomic_construct (&s->base) == 0, "object",
                  "not made");
        HEV_OBJECT (s)->klass = (HevObjectClass *)&shared_class;
        s->gone = &gone[i];
        gone[i] = 0;
        shared[i] = s;
        for (k = 1; k < threads; k++)
            hev_object_ref (HEV_OBJECT (s));
    }
}

static void
shared_use (int me, int count)
{
    while (count--) {
        Shared *s = shared[vp_range (nshared)];

        hev_object_ref (HEV_OBJECT (s));
        s->words[me]++;
        s->sums[me]++;
        if (vp_chance (20))
            sched_yield ();
        hev_object_unref (HEV_OBJECT (s));
        vp_ev ("references taken and dropped");
    }
}

static void
shared_drop (int me)
{
    int i;

    for (i = 0; i < nshared; i++) {
        VP_CHECK (!__atomic_load_n (&gone[i], __ATOMIC_RELAXED), "early",
                  "an object died while a thread holds it");
        shared[i]->words[me]++;
        shared[i]->sums[me]++;
        hev_object_unref (HEV_OBJECT (shared[i]));
    }
}

/* ------------------------------------------------------------------ */

static void
seed_thread (void)
{
    static __thread uint64_t seeded;
    static int threads;

    if (seeded != case_seed) {
        vp_rnd_seed (vp_hash64 (case_seed, __atomic_fetch_add (
                                               &threads, 1, __ATOMIC_RELAXED)));
        seeded = case_seed;
    }
}

static __thread int mine;

/* the order in which the threads' programs ended, and the switches between
 * threads in it */
static uint64_t order;
static int order_lock, order_last, order_switches;

static void
note_end (void)
{
    while (__atomic_exchange_n (&order_lock, 1, __ATOMIC_ACQUIRE))
        ;
    order = vp_hash64 (order, mine);
    if (order_last != mine)
        order_switches++;
    order_last = mine;
    __atomic_store_n (&order_lock, 0, __ATOMIC_RELEASE);
}

static void
any_delay (const char *op)
{
    if (!mine)
        seed_thread ();
    if (vp_chance (op[0] == 'p' ? 50 : 5))
        usleep (vp_range (200));
}

typedef struct
{
    int index;
    uint64_t seed;
} Th;

static void *
thread (void *data)
{
    Th *th = data;
    int cycles, i, k, n;

    mine = 1 + th->index;
    vp_rnd_seed (th->seed);
    cycles = 1 + vp_range (3);
    if (vp_chance (70))
        pthread_barrier_wait (&bar);
    else
        pthread_barrier_wait (&bar), usleep (vp_range (500));
    for (i = 0; i < cycles; i++) {
        VP_CHECK (hev_task_system_init () == 0, "init", "failed");
        n = 1 + vp_range (6);
        for (k = 0; k < n; k++)
            mods[vp_range (NMODS)]();
        if (sharing)
            shared_use (th->index, vp_range (20));
        hev_task_system_run ();
        VP_CHECK (mods_live == 0, "run", "%d programs are left", mods_live);
        hev_task_system_fini ();
        vp_ev ("cycles");
    }
    if (sharing)
        shared_drop (th->index);
    return NULL;
}

static void
run_threads (int k)
{
    static Th th[MAXTH];
    pthread_t id[MAXTH];
    struct timespec end;
    int i;

    pthread_barrier_init (&bar, NULL, k);
    for (i = 0; i < k; i++) {
        th[i].index = i;
        th[i].seed = vp_rnd ();
    }
    for (i = 0; i < k; i++)
        VP_HARNESS (pthread_create (&id[i], NULL, thread, &th[i]) == 0);
    __real_clock_gettime (CLOCK_REALTIME, &end);
    end.tv_sec += 90;
    for (i = 0; i < k; i++)
        VP_CHECK (pthread_timedjoin_np (id[i], NULL, &end) == 0, "hang",
                  "thread %d of %d does not end", i, k);
    pthread_barrier_destroy (&bar);
    vp_jitter = 0;
    for (i = 0; i < nshared; i++)
        VP_CHECK (gone[i] == 1, "destruct",
                  "a shared object was destructed %d times", gone[i]);
}

static int alone;

/* every facility in several threads; one process per case, so that the first
 * uses coincide */
static void
w_mt (uint64_t n)
{
    uint64_t a[16], b[16];
    int k = alone ? 1 : 2 + vp_range (MAXTH - 1);

    order = order_last = order_switches = 0;
    case_seed = vp_rnd () | 1;
    mods_note = note_end;
    vp_gai_hook = mods_gai;
    mods_dns = vp_chance (40);
    sharing = vp_chance (50);
    nshared = sharing ? 1 + vp_range (MAXSH) : 0;
    vp_delay_hook = vp_chance (70) ? any_delay : NULL;
    if (sharing)
        shared_make (k);
    vp_fd_snapshot (a);
    vp_track_reset ();
    vp_track = vp_param;
    run_threads (k);
    vp_delay_hook = NULL;
    if (!mods_dns) {
        vp_fd_snapshot (b);
        VP_CHECK (!memcmp (a, b, sizeof (a)), "fd-leak", "descriptors %s",
                  vp_fd_diff_str (a, b));
        if (vp_param)
            VP_CHECK (vp_track_live () == 0, "leak", "%zu blocks are left",
                      vp_track_live ());
    }
    vp_track = 0;
    vp_mix (order);
    vp_evn ("switches between threads", order_switches);
    if (order_switches > k)
        vp_nontrivial ();
    vp_sample ("%d threads, %s, %d shared objects", k,
               mods_dns ? "with lookups" : "without lookups", nshared);
}

/* the same in one thread */
static void
w_solo (uint64_t n)
{
    alone = 1;
    w_mt (n);
}

/* many threads on the same objects */
static void *
sharer (void *data)
{
    Th *th = data;
    int i;

    vp_rnd_seed (th->seed);
    mine = 1 + th->index;
    pthread_barrier_wait (&bar);
    for (i = 0; i < 20; i++) {
        shared_use (th->index, 10);
        note_end ();
    }
    pthread_barrier_wait (&bar);
    shared_drop (th->index);
    return NULL;
}

static void
w_shared (uint64_t n)
{
    static Th th[MAXTH];
    pthread_t id[MAXTH];
    int i, k = 2 + vp_range (MAXTH - 1);

    order = order_last = order_switches = 0;
    nshared = 1 + vp_range (MAXSH);
    vp_jitter = vp_chance (70);
    shared_make (k);
    pthread_barrier_init (&bar, NULL, k);
    for (i = 0; i < k; i++) {
        th[i].index = i;
        th[i].seed = vp_rnd ();
        VP_HARNESS (pthread_create (&id[i], NULL, sharer, &th[i]) == 0);
    }
    for (i = 0; i < k; i++)
        pthread_join (id[i], NULL);
    pthread_barrier_destroy (&bar);
    vp_jitter = 0;
    for (i = 0; i < nshared; i++)
        VP_CHECK (gone[i] == 1, "destruct",
                  "a shared object was destructed %d times", gone[i]);
    vp_mix (order);
    vp_evn ("switches between threads", order_switches);
    if (order_switches > k)
        vp_nontrivial ();
    vp_sample ("%d threads share %d objects", k, nshared);
}

static const VpWork works[] = {
    { "mt", w_mt },
    { "solo", w_solo },
    { "shared", w_shared },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    return vp_main (argc, argv, works);
}
