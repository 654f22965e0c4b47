/* Name lookups (C24): a stand-in resolver tags every answer. */
#define _GNU_SOURCE
#include "vp.h"
#include <hev-task.h>
#include <hev-task-dns.h>
#include <hev-task-system.h>
#include <netinet/in.h>
#include <pthread.h>

#define MAXQ 4096

enum { ASKED = 1, INSIDE, OUT, BACK };

typedef struct
{
    int kind; /* 0: by name, 1: by address */
    int id;
    int state;
    int release;
    int ret, err;
    int flags;
    /* by name */
    char node[64], service[64];
    int has_node, has_service, has_hints, entries;
    struct addrinfo hints;
    /* by address */
    struct sockaddr_in6 addr;
    socklen_t addrlen, nodelen, servicelen;
} Q;

static Q qs[MAXQ];
static int nq;
static int hold;              /* answers wait for the driver's word */
static int inside;            /* lookups inside the resolver */
static __thread int task_thread;
static uint64_t steps_inside; /* steps of other tasks during lookups */
static uint64_t case_seed;

static int
get (int *p)
{
    return __atomic_load_n (p, __ATOMIC_ACQUIRE);
}

static void
set (int *p, int v)
{
    __atomic_store_n (p, v, __ATOMIC_RELEASE);
}

static void
seed_thread (void)
{
    static __thread uint64_t seeded;
    static int threads;

    if (seeded != case_seed) {
        vp_rnd_seed (vp_hash64 (case_seed, __atomic_fetch_add (
                                               &threads, 1, __ATOMIC_RELAXED)));
        seeded = case_seed;
    }
}

/* ------------------------------------------------------------------ */
/* the stand-in */

static const int codes[] = { EAI_AGAIN, EAI_NONAME, EAI_FAIL,
                             EAI_SYSTEM, EAI_MEMORY, EAI_SERVICE };
static const int errs[] = { ENOENT, ETIMEDOUT, ECONNREFUSED, EMFILE };

static void
visit (Q *q)
{
    int n = 0;

    VP_CHECK (!task_thread, "blocking",
              "the resolver is called on the thread of the tasks");
    VP_CHECK (get (&q->state) == ASKED, "twice", "lookup %d resolved in state %d",
              q->id, q->state);
    set (&q->state, INSIDE);
    __atomic_fetch_add (&inside, 1, __ATOMIC_SEQ_CST);
    if (hold) {
        while (!get (&q->release)) {
            usleep (50);
            VP_CHECK (++n < 600000, "blocked",
                      "the tasks' thread does nothing during a lookup");
        }
    } else {
        seed_thread ();
        if (vp_chance (50))
            usleep (vp_range (300));
    }
    __atomic_fetch_sub (&inside, 1, __ATOMIC_SEQ_CST);
    vp_ev ("resolver calls");
}

static int
same (int has, const char *want, const char *got)
{
    if (!has)
        return got == NULL;
    return got && !strcmp (want, got);
}

static int
gai (const char *node, const char *service, const struct addrinfo *hints,
     struct addrinfo **res)
{
    const char *tag = node ? node : service;
    struct addrinfo *list = NULL;
    int id, i;
    Q *q;

    VP_CHECK (tag && sscanf (tag, "q%d-", &id) == 1 && id >= 0 && id < MAXQ,
              "arguments", "the resolver is asked for %s", tag ? tag : "nothing");
    q = &qs[id];
    VP_CHECK (q->kind == 0, "arguments", "lookup %d was made by address", id);
    VP_CHECK (same (q->has_node, q->node, node) &&
                  same (q->has_service, q->service, service),
              "arguments", "lookup %d changed its names", id);
    VP_CHECK (q->has_hints ? hints && !memcmp (hints, &q->hints,
                                               sizeof (q->hints)) :
                             !hints,
              "arguments", "lookup %d changed its hints", id);
    visit (q);
    if (q->ret == 0) {
        for (i = q->entries - 1; i >= 0; i--) {
            /* one block, as the C library makes them */
            struct addrinfo *a =
                __real_calloc (1, sizeof (*a) + sizeof (struct sockaddr_in));
            struct sockaddr_in *s = (void *)(a + 1);
            a->ai_family = AF_INET;
            a->ai_socktype = i + 1;
            a->ai_addrlen = sizeof (*s);
            a->ai_addr = (struct sockaddr *)s;
            s->sin_family = AF_INET;
            s->sin_port = i;
            s->sin_addr.s_addr = id;
            a->ai_next = list;
            list = a;
        }
        *res = list;
    }
    set (&q->state, OUT);
    errno = q->err;
    return q->ret;
}

static int
gni (const struct sockaddr *addr, socklen_t addrlen, char *node,
     socklen_t nodelen, char *service, socklen_t servicelen, int flags)
{
    const struct sockaddr_in6 *a = (const void *)addr;
    int id;
    Q *q;

    VP_CHECK (addr && addrlen >= sizeof (*a), "arguments", "address length %d",
              (int)addrlen);
    memcpy (&id, &a->sin6_addr, sizeof (id));
    VP_CHECK (id >= 0 && id < MAXQ, "arguments", "address %d", id);
    q = &qs[id];
    VP_CHECK (q->kind == 1, "arguments", "lookup %d was made by name", id);
    VP_CHECK (addrlen == q->addrlen && !memcmp (a, &q->addr, sizeof (*a)) &&
                  nodelen == q->nodelen && servicelen == q->servicelen &&
                  flags == q->flags,
              "arguments", "lookup %d changed its arguments", id);
    VP_CHECK (!node == !nodelen && !service == !servicelen, "arguments",
              "lookup %d lost its buffers", id);
    visit (q);
    if (q->ret == 0) {
        if (node)
            snprintf (node, nodelen, "n%d-%s", id, "abcdefghijklmnopqrstuvw");
        if (service)
            snprintf (service, servicelen, "s%d-%s", id, "zyxwvutsrqponmlkji");
    }
    set (&q->state, OUT);
    errno = q->err;
    return q->ret;
}

/* ------------------------------------------------------------------ */
/* asking */

static Q *
q_new (void)
{
    int id = __atomic_fetch_add (&nq, 1, __ATOMIC_SEQ_CST);
    Q *q = &qs[id];

    VP_HARNESS (id < MAXQ);
    memset (q, 0, sizeof (*q));
    q->id = id;
    q->kind = vp_chance (40);
    q->err = errs[vp_range (4)];
    if (vp_chance (35))
        q->ret = codes[vp_range (6)];
    if (q->kind == 0) {
        q->has_node = vp_chance (80);
        q->has_service = !q->has_node || vp_chance (50);
        snprintf (q->node, sizeof (q->node), "q%d-node%u", id, vp_range (1000));
        snprintf (q->service, sizeof (q->service), "q%d-srv%u", id,
                  vp_range (1000));
        q->has_hints = vp_chance (60);
        q->hints.ai_flags = vp_range (64);
        q->hints.ai_family = vp_chance (50) ? AF_INET : AF_UNSPEC;
        q->hints.ai_socktype = vp_range (4);
        q->hints.ai_protocol = vp_range (20);
        q->entries = 1 + vp_range (4);
    } else {
        q->addr.sin6_family = AF_INET6;
        q->addr.sin6_port = vp_range (65536);
        memcpy (&q->addr.sin6_addr, &id, sizeof (id));
        q->addrlen = sizeof (q->addr);
        q->nodelen = vp_chance (80) ? 1 + vp_range (60) : 0;
        q->servicelen = !q->nodelen || vp_chance (60) ? 1 + vp_range (40) : 0;
        q->flags = vp_range (64);
    }
    return q;
}

static void
q_ask (Q *q)
{
    struct addrinfo *list = (void *)0x5a5a, *a;
    struct addrinfo hints = q->hints;
    struct sockaddr_in6 addr = q->addr;
    char node[128], service[128], want[64];
    char qn[64], qv[64];
    int ret, err, i;

    strcpy (qn, q->node);
    strcpy (qv, q->service);
    memset (node, 0x7e, sizeof (node));
    memset (service, 0x7e, sizeof (service));
    set (&q->state, ASKED);
    errno = 0;
    if (q->kind == 0)
        ret = hev_task_dns_getaddrinfo (q->has_node ? qn : NULL,
                                        q->has_service ? qv : NULL,
                                        q->has_hints ? &hints : NULL, &list);
    else
        ret = hev_task_dns_getnameinfo (
            (struct sockaddr *)&addr, q->addrlen, q->nodelen ? node : NULL,
            q->nodelen, q->servicelen ? service : NULL, q->servicelen,
            q->flags);
    err = errno;
    VP_CHECK (get (&q->state) == OUT, "early",
              "lookup %d returned %d in state %d", q->id, ret, q->state);
    set (&q->state, BACK);
    VP_CHECK (ret == q->ret, "code", "lookup %d returned %d instead of %d",
              q->id, ret, q->ret);
    if (ret == EAI_SYSTEM)
        VP_CHECK (err == q->err, "errno", "lookup %d: errno %d instead of %d",
                  q->id, err, q->err);
    vp_ev (ret ? "failures passed on" : "answers passed on");
    if (q->kind == 0 && ret == 0) {
        for (i = 0, a = list; a; a = a->ai_next, i++) {
            struct sockaddr_in *s = (void *)a->ai_addr;
            VP_CHECK (a->ai_socktype == i + 1 && s->sin_port == i &&
                          (int)s->sin_addr.s_addr == q->id,
                      "answer", "lookup %d got the answer to lookup %d", q->id,
                      (int)s->sin_addr.s_addr);
        }
        VP_CHECK (i == q->entries, "answer", "%d of %d addresses", i,
                  q->entries);
        while (list) {
            a = list->ai_next;
            __real_free (list);
            list = a;
        }
    }
    if (q->kind == 1) {
        if (ret == 0 && q->nodelen) {
            snprintf (want, q->nodelen, "n%d-%s", q->id,
                      "abcdefghijklmnopqrstuvw");
            VP_CHECK (!strcmp (node, want), "answer",
                      "lookup %d got the name %.60s", q->id, node);
        }
        if (ret == 0 && q->servicelen) {
            snprintf (want, q->servicelen, "s%d-%s", q->id,
                      "zyxwvutsrqponmlkji");
            VP_CHECK (!strcmp (service, want), "answer",
                      "lookup %d got the service %.60s", q->id, service);
        }
        for (i = q->nodelen; i < (int)sizeof (node); i++)
            VP_CHECK (node[i] == 0x7e, "overrun", "past the name");
        for (i = q->servicelen; i < (int)sizeof (service); i++)
            VP_CHECK (service[i] == 0x7e, "overrun", "past the service");
    }
}

/* ------------------------------------------------------------------ */
/* one thread, the driver decides when the resolver answers */

#define MAXT 10

typedef struct
{
    HevTask *h;
    int live, kind, count;
} T;

static T ts[MAXT];
static int nt, lookers, patience, ended;

static int
d_idle (void)
{
    int i, open = 0;

    for (i = 0; i < nq; i++) {
        int st = get (&qs[i].state);
        if (st == INSIDE && !get (&qs[i].release)) {
            if (vp_vt_armed () && vp_chance (60))
                return 0;
            vp_ev ("answers given while all tasks wait");
            patience = 0;
            set (&qs[i].release, 1);
            return 1;
        }
        if (st == ASKED || st == INSIDE || st == OUT)
            open++;
    }
    if (!open)
        return 0;
    if (vp_vt_armed () && vp_chance (5))
        return 0;
    VP_CHECK (++patience < 400000, "lost",
              "%d lookups are never answered", open);
    usleep (50);
    return 1;
}

static void
d_poll_hook (int timeout)
{
    int i;

    if (timeout < 0)
        return;
    for (i = 0; i < nq; i++)
        if (get (&qs[i].state) == INSIDE && !get (&qs[i].release) &&
            vp_chance (10)) {
            patience = 0;
            set (&qs[i].release, 1);
        }
}

static void
t_entry (void *data)
{
    T *t = data;
    int i;

    switch (t->kind) {
    case 0: /* looks up */
        while (t->count--) {
            Q *q;
            if (vp_chance (20))
                hev_task_sleep (vp_range (20));
            q = q_new ();
            vp_mix (q->kind * 2 + !!q->ret);
            q_ask (q);
            if (vp_chance (20))
                hev_task_yield (HEV_TASK_YIELD);
        }
        lookers--;
        break;
    case 1: /* other work */
        while (lookers && t->count--) {
            if (vp_chance (70))
                hev_task_yield (HEV_TASK_YIELD);
            else
                hev_task_sleep (1 + vp_range (10));
            if (get (&inside)) {
                steps_inside++;
                vp_ev ("steps of other tasks during lookups");
            }
        }
        break;
    default: /* wakes anybody */
        while (lookers && t->count--) {
            i = vp_range (nt);
            if (ts[i].live && ts[i].kind == 0) {
                hev_task_wakeup (ts[i].h);
                vp_ev ("spurious wake-ups");
            }
            if (vp_chance (50))
                hev_task_yield (HEV_TASK_YIELD);
            else
                hev_task_sleep (vp_range (5));
        }
    }
    t->live = 0;
    ended++;
}

static void
aide_delay (const char *op)
{
    if (task_thread)
        return;
    seed_thread ();
    if (vp_chance (30))
        usleep (vp_range (vp_chance (20) ? 2000 : 100));
}

static void
warm_up_task (void *data)
{
    q_ask (q_new ());
}

/* the helper thread starts with the first lookup and stays */
static void
warm_up (void)
{
    static int done;
    int h = hold;

    if (done)
        return;
    done = 1;
    hold = 0;
    nq = 0;
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    hev_task_run (hev_task_new (-1), warm_up_task, NULL);
    hev_task_system_run ();
    hev_task_system_fini ();
    hold = h;
}

static void
w_one (uint64_t n)
{
    uint64_t a[16], b[16];
    int i, cycles = 1 + vp_range (3);

    case_seed = vp_rnd () | 1;
    vp_gai_hook = gai;
    vp_gni_hook = gni;
    task_thread = 1;
    warm_up ();
    vp_delay_hook = aide_delay;
    vp_fd_snapshot (a);
    vp_track_reset ();
    vp_track = 1;
    while (cycles--) {
        nq = 0;
        hold = vp_chance (75);
        patience = 0;
        vp_vt_start (1000000000ull + vp_rnd () % 1000000000000ull);
        vp_idle_hook = d_idle;
        vp_poll_hook = d_poll_hook;
        vp_shuffle = vp_chance (30);
        VP_CHECK (hev_task_system_init () == 0, "init", "init");
        lookers = 1 + vp_range (4);
        nt = lookers + vp_range (4);
        ended = 0;
        for (i = 0; i < nt; i++) {
            T *t = &ts[i];
            t->kind = i < lookers ? 0 : 1 + vp_range (2);
            t->count = t->kind ? 20 + vp_range (200) : 1 + vp_range (4);
            t->live = 1;
            t->h = hev_task_new (-1);
            if (vp_chance (40))
                hev_task_set_priority (t->h, vp_range (16));
        }
        for (i = 0; i < nt; i++)
            hev_task_run (ts[i].h, t_entry, &ts[i]);
        hev_task_system_run ();
        VP_CHECK (ended == nt, "run", "%d of %d tasks ended", ended, nt);
        vp_vt_stop ();
        hev_task_system_fini ();
        for (i = 0; i < nq; i++)
            VP_CHECK (qs[i].state == BACK, "lost", "lookup %d", i);
        vp_evn ("lookups", nq);
        vp_ev ("cycles");
        vp_mix (nq);
    }
    vp_delay_hook = NULL;
    vp_track = 0;
    for (i = 0;; i++) {
        vp_fd_snapshot (b);
        if (!memcmp (a, b, sizeof (a)) && !vp_track_live ())
            break;
        /* what the helper thread gives back may take a moment */
        VP_CHECK (i < 20000, "leak", "descriptors %s, %zu blocks",
                  vp_fd_diff_str (a, b), vp_track_live ());
        usleep (500);
    }
    vp_nontrivial ();
    vp_sample ("%d lookups by %d tasks of %d in the last cycle", nq, lookers, nt);
}

/* ------------------------------------------------------------------ */
/* many threads, whose first lookups coincide; one process per case */

#define MAXTH 8

static pthread_barrier_t bar;

typedef struct
{
    int index, left;
    uint64_t seed;
} Th;

static void
any_delay (const char *op)
{
    seed_thread ();
    if (vp_chance (40))
        usleep (vp_range (vp_chance (20) ? 1500 : 80));
}

static void
th_look (void *data)
{
    Th *th = data;
    int n = 1 + vp_range (3);

    while (n--) {
        q_ask (q_new ());
        vp_ev ("lookups");
    }
    th->left--;
}

static void
th_other (void *data)
{
    Th *th = data;

    while (th->left) {
        hev_task_sleep (1);
        if (get (&inside))
            vp_ev ("steps of other tasks during lookups");
    }
}

static void *
thread (void *data)
{
    Th *th = data;
    int cycles, i;

    task_thread = 1;
    vp_rnd_seed (th->seed);
    cycles = 1 + vp_range (3);
    for (i = 0; i < cycles; i++) {
        int k, tasks = 1 + vp_range (3);

        VP_CHECK (hev_task_system_init () == 0, "init", "init");
        th->left = tasks;
        for (k = 0; k < tasks; k++)
            hev_task_run (hev_task_new (-1), th_look, th);
        if (vp_chance (40))
            hev_task_run (hev_task_new (-1), th_other, th);
        if (i == 0)
            pthread_barrier_wait (&bar);
        hev_task_system_run ();
        VP_CHECK (th->left == 0, "run", "tasks are left");
        hev_task_system_fini ();
        vp_ev ("cycles");
    }
    return NULL;
}

static void
w_threads (uint64_t n)
{
    static Th th[MAXTH];
    pthread_t id[MAXTH];
    struct timespec end;
    int k, i;

    case_seed = vp_rnd () | 1;
    vp_gai_hook = gai;
    vp_gni_hook = gni;
    hold = 0;
    nq = 0;
    k = 2 + vp_range (MAXTH - 1);
    vp_delay_hook = vp_chance (80) ? any_delay : NULL;
    pthread_barrier_init (&bar, NULL, k);
    for (i = 0; i < k; i++) {
        th[i].index = i;
        th[i].seed = vp_rnd ();
    }
    for (i = 0; i < k; i++)
        VP_HARNESS (pthread_create (&id[i], NULL, thread, &th[i]) == 0);
    __real_clock_gettime (CLOCK_REALTIME, &end);
    end.tv_sec += 60;
    for (i = 0; i < k; i++)
        VP_CHECK (pthread_timedjoin_np (id[i], NULL, &end) == 0, "hang",
                  "thread %d of %d does not end", i, k);
    for (i = 0; i < nq; i++)
        VP_CHECK (qs[i].state == BACK, "lost", "lookup %d", i);
    vp_delay_hook = NULL;
    pthread_barrier_destroy (&bar);
    vp_ev ("concurrent first lookups");
    vp_mix (vp_hash64 (k, nq));
    for (i = 0; i < nq; i++)
        vp_mix (qs[i].kind * 2 + !!qs[i].ret);
    vp_nontrivial ();
    vp_sample ("%d threads, %d lookups", k, nq);
}

/* ------------------------------------------------------------------ */
/* the system's resolver, for what it knows without a network */

static int r_left;

static void
real_task (void *data)
{
    static const char *const nodes[] = { "127.0.0.1", "::1", "10.1.2.3",
                                         "not an address", "1.2.3.4.5",
                                         "fe80::1",   "0x7f.1" };
    static const char *const services[] = { "80", "0", "65535", "none", "22" };
    struct addrinfo hints, *x = NULL, *y = NULL, *i, *j;
    const char *node = vp_chance (85) ? nodes[vp_range (7)] : NULL;
    const char *service =
        !node || vp_chance (50) ? services[vp_range (5)] : NULL;
    int r1, r2, fl;

    memset (&hints, 0, sizeof (hints));
    hints.ai_flags = AI_NUMERICHOST | AI_NUMERICSERV |
                     (vp_chance (50) ? AI_PASSIVE : 0);
    hints.ai_family = vp_chance (50) ? AF_UNSPEC :
                      vp_chance (50) ? AF_INET :
                                       AF_INET6;
    hints.ai_socktype = vp_range (4);
    r1 = getaddrinfo (node, service, &hints, &x);
    r2 = hev_task_dns_getaddrinfo (node, service, &hints, &y);
    VP_CHECK (r1 == r2, "code", "%s %s: %d instead of %d",
              node ? node : "-", service ? service : "-", r2, r1);
    if (r1 == 0) {
        for (i = x, j = y; i && j; i = i->ai_next, j = j->ai_next)
            VP_CHECK (i->ai_family == j->ai_family &&
                          i->ai_socktype == j->ai_socktype &&
                          i->ai_protocol == j->ai_protocol &&
                          i->ai_addrlen == j->ai_addrlen &&
                          !memcmp (i->ai_addr, j->ai_addr, i->ai_addrlen),
                      "answer", "another address for %s", node);
        VP_CHECK (!i && !j, "answer", "another number of addresses");
        for (i = x; i; i = i->ai_next) {
            char n1[NI_MAXHOST], n2[NI_MAXHOST], s1[NI_MAXSERV], s2[NI_MAXSERV];
            socklen_t nl = 1 + vp_range (sizeof (n1));
            socklen_t sl = 1 + vp_range (sizeof (s1));

            fl = NI_NUMERICHOST | NI_NUMERICSERV;
            r1 = getnameinfo (i->ai_addr, i->ai_addrlen, n1, nl, s1, sl, fl);
            r2 = hev_task_dns_getnameinfo (i->ai_addr, i->ai_addrlen, n2, nl, s2,
                                           sl, fl);
            VP_CHECK (r1 == r2, "code", "by address: %d instead of %d", r2, r1);
            if (r1 == 0)
                VP_CHECK (!strcmp (n1, n2) && !strcmp (s1, s2), "answer",
                          "%s %s instead of %s %s", n2, s2, n1, s1);
            vp_mix (r1 + 1000);
        }
        freeaddrinfo (x);
        freeaddrinfo (y);
    }
    vp_ev ("lookups by the system's resolver");
    vp_mix (r1);
    r_left--;
}

static void
w_real (uint64_t n)
{
    int i, k = 1 + vp_range (5);

    vp_gai_hook = NULL;
    vp_gni_hook = NULL;
    vp_delay_hook = NULL;
    VP_CHECK (hev_task_system_init () == 0, "init", "init");
    r_left = k;
    for (i = 0; i < k; i++)
        hev_task_run (hev_task_new (512 * 1024), real_task, NULL);
    hev_task_system_run ();
    VP_CHECK (r_left == 0, "run", "%d tasks are left", r_left);
    hev_task_system_fini ();
    vp_nontrivial ();
    vp_sample ("%d tasks ask the system's resolver", k);
}

static const VpWork works[] = {
    { "one", w_one },
    { "threads", w_threads },
    { "real", w_real },
    { NULL, NULL },
};

int
main (int argc, char **argv)
{
    return vp_main (argc, argv, works);
}
