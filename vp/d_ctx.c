/* Context switches, stacks, calls on separate stacks. */
#include "vp.h"
#include <ucontext.h>
#include <alloca.h>
#include <pthread.h>
#include <signal.h>
#include <sys/wait.h>
#include <hev-task-system.h>
#include <hev-task.h>
#include <hev-task-call.h>
#include <hev-task-channel.h>
#include <hev-task-channel-select.h>
#include <hev-task-io.h>
#include <hev-task-mutex.h>
#include <hev-task-cond.h>
#include <hev-memory-allocator.h>

/* ---- callee-saved registers across a call of fn(arg) ---- */

typedef void (*Fn) (void *);
uint64_t vp_reg_call (const uint64_t vals[6], Fn fn, void *arg);

#if defined(__x86_64__)
__asm__ (".text\n"
         ".globl vp_reg_call\n"
         ".type vp_reg_call,@function\n"
         "vp_reg_call:\n"
         "  push %rbx\n  push %rbp\n  push %r12\n  push %r13\n"
         "  push %r14\n  push %r15\n  push %rdi\n"
         "  mov %rsi, %rax\n"
         "  mov %rdi, %r10\n"
         "  mov %rdx, %rdi\n"
         "  mov 0(%r10), %rbx\n  mov 8(%r10), %rbp\n"
         "  mov 16(%r10), %r12\n  mov 24(%r10), %r13\n"
         "  mov 32(%r10), %r14\n  mov 40(%r10), %r15\n"
         "  call *%rax\n"
         "  pop %r10\n"
         "  xor %eax, %eax\n"
         "  cmp 0(%r10), %rbx\n  je 1f\n  or $1, %eax\n1:\n"
         "  cmp 8(%r10), %rbp\n  je 1f\n  or $2, %eax\n1:\n"
         "  cmp 16(%r10), %r12\n  je 1f\n  or $4, %eax\n1:\n"
         "  cmp 24(%r10), %r13\n  je 1f\n  or $8, %eax\n1:\n"
         "  cmp 32(%r10), %r14\n  je 1f\n  or $16, %eax\n1:\n"
         "  cmp 40(%r10), %r15\n  je 1f\n  or $32, %eax\n1:\n"
         "  pop %r15\n  pop %r14\n  pop %r13\n  pop %r12\n"
         "  pop %rbp\n  pop %rbx\n"
         "  ret\n"
         ".size vp_reg_call,.-vp_reg_call\n"
         ".section .note.GNU-stack,\"\",@progbits\n"
         ".text\n");
#else
uint64_t
vp_reg_call (const uint64_t vals[6], Fn fn, void *arg)
{
    fn (arg);
    return 0;
}
#endif

/* ------------------------------------------------------------------ */

#define MAXT 32
typedef struct
{
    HevTask *h;
    int state; /* 0 unused/ended, 1 runnable, 2 waiting */
    int quota;
    int stack;
    char *top;
    int depth_max;
    int keeper;
    int frame_max;
} T;

static T ts[MAXT];
static int nts, active, owner;
static uint64_t turns, n_switch;
static int mix_api;

static void
resumed (int me)
{
    VP_CHECK (owner == -1, "overlap", "task %d resumed while %d runs", me,
              owner);
    owner = me;
    turns++;
    n_switch++;
    ts[me].state = 1;
    vp_mix (me + 1);
    VP_CHECK (hev_task_self () == ts[me].h, "self", "self is not task %d", me);
}

typedef struct
{
    int me;
    int wait;
} Susp;

static void
suspend (void *arg)
{
    Susp *s = arg;

    VP_CHECK (owner == s->me, "overlap", "task %d runs, owner %d", s->me,
              owner);
    ts[s->me].state = s->wait ? 2 : 1;
    owner = -1;
    if (s->wait == 2)
        hev_task_usleep (1 + vp_range (100));
    else
        hev_task_yield (s->wait ? HEV_TASK_WAITIO : HEV_TASK_YIELD);
    resumed (s->me);
    vp_ev ("suspensions");
}

static void
susp (int me)
{
    uint64_t v[6], m;
    Susp s;
    int i;

    for (i = 0; i < 6; i++)
        v[i] = vp_rnd ();
    s.me = me;
    s.wait = vp_range (3);
    if (ts[me].keeper)
        s.wait = vp_chance (30) ? 2 : 0;
    m = vp_reg_call (v, suspend, &s);
    VP_CHECK (m == 0, "registers",
              "callee-saved registers of task %d changed (mask %lx)", me,
              (unsigned long)m);
    vp_ev ("register sets compared");
}

/* tasks started by others in between */
enum
{
    X_END,
    X_PLAIN,
    X_MUTEX,
    X_COND,
    X_CHAN,
    X_CHAN_WRITE,
    X_IO,
    X_SELECT,
    X_N
};

typedef struct
{
    HevTaskMutex mx;
    HevTaskCond cv;
    HevTaskChannel *a, *b;
    int fd[2];
    int at, go, over;
} Meet;

typedef struct
{
    HevTask *h;
    Meet *m;
    int kind, over;
} Extra;

#define MAXE 60

static Extra extras[MAXE];
static int n_extra;

static void
extra_resumed (void)
{
    VP_CHECK (owner == -1, "overlap", "a started task runs while %d runs",
              owner);
    turns++;
}

static void
extra_entry (void *data)
{
    Extra *x = data;
    Meet *m = x->m;
    HevTaskChannelSelect *sel;
    char c;

    extra_resumed ();
    if (m)
        m->at++;
    switch (x->kind) {
    case X_END:
        while (vp_chance (30)) {
            hev_task_yield (HEV_TASK_YIELD);
            extra_resumed ();
        }
        break;
    case X_PLAIN:
        while (!m->go) {
            hev_task_yield (HEV_TASK_WAITIO);
            extra_resumed ();
        }
        break;
    case X_MUTEX:
        hev_task_mutex_lock (&m->mx);
        extra_resumed ();
        hev_task_mutex_unlock (&m->mx);
        break;
    case X_COND:
        hev_task_mutex_lock (&m->mx);
        while (!m->go)
            hev_task_cond_wait (&m->cv, &m->mx);
        extra_resumed ();
        hev_task_mutex_unlock (&m->mx);
        break;
    case X_CHAN:
        hev_task_channel_read (m->a, &c, 1);
        extra_resumed ();
        break;
    case X_CHAN_WRITE:
        c = 'x';
        hev_task_channel_write (m->a, &c, 1);
        hev_task_channel_write (m->a, &c, 1);
        extra_resumed ();
        break;
    case X_IO:
        hev_task_add_fd (x->h, m->fd[0], POLLIN);
        hev_task_io_read (m->fd[0], &c, 1, NULL, NULL);
        hev_task_del_fd (x->h, m->fd[0]);
        extra_resumed ();
        break;
    case X_SELECT:
        sel = hev_task_channel_select_new ();
        VP_HARNESS (sel);
        hev_task_channel_select_add (sel, m->a);
        hev_task_channel_select_read (sel, -1);
        extra_resumed ();
        hev_task_channel_select_del (sel, m->a);
        hev_task_channel_select_destroy (sel);
        break;
    }
    x->over = 1;
    if (m)
        m->over++;
}

static int
extra_start (Meet *m, int kind)
{
    Extra *x;

    if (n_extra == MAXE)
        return 0;
    x = &extras[n_extra++];
    x->kind = kind;
    x->m = m;
    x->over = 0;
    x->h = hev_task_new (65536);
    VP_HARNESS (x->h);
    hev_task_set_priority (x->h, vp_range (16));
    hev_task_ref (x->h);
    hev_task_run (x->h, extra_entry, x);
    vp_ev ("tasks started by tasks");
    return 1;
}

/* calls that make others runnable must not give up the processor either */
static void
calm_wakes (int me)
{
    int kind = vp_between (X_PLAIN, X_N - 1), n = vp_between (1, 3), i;
    uint64_t t0;
    char c = 'c';
    Meet m;

    memset (&m, 0, sizeof (m));
    if (n_extra + n > MAXE)
        return;
    if (kind >= X_CHAN)
        n = 1;
    hev_task_mutex_init (&m.mx);
    hev_task_cond_init (&m.cv);
    VP_HARNESS (hev_task_channel_new_with_buffers (&m.a, &m.b, 8, 1) == 0);
    vp_pipe (m.fd);
    if (kind == X_MUTEX)
        hev_task_mutex_lock (&m.mx);
    t0 = turns;
    for (i = 0; i < n; i++)
        extra_start (&m, kind);
    VP_CHECK (turns == t0 && owner == me, "involuntary",
              "starting tasks switched tasks");
    while (m.at < n)
        susp (me);
    t0 = turns;
    m.go = 1;
    switch (kind) {
    case X_PLAIN:
        for (i = 0; i < n_extra; i++)
            if (extras[i].m == &m && !extras[i].over)
                hev_task_wakeup (extras[i].h);
        break;
    case X_MUTEX:
        hev_task_mutex_unlock (&m.mx);
        break;
    case X_COND:
        if (vp_chance (50)) {
            hev_task_cond_broadcast (&m.cv);
        } else {
            for (i = 0; i < n; i++)
                hev_task_cond_signal (&m.cv);
        }
        break;
    case X_CHAN:
    case X_SELECT:
        if (kind == X_SELECT || vp_chance (50)) {
            hev_task_channel_write (m.b, &c, 1);
        } else {
            hev_task_channel_destroy (m.b);
            m.b = NULL;
        }
        break;
    case X_CHAN_WRITE:
        if (vp_chance (50)) {
            hev_task_channel_read (m.b, &c, 1);
        } else {
            hev_task_channel_destroy (m.b);
            m.b = NULL;
        }
        break;
    case X_IO:
        hev_task_io_write (m.fd[1], &c, 1, NULL, NULL);
        break;
    }
    VP_CHECK (turns == t0 && owner == me, "involuntary",
              "a call that wakes others switched tasks (kind %d)", kind);
    vp_evn ("tasks woken without a switch", n);
    while (m.over < n)
        susp (me);
    for (i = 0; i < n_extra; i++)
        if (extras[i].m == &m)
            extras[i].m = NULL;
    hev_task_channel_destroy (m.a);
    if (m.b)
        hev_task_channel_destroy (m.b);
    close (m.fd[0]);
    close (m.fd[1]);
}

/* calls that must not give up the processor */
static void
calm_calls (int me)
{
    uint64_t t0 = turns;
    HevTaskMutex mx;
    HevTaskCond cv;
    HevTaskChannel *a, *b;
    HevTask *h;
    int i, x = 0x1234;

    switch (vp_range (10)) {
    case 8:
        extra_start (NULL, X_END);
        break;
    case 9:
        for (i = 0; i < n_extra; i++) {
            if (extras[i].over) {
                VP_CHECK (hev_task_join (extras[i].h) == 0, "join",
                          "join of an ended task");
                vp_ev ("ended tasks joined");
            }
        }
        break;
    case 0:
        for (i = 0; i < nts; i++)
            if (ts[i].state)
                hev_task_wakeup (ts[i].h);
        break;
    case 1:
        h = hev_task_new (vp_range (3) * 4096 + 65536);
        VP_HARNESS (h);
        hev_task_set_priority (h, vp_range (16));
        hev_task_ref (h);
        hev_task_unref (h);
        hev_task_unref (h);
        break;
    case 2:
        hev_task_mutex_init (&mx);
        hev_task_mutex_lock (&mx);
        VP_CHECK (hev_task_mutex_trylock (&mx) == -1, "trylock", "trylock");
        hev_task_mutex_unlock (&mx);
        break;
    case 3:
        hev_task_cond_init (&cv);
        hev_task_cond_signal (&cv);
        hev_task_cond_broadcast (&cv);
        break;
    case 4:
        VP_HARNESS (hev_task_channel_new_with_buffers (&a, &b, 8, 2) == 0);
        hev_task_channel_write (a, &x, sizeof (x));
        hev_task_channel_write (a, &x, sizeof (x));
        hev_task_channel_read (b, &x, sizeof (x));
        hev_task_channel_destroy (a);
        hev_task_channel_read (b, &x, sizeof (x));
        hev_task_channel_read (b, &x, sizeof (x));
        hev_task_channel_destroy (b);
        break;
    case 5:
        hev_task_set_priority (hev_task_self (), vp_between (1, 15));
        hev_task_get_priority (hev_task_self ());
        hev_task_get_state (hev_task_self ());
        hev_task_get_data (hev_task_self ());
        break;
    case 6:
        h = hev_task_new (65536);
        VP_HARNESS (h);
        VP_CHECK (hev_task_join (h) == 0, "join", "join of an idle task");
        hev_task_unref (h);
        break;
    case 7:
        hev_free (hev_malloc (1 + vp_range (5000)));
        hev_task_usleep (0);
        hev_task_sleep (0);
        break;
    }
    VP_CHECK (turns == t0 && owner == me, "involuntary",
              "a call that never waits switched tasks");
    vp_ev ("calls that must not switch");
}

static void __attribute__ ((noinline)) frames (int me, int depth);

static void __attribute__ ((noinline))
body (int me, int depth, volatile unsigned char *buf, unsigned len)
{
    T *t = &ts[me];
    unsigned char k = (unsigned char)vp_rnd ();
    uint64_t l0 = vp_rnd (), l1 = l0 * 3 + 1, l2 = l1 ^ 0x55aa;
    double d0 = (double)(l0 >> 20) * 0.5;
    volatile uint64_t v0 = l0;
    unsigned i;
    int n = 1 + vp_range (4);

    for (i = 0; i < len; i++)
        buf[i] = (unsigned char)(k + i * 7);
    while (n-- && t->quota > 0) {
        t->quota--;
        if (mix_api && vp_chance (25))
            calm_calls (me);
        if (mix_api && vp_chance (4))
            calm_wakes (me);
        if (depth < t->depth_max && vp_chance (50))
            frames (me, depth + 1);
        else
            susp (me);
        vp_scribble ();
        for (i = 0; i < len; i++)
            VP_CHECK (buf[i] == (unsigned char)(k + i * 7), "stack-contents",
                      "stack of task %d changed at depth %d (+%u)", me, depth,
                      i);
        VP_CHECK (l1 == l0 * 3 + 1 && l2 == (l1 ^ 0x55aa) && v0 == l0 &&
                      d0 == (double)(l0 >> 20) * 0.5,
                  "locals", "locals of task %d changed at depth %d", me, depth);
        VP_CHECK (owner == me, "overlap", "task %d, owner %d", me, owner);
        vp_ev ("frames compared");
    }
}

static void __attribute__ ((noinline))
frames (int me, int depth)
{
    unsigned len = vp_range (ts[me].frame_max) + 1;

    body (me, depth, alloca (len), len);
}

static void
ctx_entry (void *data)
{
    int me = (int)(intptr_t)data;

    VP_CHECK (((uintptr_t)__builtin_frame_address (0) & 15) == 0, "alignment",
              "stack of task %d not aligned", me);
    resumed (me);
    if (ts[me].keeper) {
        while (active > 1) {
            int i;
            susp (me);
            i = vp_range (nts);
            if (ts[i].state == 2 && vp_chance (70))
                hev_task_wakeup (ts[i].h);
        }
    } else {
        while (ts[me].quota > 0)
            frames (me, 0);
    }
    ts[me].state = 0;
    active--;
    owner = -1;
    if (vp_chance (30))
        hev_task_exit ();
}

static void
sys_begin (void)
{
    vp_vt_start (1000000000ull + vp_rnd () % 3000000000ull);
    vp_tick_ns = vp_chance (50) ? 0 : 1 + vp_range (5000);
    vp_shuffle = vp_chance (50);
    vp_quarantine = 1;
    VP_CHECK (hev_task_system_init () == 0, "init", "init failed");
}

static void
sys_end (void)
{
    hev_task_system_fini ();
    vp_vt_stop ();
}

static void
w_ctx (uint64_t n)
{
    int i;

    memset (ts, 0, sizeof (ts));
    owner = -1;
    turns = n_switch = 0;
    n_extra = 0;
    mix_api = vp_chance (60);
    sys_begin ();
    nts = active = vp_between (2, 12);
    for (i = 0; i < nts; i++) {
        T *t = &ts[i];
        t->depth_max = vp_range (12);
        t->frame_max = vp_chance (50) ? 64 : 2000;
        t->quota = 5 + vp_range (40);
        t->stack = 4096 * vp_between (24, 40);
        t->h = hev_task_new (t->stack);
        VP_HARNESS (t->h);
        if (vp_chance (50))
            hev_task_set_priority (t->h, vp_between (1, 15));
        t->state = 1;
        t->keeper = i == nts - 1;
        hev_task_ref (t->h);
        hev_task_run (t->h, ctx_entry, (void *)(intptr_t)i);
    }
    hev_task_system_run ();
    VP_CHECK (active == 0, "run-early", "%d tasks not ended", active);
    for (i = 0; i < nts; i++)
        hev_task_unref (ts[i].h);
    for (i = 0; i < n_extra; i++) {
        VP_CHECK (extras[i].over, "run-early", "a started task has not ended");
        hev_task_unref (extras[i].h);
    }
    sys_end ();
    if (n_switch > 10)
        vp_nontrivial ();
    vp_evn ("task switches", n_switch);
    vp_sample ("%d tasks, %lu switches", nts, (unsigned long)n_switch);
}

/* ------------------------------------------------------------------ */
/* calls on separate stacks */

typedef struct
{
    HevTaskCall base;
    uint64_t magic[6];
    int me, level;
    int stack;
    char *from;
    void *ret;
    int calls;
    int size;
    int set;
} Call;

static int call_levels;

static void do_call (int me, int level);

/* the whole object belongs to the caller */
static void
check_object (Call *c, const char *when)
{
    unsigned char *p = (unsigned char *)c;
    int i;

    for (i = 0; i < 6; i++)
        VP_CHECK (c->magic[i] == vp_hash64 (c->me, c->level * 10 + i),
                  "call-data", "the call object changed %s", when);
    for (i = sizeof (Call); i < c->size; i++)
        VP_CHECK (p[i] == (unsigned char)(i + c->me), "call-data",
                  "byte %d of %d of the call object changed %s", i, c->size,
                  when);
}

static void __attribute__ ((noinline, no_sanitize ("address")))
use_depth (volatile char *lo, volatile char *hi, int pat)
{
    volatile char *p;

    for (p = lo; p < hi; p++)
        *p = (char)(pat + (uintptr_t)p);
    for (p = lo; p < hi; p++)
        if (*p != (char)(pat + (uintptr_t)p))
            vp_fail ("stack-contents", "far end of the stack does not hold");
}

static void
call_entry (HevTaskCall *base)
{
    Call *c = (Call *)base;
    char *here = __builtin_frame_address (0);
    char *lo = here - (c->stack - 256);
    int n, me = c->me, level = c->level, i;
    unsigned char canary[100];

    c->calls++;
    VP_CHECK (owner == me, "overlap", "call of task %d, owner %d", me, owner);
    VP_CHECK (here < c->from - 4096 || here > c->from + 4096, "call-stack",
              "call runs at %p, on its caller's stack (%p)", (void *)here,
              (void *)c->from);
    VP_CHECK (((uintptr_t)here & 15) == 0, "alignment", "call stack alignment");
    check_object (c, "by the call");
    /* nearly all of the requested stack is usable */
    use_depth (lo, here - 700, me + level);
    check_object (c, "when the stack of the call was used");
    memset (canary, me * 16 + level, sizeof (canary));
    n = vp_range (4);
    while (n--) {
        if (vp_chance (40) && level < call_levels)
            do_call (me, level + 1);
        else
            susp (me);
        vp_scribble ();
        for (i = 0; i < (int)sizeof (canary); i++)
            VP_CHECK (canary[i] == (unsigned char)(me * 16 + level),
                      "stack-contents", "frame inside the call changed");
    }
    c->set = !vp_chance (10);
    if (c->set) {
        c->ret = (void *)(uintptr_t)vp_rnd ();
        hev_task_call_set_retval (&c->base, c->ret);
    }
    vp_ev ("call entries");
}

typedef struct
{
    Call *c;
    void *ret;
} JumpArg;

static void
jump (void *arg)
{
    JumpArg *a = arg;
    a->c->from = __builtin_frame_address (0);
    a->ret = hev_task_call_jump (&a->c->base, call_entry);
}

static void
do_call (int me, int level)
{
    static const int sizes[] = { 12000, 12288, 16384, 16001, 16003, 20007,
                                 32768, 40000 };
    int st = sizes[vp_range (ARRAY_LEN (sizes))];
    int base = sizeof (Call) + (vp_chance (60) ? vp_range (3) * 8 :
                                                 vp_range (6000));
    int i, times;
    Call *c = (Call *)hev_task_call_new (base, st);
    unsigned char canary[64];
    uint64_t v[6], m;
    JumpArg a;

    VP_CHECK (c, "create", "hev_task_call_new failed");
    memset (canary, me + level, sizeof (canary));
    for (i = 0; i < 6; i++)
        c->magic[i] = vp_hash64 (me, level * 10 + i);
    c->me = me;
    c->level = level;
    c->stack = st;
    c->size = base;
    c->calls = 0;
    for (i = sizeof (Call); i < base; i++)
        ((unsigned char *)c)[i] = i + me;
    times = 1 + vp_range (3);
    for (i = 1; i <= times; i++) {
        int k;
        for (k = 0; k < 6; k++)
            v[k] = vp_rnd ();
        a.c = c;
        a.ret = NULL;
        m = vp_reg_call (v, jump, &a);
        vp_scribble ();
        VP_CHECK (m == 0, "registers", "registers changed by a call (%lx)",
                  (unsigned long)m);
        VP_CHECK (c->calls == i, "call-count", "entry called %d times for %d",
                  c->calls, i);
        if (c->set)
            VP_CHECK (a.ret == c->ret, "call-result",
                      "call returned %p, set %p", a.ret, c->ret);
        for (k = 0; k < (int)sizeof (canary); k++)
            VP_CHECK (canary[k] == (unsigned char)(me + level),
                      "stack-contents", "caller's frame changed");
        check_object (c, "during the call");
        VP_CHECK (owner == me, "overlap", "owner %d", owner);
        vp_ev ("calls completed");
    }
    hev_task_call_destroy (&c->base);
}

static void
call_task (void *data)
{
    int me = (int)(intptr_t)data;

    resumed (me);
    if (ts[me].keeper) {
        while (active > 1) {
            int i;
            susp (me);
            i = vp_range (nts);
            if (ts[i].state == 2 && vp_chance (70))
                hev_task_wakeup (ts[i].h);
        }
    } else {
        while (ts[me].quota-- > 0)
            do_call (me, 0);
    }
    ts[me].state = 0;
    active--;
    owner = -1;
}

static void
w_call (uint64_t n)
{
    int i;

    memset (ts, 0, sizeof (ts));
    owner = -1;
    turns = n_switch = 0;
    call_levels = vp_range (4);
    sys_begin ();
    nts = active = vp_between (2, 6);
    for (i = 0; i < nts; i++) {
        ts[i].quota = 1 + vp_range (6);
        ts[i].h = hev_task_new (65536);
        VP_HARNESS (ts[i].h);
        if (vp_chance (50))
            hev_task_set_priority (ts[i].h, vp_between (1, 15));
        ts[i].state = 1;
        ts[i].keeper = i == nts - 1;
        hev_task_ref (ts[i].h);
        hev_task_run (ts[i].h, call_task, (void *)(intptr_t)i);
    }
    hev_task_system_run ();
    for (i = 0; i < nts; i++)
        hev_task_unref (ts[i].h);
    sys_end ();
    vp_nontrivial ();
    vp_mix (n_switch);
    vp_evn ("task switches", n_switch);
    vp_sample ("%d tasks, nesting up to %d, %lu switches", nts, call_levels,
               (unsigned long)n_switch);
}

/* ------------------------------------------------------------------ */
/* whole stack usable */

#define MARGIN 256

static void __attribute__ ((noinline, no_sanitize ("address")))
fill (volatile char *lo, volatile char *hi, int pat)
{
    volatile char *p;
    for (p = lo; p < hi; p += 8)
        *(volatile uint64_t *)p = (uintptr_t)p * 31 + pat;
}

static void __attribute__ ((noinline, no_sanitize ("address")))
verify (volatile char *lo, volatile char *hi, int pat, int me)
{
    volatile char *p;
    for (p = lo; p < hi; p += 8)
        if (*(volatile uint64_t *)p != (uintptr_t)p * 31 + pat)
            vp_fail ("stack-contents",
                     "unused part of the stack of task %d was overwritten at "
                     "%p",
                     me, (void *)p);
}

static void
stack_task (void *data)
{
    int me = (int)(intptr_t)data, n = vp_between (1, 6);
    char *here = __builtin_frame_address (0);
    char *lo = here - ts[me].stack + MARGIN, *hi = here - 6000;
    int pat = vp_range (1000);

    lo = (char *)(((uintptr_t)lo + 7) & ~(uintptr_t)7);
    hi = (char *)((uintptr_t)hi & ~(uintptr_t)7);
    VP_CHECK (((uintptr_t)here & 15) == 0, "alignment",
              "stack of task %d not aligned", me);
    resumed (me);
    while (n--) {
        /* down to the last word of the requested size */
        if (lo < here - 1500) {
            fill (lo, here - 1500, pat);
            verify (lo, here - 1500, pat, me);
            vp_evn ("stack bytes used", here - 1500 - lo);
        }
        susp (me);
        if (lo < hi)
            verify (lo, hi, pat, me);
    }
    ts[me].state = 0;
    active--;
    owner = -1;
}

static void
keeper_task (void *data)
{
    int me = (int)(intptr_t)data;

    resumed (me);
    while (active > 1) {
        int i;
        susp (me);
        i = vp_range (nts);
        if (ts[i].state == 2 && vp_chance (70))
            hev_task_wakeup (ts[i].h);
    }
    ts[me].state = 0;
    active--;
    owner = -1;
}

static int
stack_size (void)
{
    switch (vp_range (5)) {
    case 0:
        return 4096 * vp_between (3, 20);
    case 1:
        return 4096 * vp_between (3, 20) + vp_between (-16, 16);
    case 2:
        return 12000 + vp_range (60000);
    case 3:
        return 1 << vp_between (14, 18);
    default:
        return -1;
    }
}

static void
w_stack (uint64_t n)
{
    int i;

    memset (ts, 0, sizeof (ts));
    owner = -1;
    turns = n_switch = 0;
    sys_begin ();
    nts = active = vp_between (2, 10);
    for (i = 0; i < nts; i++) {
        int sz = stack_size ();
        ts[i].h = hev_task_new (sz);
        VP_CHECK (ts[i].h, "create", "hev_task_new(%d)", sz);
        ts[i].stack = sz < 0 ? 64 * 1024 : sz;
        vp_mix (sz);
        ts[i].state = 1;
        ts[i].keeper = i == nts - 1;
        hev_task_ref (ts[i].h);
        hev_task_run (ts[i].h, ts[i].keeper ? keeper_task : stack_task,
                      (void *)(intptr_t)i);
    }
    hev_task_system_run ();
    for (i = 0; i < nts; i++)
        hev_task_unref (ts[i].h);
    sys_end ();
    vp_nontrivial ();
    vp_sample ("%d tasks, first stack size %d", nts, ts[0].stack);
}

/* ------------------------------------------------------------------ */
/* faults that are not overflows, repaired by the program */

#define FPAGES 8

static HevTask *volatile *shared; /* of child processes: the overflowing task, counts */

/* each thread has its own */
static __thread char *f_page[FPAGES];
static __thread int f_fd[FPAGES]; /* for bus errors */
static __thread volatile int f_hits, f_wrong, f_want;
static int f_plain, f_over;

/* what a handler may use of the signal stack its thread has set up */
static __thread int f_room;
static int f_onstack;

static void __attribute__ ((noinline))
f_use (int n)
{
    volatile unsigned char buf[n];
    int i;

    for (i = 0; i < n; i++)
        buf[i] = i * 7 + n;
    for (i = 0; i < n; i++)
        if (buf[i] != (unsigned char)(i * 7 + n))
            f_wrong = 1;
}

static void
f_repair (int sig, void *addr)
{
    int i = f_want;

    if (f_room && f_onstack) {
        f_use (f_room);
        __atomic_fetch_add (&((long *)shared)[5], 1, __ATOMIC_RELAXED);
    }

    f_hits++;
    if (addr && (char *)addr != f_page[i] + 8)
        f_wrong = 1;
    if (sig != (f_fd[i] >= 0 ? SIGBUS : SIGSEGV))
        f_wrong = 1;
    if (f_fd[i] >= 0) {
        if (ftruncate (f_fd[i], 4096) < 0)
            _exit (8);
    } else if (__real_mprotect (f_page[i], 4096, PROT_READ | PROT_WRITE) < 0)
        _exit (8);
}

static void
f_informed (int sig, siginfo_t *si, void *ctx)
{
    ucontext_t *uc = ctx;

    f_repair (sig, si->si_addr);
    if ((char *)uc->uc_mcontext.gregs[REG_CR2] != f_page[f_want] + 8)
        f_wrong = 1;
}

static void
f_info_handler (int sig, siginfo_t *si, void *ctx)
{
    /* an overflow, after its report */
    if (sig == SIGSEGV && f_over) {
        signal (SIGSEGV, SIG_DFL);
        return;
    }
    if (sig != SIGSEGV)
        f_wrong = 1;
    f_informed (sig, si, ctx);
}

static void
f_bus_handler (int sig, siginfo_t *si, void *ctx)
{
    if (sig != SIGBUS)
        f_wrong = 1;
    f_informed (sig, si, ctx);
}

static void
f_plain_handler (int sig)
{
    if (sig != SIGSEGV)
        f_wrong = 1;
    f_repair (sig, NULL);
}

static void
f_plain_bus_handler (int sig)
{
    if (sig != SIGBUS)
        f_wrong = 1;
    f_repair (sig, NULL);
}

static void
f_check (int ok, int code)
{
    if (!ok)
        _exit (code);
}

/* one fault, repaired by the program's own handler */
static void
f_fault (int where)
{
    int i = f_want = vp_range (FPAGES), hits = f_hits;

    if (f_fd[i] >= 0)
        f_check (ftruncate (f_fd[i], 0) == 0, 8);
    else
        f_check (__real_mprotect (f_page[i], 4096, PROT_NONE) == 0, 8);
    ((volatile char *)f_page[i])[8] = where;
    f_check (f_hits == hits + 1, 20);
    f_check (!f_wrong, 21);
    f_check (((volatile char *)f_page[i])[8] == where, 22);
    __atomic_fetch_add (&((long *)shared)[1 + where], 1, __ATOMIC_RELAXED);
}

static void
f_pages (void)
{
    int i;

    for (i = 0; i < FPAGES; i++) {
        int bus = vp_chance (30);

        f_fd[i] = bus ? memfd_create ("bus", 0) : -1;
        f_check (!bus || f_fd[i] >= 0, 8);
        f_page[i] = __real_mmap (NULL, 4096, PROT_READ | PROT_WRITE,
                                 bus ? MAP_SHARED : MAP_PRIVATE | MAP_ANON,
                                 f_fd[i], 0);
        f_check (f_page[i] != MAP_FAILED, 8);
    }
}

static void
f_install (void)
{
    struct sigaction sa;

    memset (&sa, 0, sizeof (sa));
    if (!f_plain)
        sa.sa_flags = SA_SIGINFO;
    f_onstack = vp_chance (50);
    if (f_onstack)
        sa.sa_flags |= SA_ONSTACK;
    if (vp_chance (50))
        sigaddset (&sa.sa_mask, SIGUSR1);
    if (f_plain)
        sa.sa_handler = f_plain_handler;
    else
        sa.sa_sigaction = f_info_handler;
    f_check (sigaction (SIGSEGV, &sa, NULL) == 0, 8);
    if (f_plain)
        sa.sa_handler = f_plain_bus_handler;
    else
        sa.sa_sigaction = f_bus_handler;
    f_check (sigaction (SIGBUS, &sa, NULL) == 0, 8);
}

/* ------------------------------------------------------------------ */
/* overflow, in a child process */

static int of_step, of_rec;

static void __attribute__ ((noinline, no_sanitize ("address")))
descend (volatile char *p, long bytes)
{
    while (bytes > 0) {
        *p = 0x77;
        p -= of_step;
        bytes -= of_step;
    }
}

static int __attribute__ ((noinline, optimize ("O0")))
recurse (long bytes)
{
    volatile char buf[256];
    buf[0] = (char)bytes;
    if (bytes <= 0)
        return buf[0];
    return recurse (bytes - 256) + buf[0];
}

static int child_size, child_yields, child_faults;

static void
over_task (void *data)
{
    long amount = (child_size < 0 ? 65536 : child_size) + 16 * 4096;
    int i;

    for (i = 0; i < child_yields; i++)
        hev_task_yield (HEV_TASK_YIELD);
    if (child_faults) {
        f_pages ();
        for (i = 0; i < child_faults; i++)
            f_fault (0);
    }
    f_over = 1;
    *shared = hev_task_self ();
    if (of_rec)
        recurse (amount);
    else
        descend (__builtin_frame_address (0), amount);
}

static void
idle_task (void *data)
{
    int i, n = (int)(intptr_t)data;
    for (i = 0; i < n; i++)
        hev_task_yield (HEV_TASK_YIELD);
}

static void
child_system (int before, int after)
{
    HevTask *h;
    int i;

    for (i = 0; i < before; i++) {
        h = hev_task_new (child_size);
        hev_task_run (h, idle_task, (void *)(intptr_t)vp_range (5));
    }
    h = hev_task_new (child_size);
    hev_task_run (h, over_task, NULL);
    for (i = 0; i < after; i++) {
        h = hev_task_new (child_size);
        hev_task_run (h, idle_task, (void *)(intptr_t)vp_range (5));
    }
    hev_task_system_run ();
}

static int th_mode, th_before, th_after;
static volatile int th_stage;

static void
stage_wait (int n)
{
    while (__atomic_load_n (&th_stage, __ATOMIC_ACQUIRE) < n)
        usleep (100);
}

static void
stage_set (int n)
{
    __atomic_store_n (&th_stage, n, __ATOMIC_RELEASE);
}

static int child_alt;

/* a signal stack of the program, too small or large enough */
static void
child_altstack (char *own)
{
    stack_t a;

    if (!child_alt)
        return;
    memset (&a, 0, sizeof (a));
    a.ss_sp = own;
    a.ss_size = child_alt;
    f_check (sigaltstack (&a, NULL) == 0, 8);
}

static void *
other_thread (void *arg)
{
    char own[65536];

    child_altstack (own);
    switch (th_mode) {
    case 1: /* overflow in a second thread while the first has a system */
        hev_task_system_init ();
        child_system (th_before, th_after);
        break;
    case 2: /* another thread came and went */
        hev_task_system_init ();
        hev_task_system_fini ();
        break;
    case 3: /* another thread initialised first, finishes before the overflow */
        hev_task_system_init ();
        stage_set (1);
        stage_wait (2);
        hev_task_system_fini ();
        stage_set (3);
        break;
    case 4: /* another thread initialised later and is still alive */
        stage_wait (1);
        hev_task_system_init ();
        stage_set (2);
        for (;;)
            usleep (1000000);
        break;
    }
    return NULL;
}

static void
child_main (void)
{
    static char own[65536];
    pthread_t th;
    int i;

    child_altstack (own);

    if (child_faults) {
        f_plain = 0;
        f_install ();
    }
    /* earlier systems in this thread */
    for (i = vp_range (3); i > 0; i--) {
        hev_task_system_init ();
        hev_task_system_run ();
        hev_task_system_fini ();
    }
    switch (th_mode) {
    case 0:
        hev_task_system_init ();
        child_system (th_before, th_after);
        break;
    case 1:
        hev_task_system_init ();
        pthread_create (&th, NULL, other_thread, NULL);
        pthread_join (th, NULL);
        break;
    case 2:
        hev_task_system_init ();
        pthread_create (&th, NULL, other_thread, NULL);
        pthread_join (th, NULL);
        child_system (th_before, th_after);
        break;
    case 3:
        pthread_create (&th, NULL, other_thread, NULL);
        stage_wait (1);
        hev_task_system_init ();
        stage_set (2);
        stage_wait (3);
        child_system (th_before, th_after);
        break;
    case 4:
        pthread_create (&th, NULL, other_thread, NULL);
        hev_task_system_init ();
        stage_set (1);
        stage_wait (2);
        child_system (th_before, th_after);
        break;
    }
    _exit (0);
}

static void
w_overflow (uint64_t n)
{
    char out[65536], want[64], want2[64];
    size_t used = 0;
    int p[2], status;
    ssize_t r;
    pid_t pid;

    vp_quarantine = 0;
    vp_vt_stop ();
    if (!shared) {
        shared = __real_mmap (NULL, 4096, PROT_READ | PROT_WRITE,
                              MAP_SHARED | MAP_ANON, -1, 0);
        VP_HARNESS (shared != MAP_FAILED);
    }
    *shared = NULL;
    static const int steps[] = { 8, 64, 1000, 4096 };
    of_step = steps[vp_range (4)];
    of_rec = vp_chance (40);
    child_size = stack_size ();
    if (child_size >= 0 && vp_chance (30))
        child_size = vp_range (9000);
    child_yields = vp_range (4);
    child_faults = vp_chance (30) ? vp_between (1, 3) : 0;
    static const int alts[] = { 4096, 8192, 16384, 65536 };
    child_alt = vp_chance (40) ? alts[vp_range (4)] : 0;
    th_mode = vp_chance (50) ? 0 : vp_between (1, 4);
    th_before = vp_range (5);
    th_after = vp_range (5);
    th_stage = 0;
    if (child_size >= 0 && child_size < 8192)
        child_size += 8192;
    vp_mix (of_step + of_rec * 7 + th_mode * 100 + th_before * 1000 +
            th_after * 10000);
    vp_mix (child_size);
    VP_HARNESS (__real_pipe (p) == 0);
    fflush (stdout);
    pid = fork ();
    VP_HARNESS (pid >= 0);
    if (pid == 0) {
        __real_dup2 (p[1], 2);
        __real_close (p[0]);
        __real_close (p[1]);
        alarm (60);
        child_main ();
        _exit (0);
    }
    __real_close (p[1]);
    while ((r = __real_read (p[0], out + used, sizeof (out) - 1 - used)) > 0) {
        used += r;
        if (used >= sizeof (out) - 4096)
            used = sizeof (out) / 2;
    }
    out[used] = 0;
    __real_close (p[0]);
    VP_HARNESS (waitpid (pid, &status, 0) == pid);
    vp_ev ("overflowing processes");
    if (child_faults)
        vp_ev ("overflows after other faults");
    if (child_alt)
        vp_ev ("overflows with a signal stack of the program");
    VP_CHECK (*shared, "overflow-setup",
              "the overflowing task never ran (status %x)", status);
    VP_CHECK (WIFSIGNALED (status) && WTERMSIG (status) != SIGALRM,
              "overflow-silent",
              "a task overflowed its stack of %d bytes (step %d%s, threads "
              "mode %d) and the process went on (status %x)",
              child_size, of_step, of_rec ? " recursive" : "", th_mode, status);
    snprintf (want, sizeof (want), "%p", (void *)*shared);
    snprintf (want2, sizeof (want2), "overflow");
    VP_CHECK (strcasestr (out, want2) && strstr (out, want),
              "overflow-unreported",
              "no report naming the overflowing task %s (stack %d, step %d, "
              "threads mode %d): %.300s",
              want, child_size, of_step, th_mode, out);
    vp_ev ("overflow reports");
    vp_nontrivial ();
    vp_sample ("stack %d, step %d, recursive %d, threads mode %d: signal %d",
               child_size, of_step, of_rec, th_mode, WTERMSIG (status));
}

/* ------------------------------------------------------------------ */
/* such faults only, in a child process */

static void
f_task (void *data)
{
    int n = (int)(intptr_t)data;

    while (n--) {
        if (vp_chance (50))
            f_fault (0);
        hev_task_yield (HEV_TASK_YIELD);
    }
}

static void
f_system (void)
{
    int i = vp_range (4);

    f_check (hev_task_system_init () == 0, 23);
    if (vp_chance (50))
        f_fault (1);
    while (i--)
        hev_task_run (hev_task_new (vp_chance (50) ? -1 : 16384), f_task,
                      (void *)(intptr_t)vp_range (5));
    hev_task_system_run ();
    if (vp_chance (50))
        f_fault (1);
}

static void
f_same_stack (const stack_t *a, int code)
{
    stack_t b;

    f_check (sigaltstack (NULL, &b) == 0, 8);
    f_check (a->ss_flags == b.ss_flags, code);
    if (!(b.ss_flags & SS_DISABLE))
        f_check (a->ss_sp == b.ss_sp && a->ss_size == b.ss_size, code);
}

/* memory of the program, next to what the library allocates later */
#define FENCES 16

static void
f_fences (unsigned char **f)
{
    int i;

    for (i = 0; i < FENCES; i++) {
        f[i] = malloc (4096);
        f_check (f[i] != NULL, 8);
        memset (f[i], 0x3c + i, 4096);
    }
}

static void
f_fences_check (unsigned char **f)
{
    int i, j;

    for (i = 0; i < FENCES; i++)
        for (j = 0; j < 4096; j++)
            f_check (f[i][j] == 0x3c + i, 26);
}

/* the thread's own signal stack, in half of the cases */
static void
f_own_stack (char *own, int size)
{
    stack_t a;

    f_room = 0;
    if (vp_chance (50))
        return;
    memset (&a, 0, sizeof (a));
    a.ss_sp = own;
    a.ss_size = size;
    f_check (sigaltstack (&a, NULL) == 0, 8);
    f_room = size / 2;
}

static void *
f_thread (void *data)
{
    int kind = (int)(intptr_t)data & 1;
    unsigned char *f[FENCES];
    char own[65536];
    stack_t a;

    vp_rnd_seed ((uintptr_t)data);
    f_pages ();
    f_own_stack (own, sizeof (own));
    f_fences (f);
    f_check (sigaltstack (NULL, &a) == 0, 8);
    if (vp_chance (50))
        f_fault (2);
    if (kind) {
        f_system ();
        hev_task_system_fini ();
        f_same_stack (&a, 24);
    }
    f_fault (2);
    f_fences_check (f);
    return NULL;
}

static void
f_child (void)
{
    struct sigaction a, b, c;
    int rounds = vp_between (1, 4), rnd;
    static char own[131072];
    unsigned char *f[FENCES];
    stack_t ss;

    f_pages ();
    f_install ();
    vp_sig_slow = vp_chance (30);
    f_own_stack (own, vp_chance (50) ? sizeof (own) : 32768);
    f_fences (f);
    f_check (sigaction (SIGSEGV, NULL, &a) == 0, 8);
    f_check (sigaction (SIGBUS, NULL, &b) == 0, 8);
    f_check (sigaltstack (NULL, &ss) == 0, 8);
    f_fault (3);
    for (rnd = 0; rnd < rounds; rnd++) {
        int in = vp_chance (70), threads = vp_range (4), i;
        int together = vp_chance (50);
        pthread_t th[4];

        if (in)
            f_system ();
        for (i = 0; i < threads; i++) {
            f_check (pthread_create (&th[i], NULL, f_thread,
                                     (void *)(vp_rnd () >> 1)) == 0, 8);
            if (!together)
                pthread_join (th[i], NULL);
            if (vp_chance (30))
                f_fault (in ? 1 : 3);
        }
        for (i = 0; together && i < threads; i++)
            pthread_join (th[i], NULL);
        if (in)
            hev_task_system_fini ();
        f_check (sigaction (SIGSEGV, NULL, &c) == 0, 8);
        f_check (c.sa_sigaction == a.sa_sigaction && c.sa_flags == a.sa_flags &&
                     !memcmp (&c.sa_mask, &a.sa_mask, 8), 25);
        f_check (sigaction (SIGBUS, NULL, &c) == 0, 8);
        f_check (c.sa_sigaction == b.sa_sigaction && c.sa_flags == b.sa_flags &&
                     !memcmp (&c.sa_mask, &b.sa_mask, 8), 25);
        f_same_stack (&ss, 24);
        f_fault (3);
        f_fences_check (f);
    }
    _exit (0);
}

static void
w_faults (uint64_t n)
{
    static const char *const what[] = {
        "the program's handler was not called once for a fault",
        "the program's handler got another signal or address",
        "a repaired access did not take effect", "init failed",
        "the thread's signal stack is not what it was",
        "the program's handler is not back after fini",
        "a handler had less stack than its thread had set up",
    };
    int status, code, tries, err;
    char text[1024];
    uint64_t seed;
    ssize_t len;
    pid_t pid;
    long *count;

    vp_quarantine = 0;
    vp_vt_stop ();
    if (!shared) {
        shared = __real_mmap (NULL, 4096, PROT_READ | PROT_WRITE,
                              MAP_SHARED | MAP_ANON, -1, 0);
        VP_HARNESS (shared != MAP_FAILED);
    }
    count = (long *)shared;
    memset (count, 0, 4096);
    f_plain = vp_chance (30);
    seed = vp_rnd ();
    fflush (stdout);
    err = memfd_create ("err", 0);
    VP_HARNESS (err >= 0);
    for (tries = 0; tries < 2; tries++) {
        pid = fork ();
        VP_HARNESS (pid >= 0);
        if (pid == 0) {
            alarm (30);
            __real_dup2 (err, 2);
            vp_rnd_seed (seed);
            f_child ();
        }
        VP_HARNESS (waitpid (pid, &status, 0) == pid);
        if (!WIFSIGNALED (status) || WTERMSIG (status) != SIGALRM)
            break;
    }
    len = pread (err, text, sizeof (text) - 1, 0);
    VP_HARNESS (len >= 0);
    text[len] = 0;
    __real_close (err);
    VP_CHECK (tries < 2, "fault-hang", "a process that handles its faults hangs"
              " (after %ld in tasks, %ld beside tasks, %ld in other threads)",
              count[1], count[2], count[3]);
    if (WIFSIGNALED (status))
        vp_fail ("fault-lost", "signal %d killed a process that handles its "
                 "faults (after %ld in tasks, %ld beside tasks, %ld in other "
                 "threads)", WTERMSIG (status), count[1], count[2], count[3]);
    code = WIFEXITED (status) ? WEXITSTATUS (status) : 8;
    VP_HARNESS (code != 8);
    if (code >= 20 && code <= 26)
        vp_fail ("fault-lost", "%s (after %ld faults in tasks, %ld beside "
                 "tasks, %ld in other threads)", what[code - 20], count[1],
                 count[2], count[3]);
    VP_HARNESS (code == 0);
    VP_CHECK (!strcasestr (text, "overflow"), "fault-report",
              "a fault that is no overflow was reported: %.200s", text);
    vp_evn ("faults in tasks passed on", count[1]);
    vp_evn ("faults beside tasks passed on", count[2]);
    vp_evn ("faults in other threads passed on", count[3]);
    vp_evn ("handlers that used a large stack", count[5]);
    vp_ev ("handlers found restored");
    vp_mix (count[1] * 10007 + count[2] * 101 + count[3]);
    if (count[1] + count[2] + count[3])
        vp_nontrivial ();
    vp_sample ("%ld faults in tasks, %ld beside them, %ld in other threads, %s "
               "handler", count[1], count[2], count[3],
               f_plain ? "plain" : "informed");
}

static const VpWork works[] = {
    { "ctx", w_ctx },           { "call", w_call },
    { "stack", w_stack },       { "overflow", w_overflow },
    { "faults", w_faults },     { NULL, NULL },
};

int
main (int argc, char **argv)
{
    vp_sig_alt = 1; /* tasks use all of their stacks */
    return vp_main (argc, argv, works);
}
