/* The race detector ignores stand-alone fences.  An acquire fence here also
 * synchronises with the places the thread read before it with a weaker order,
 * a release fence with those it writes after it.  On request threads are also
 * delayed at random in front of their atomic accesses. */
#include <stdint.h>
#include <sched.h>

extern int vp_jitter;

#define KEEP 8
#define RELAXED 0
#define ACQUIRE 2
#define RELEASE 3
#define ACQ_REL 4
#define SEQ_CST 5

void __tsan_acquire (void *addr);
void __tsan_release (void *addr);

static __thread volatile void *seen[KEEP];
static __thread unsigned seen_n, released;

static void
delay (void)
{
    static __thread uint32_t x;
    volatile uint32_t n;

    if (!vp_jitter)
        return;
    if (!x)
        x = (uint32_t)((uintptr_t)&x >> 4) * 2654435761u | 1;
    x ^= x << 13;
    x ^= x >> 17;
    x ^= x << 5;
    if (x % 4 == 0)
        sched_yield ();
    else if (x % 4 == 1)
        for (n = (x >> 8) % 2000; n; n--)
            ;
}

static void
note (volatile void *a)
{
    seen[seen_n++ % KEEP] = a;
}

static void
before_write (volatile void *a)
{
    if (released)
        __tsan_release ((void *)a);
}

#define RMW(bits, type, op)                                                    \
    type __real___tsan_atomic##bits##_##op (volatile type *, type, int);       \
    type __wrap___tsan_atomic##bits##_##op (volatile type *a, type v, int mo)  \
    {                                                                          \
        delay ();                                                              \
        before_write (a);                                                      \
        note (a);                                                              \
        return __real___tsan_atomic##bits##_##op (a, v, mo);                   \
    }

#define SIZE(bits, type)                                                       \
    type __real___tsan_atomic##bits##_load (const volatile type *, int);       \
    type __wrap___tsan_atomic##bits##_load (const volatile type *a, int mo)    \
    {                                                                          \
        delay ();                                                              \
        note ((volatile void *)a);                                             \
        return __real___tsan_atomic##bits##_load (a, mo);                      \
    }                                                                          \
    void __real___tsan_atomic##bits##_store (volatile type *, type, int);      \
    void __wrap___tsan_atomic##bits##_store (volatile type *a, type v, int mo) \
    {                                                                          \
        delay ();                                                              \
        before_write (a);                                                      \
        __real___tsan_atomic##bits##_store (a, v, mo);                         \
    }                                                                          \
    int __real___tsan_atomic##bits##_compare_exchange_strong (                 \
        volatile type *, type *, type, int, int);                              \
    int __wrap___tsan_atomic##bits##_compare_exchange_strong (                 \
        volatile type *a, type *c, type v, int mo, int fmo)                    \
    {                                                                          \
        delay ();                                                              \
        before_write (a);                                                      \
        note (a);                                                              \
        return __real___tsan_atomic##bits##_compare_exchange_strong (a, c, v,  \
                                                                     mo, fmo); \
    }                                                                          \
    int __real___tsan_atomic##bits##_compare_exchange_weak (                   \
        volatile type *, type *, type, int, int);                              \
    int __wrap___tsan_atomic##bits##_compare_exchange_weak (                   \
        volatile type *a, type *c, type v, int mo, int fmo)                    \
    {                                                                          \
        delay ();                                                              \
        before_write (a);                                                      \
        note (a);                                                              \
        return __real___tsan_atomic##bits##_compare_exchange_weak (a, c, v,    \
                                                                   mo, fmo);   \
    }                                                                          \
    type __real___tsan_atomic##bits##_compare_exchange_val (                   \
        volatile type *, type, type, int, int);                                \
    type __wrap___tsan_atomic##bits##_compare_exchange_val (                   \
        volatile type *a, type c, type v, int mo, int fmo)                     \
    {                                                                          \
        delay ();                                                              \
        before_write (a);                                                      \
        note (a);                                                              \
        return __real___tsan_atomic##bits##_compare_exchange_val (a, c, v, mo, \
                                                                  fmo);        \
    }                                                                          \
    RMW (bits, type, exchange)                                                 \
    RMW (bits, type, fetch_add)                                                \
    RMW (bits, type, fetch_sub)                                                \
    RMW (bits, type, fetch_and)                                                \
    RMW (bits, type, fetch_or)

SIZE (8, uint8_t)
SIZE (32, uint32_t)
SIZE (64, uint64_t)

void __real___tsan_atomic_thread_fence (int mo);

void
__wrap___tsan_atomic_thread_fence (int mo)
{
    unsigned i;

    if (mo == ACQUIRE || mo == ACQ_REL || mo == SEQ_CST)
        for (i = 0; i < KEEP; i++)
            if (seen[i])
                __tsan_acquire ((void *)seen[i]);
    if (mo == RELEASE || mo == ACQ_REL || mo == SEQ_CST)
        released = 1;
    __real___tsan_atomic_thread_fence (mo);
}
