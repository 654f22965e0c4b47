From a8e83e299309630a755ad4946cea2a1fe4876961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:46 +0000
Subject: [PATCH 01/42] fix: wake up the joiner when the joined task calls
 hev_task_exit

Only a task returning from its entry woke the task joining it.  A join on a
task that ends through hev_task_exit stayed blocked for ever.
---
 src/kern/task/hev-task.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 164a318..e9bbb5d 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -187,6 +187,11 @@ hev_task_run (HevTask *self, HevTaskEntry entry, void *data)
 EXPORT_SYMBOL void
 hev_task_exit (void)
 {
+    HevTask *self = hev_task_self ();
+
+    if (self->joiner)
+        hev_task_wakeup (self->joiner);
+
     hev_task_system_kill_current_task ();
 }
 
-- 
2.43.0


From fe75ac5af47084e0099c8c04c38ee884aa881a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:46 +0000
Subject: [PATCH 02/42] fix: forget the joiner once hev_task_join returns

The joiner was never cleared, so every later join on the same task failed with
-1, and a task that was run again woke a joiner that may be gone.
---
 src/kern/task/hev-task.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index e9bbb5d..3ee092b 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -211,6 +211,8 @@ hev_task_join (HevTask *task)
         hev_task_yield (HEV_TASK_WAITIO);
     }
 
+    task->joiner = NULL;
+
     return 0;
 }
 
-- 
2.43.0


From 75f4a71e0f9e55e7381bdab5817a724e8f613aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:02 +0000
Subject: [PATCH 03/42] fix: share the stack overflow signal handlers between
 threads

Each task system saved and restored the process-wide handlers on its own.  When
the thread that was initialised first also finished first, it removed the
handlers while other task systems were still running, and their stack overflows
were no longer reported.  Install them with the first and restore them with the
last task system.
---
 src/lib/misc/hev-task-stack-detector.c | 37 +++++++++++++++++++-------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index ee0e55c..43d21a5 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -10,6 +10,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <signal.h>
+#include <pthread.h>
 
 #if defined(__APPLE__)
 #include <Availability.h>
@@ -26,12 +27,17 @@
 
 struct _HevTaskStackDetector
 {
-    struct sigaction bus_sa;
-    struct sigaction segv_sa;
     stack_t oss;
     char stack[SIGSTKSZ];
 };
 
+/* signal handlers are shared by all threads, the first one installs them and
+ * the last one restores the previous ones. */
+static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
+static unsigned int users;
+static struct sigaction bus_sa;
+static struct sigaction segv_sa;
+
 static int
 setaltstack (const stack_t *ss, stack_t *oss)
 {
@@ -47,7 +53,6 @@ signal_handler (int signo, siginfo_t *si, void *unused)
 {
     HevTaskSystemContext *context = hev_task_system_get_context ();
     HevListNode *node = hev_list_first (&context->all_tasks);
-    HevTaskStackDetector *self = context->stack_detector;
 
     for (; node; node = hev_list_node_next (node)) {
         HevTask *task = container_of (node, HevTask, list_node);
@@ -67,10 +72,10 @@ signal_handler (int signo, siginfo_t *si, void *unused)
 
     switch (signo) {
     case SIGBUS:
-        self->bus_sa.sa_sigaction (signo, si, unused);
+        bus_sa.sa_sigaction (signo, si, unused);
         break;
     case SIGSEGV:
-        self->segv_sa.sa_sigaction (signo, si, unused);
+        segv_sa.sa_sigaction (signo, si, unused);
         break;
     default:
         return;
@@ -98,8 +103,17 @@ hev_task_stack_detector_new (void)
     sigemptyset (&sa.sa_mask);
 
     res |= setaltstack (&ss, &self->oss);
-    res |= sigaction (SIGBUS, &sa, &self->bus_sa);
-    res |= sigaction (SIGSEGV, &sa, &self->segv_sa);
+    if (res < 0)
+        goto free;
+
+    pthread_mutex_lock (&mutex);
+    if (!users) {
+        res |= sigaction (SIGBUS, &sa, &bus_sa);
+        res |= sigaction (SIGSEGV, &sa, &segv_sa);
+    }
+    if (res == 0)
+        users++;
+    pthread_mutex_unlock (&mutex);
     if (res < 0)
         goto free;
 
@@ -114,8 +128,13 @@ exit:
 void
 hev_task_stack_detector_destroy (HevTaskStackDetector *self)
 {
-    sigaction (SIGBUS, &self->bus_sa, NULL);
-    sigaction (SIGSEGV, &self->segv_sa, NULL);
+    pthread_mutex_lock (&mutex);
+    users--;
+    if (!users) {
+        sigaction (SIGBUS, &bus_sa, NULL);
+        sigaction (SIGSEGV, &segv_sa, NULL);
+    }
+    pthread_mutex_unlock (&mutex);
     setaltstack (&self->oss, NULL);
     free (self);
 }
-- 
2.43.0


From 03736e3f80b27fe7188b9976b28ac1b529af8a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:55 +0000
Subject: [PATCH 04/42] fix: carry a full second of nanoseconds in timer
 deadlines

A deadline that fell exactly on a second had tv_nsec 1000000000, which
timerfd_settime rejects, and the process was aborted.
---
 src/kern/time/hev-task-timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index cf212cc..b4ab061 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -60,7 +60,7 @@ hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
 
     expire->tv_sec += microseconds / 1000000;
     expire->tv_nsec += (microseconds % 1000000) * 1000;
-    if (expire->tv_nsec > 1000000000L) {
+    if (expire->tv_nsec >= 1000000000L) {
         expire->tv_sec++;
         expire->tv_nsec -= 1000000000L;
     }
-- 
2.43.0


From fa79090ae130dacb301dbc9f9d54c66a31c46a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:29 +0000
Subject: [PATCH 05/42] fix: don't truncate long sleeps

hev_task_sleep converted milliseconds to microseconds in 32 bits, so a sleep of
more than 4294967 ms wrapped around and returned far too early.
---
 src/kern/task/hev-task.c       | 10 +++++++++-
 src/kern/time/hev-task-timer.c | 11 +++++------
 src/kern/time/hev-task-timer.h |  6 ++++--
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 3ee092b..beef356 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -154,7 +154,15 @@ hev_task_yield (HevTaskYieldType type)
 EXPORT_SYMBOL unsigned int
 hev_task_sleep (unsigned int milliseconds)
 {
-    return hev_task_usleep (milliseconds * 1000) / 1000;
+    HevTaskSystemContext *ctx;
+
+    if (milliseconds == 0)
+        return 0;
+
+    ctx = hev_task_system_get_context ();
+    return hev_task_timer_wait (ctx->timer, milliseconds * 1000ULL,
+                                ctx->current_task) /
+           1000;
 }
 
 EXPORT_SYMBOL unsigned int
diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index b4ab061..5ce2f06 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -53,7 +53,7 @@ hev_task_timer_node_compare (HevTaskTimerNode *a, HevTaskTimerNode *b)
 }
 
 static inline void
-hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
+hev_task_timer_get_expire (struct timespec *expire, uint64_t microseconds)
 {
     if (clock_gettime (CLOCK_MONOTONIC, expire) < 0)
         abort ();
@@ -66,7 +66,7 @@ hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
     }
 }
 
-static inline unsigned int
+static inline uint64_t
 hev_task_timer_get_time (const struct timespec *expire)
 {
     struct timespec curr;
@@ -86,12 +86,11 @@ hev_task_timer_get_time (const struct timespec *expire)
     if (sec < 0)
         return 0;
 
-    return (sec * 1000000) + (nsec / 1000);
+    return ((uint64_t)sec * 1000000) + (nsec / 1000);
 }
 
-unsigned int
-hev_task_timer_wait (HevTaskTimer *self, unsigned int microseconds,
-                     HevTask *task)
+uint64_t
+hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds, HevTask *task)
 {
     HevTaskTimerNode curr_node, *node = &curr_node;
     HevRBTreeNode **new = &self->sort_tree.base.root, *parent = NULL;
diff --git a/src/kern/time/hev-task-timer.h b/src/kern/time/hev-task-timer.h
index 68d100a..d1a0b34 100644
--- a/src/kern/time/hev-task-timer.h
+++ b/src/kern/time/hev-task-timer.h
@@ -10,6 +10,8 @@
 #ifndef __HEV_TASK_TIMER_H__
 #define __HEV_TASK_TIMER_H__
 
+#include <stdint.h>
+
 #include "kern/task/hev-task-private.h"
 #include "lib/rbtree/hev-rbtree-cached.h"
 
@@ -24,7 +26,7 @@ struct _HevTaskTimer
 HevTaskTimer *hev_task_timer_new (void);
 void hev_task_timer_destroy (HevTaskTimer *self);
 
-unsigned int hev_task_timer_wait (HevTaskTimer *self, unsigned int milliseconds,
-                                  HevTask *task);
+uint64_t hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds,
+                              HevTask *task);
 
 #endif /* __HEV_TASK_TIMER_H__ */
-- 
2.43.0


From 070911dbfcd7dde334dc5522ba20863ae3899dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:48 +0000
Subject: [PATCH 06/42] fix: keep the other waiters when a timed condition wait
 times out

When the most recent waiter timed out the whole waiter list was dropped, so the
tasks that had been waiting longer could not be woken by any later signal.
---
 src/kern/sync/hev-task-cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/sync/hev-task-cond.c b/src/kern/sync/hev-task-cond.c
index a8a6c77..7dedb3b 100644
--- a/src/kern/sync/hev-task-cond.c
+++ b/src/kern/sync/hev-task-cond.c
@@ -77,7 +77,7 @@ hev_task_cond_timedwait (HevTaskCond *self, HevTaskMutex *mutex,
         if (node.next)
             node.next->prev = node.prev;
         if (self->waiters == &node)
-            self->waiters = NULL;
+            self->waiters = node.next;
         return -1;
     }
 
-- 
2.43.0


From ca4d2d7428a8ef12ba378ecd1d05863f580fe623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:00 +0000
Subject: [PATCH 07/42] fix: forget the task that waited on a channel when it
 stops waiting

The channel kept a pointer to the last task that had waited on it.  When that
task had ended, a later read, write or destroy on the other end woke it up and
aborted, or touched freed memory.
---
 src/kern/itc/hev-task-channel.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 3855471..8fe23de 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -108,6 +108,17 @@ hev_task_channel_destroy (HevTaskChannel *self)
     hev_task_channel_unref (self);
 }
 
+static void
+hev_task_channel_wait (HevTaskChannel *self)
+{
+    WRITE_ONCE (self->task, hev_task_self ());
+    hev_task_yield (HEV_TASK_WAITIO);
+
+    /* the task of a selected channel stays until it is deleted */
+    if (!self->select)
+        WRITE_ONCE (self->task, NULL);
+}
+
 static ssize_t
 hev_task_channel_data_copy (void *dst, const void *src, size_t size)
 {
@@ -148,8 +159,7 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         if (!hev_task_channel_is_active (self))
             goto out;
 
-        WRITE_ONCE (self->task, hev_task_self ());
-        hev_task_yield (HEV_TASK_WAITIO);
+        hev_task_channel_wait (self);
     }
 
     barrier ();
@@ -198,8 +208,7 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
         if (!hev_task_channel_is_active (self))
             goto out1;
 
-        WRITE_ONCE (self->task, hev_task_self ());
-        hev_task_yield (HEV_TASK_WAITIO);
+        hev_task_channel_wait (self);
     }
 
     barrier ();
@@ -235,8 +244,7 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
             break;
         }
 
-        WRITE_ONCE (self->task, hev_task_self ());
-        hev_task_yield (HEV_TASK_WAITIO);
+        hev_task_channel_wait (self);
     }
 
     barrier ();
-- 
2.43.0


From 09993f5b6965bd203162bafb6ba1e00d341fa989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:25 +0000
Subject: [PATCH 08/42] fix: wake a write select when a buffered channel gets
 room again

A read only told the writer's selector about room when the queue was over full,
so a channel that went from full to not full was never returned by a write
select, and one that was still full was.
---
 src/kern/itc/hev-task-channel.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 8fe23de..a934d58 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -171,18 +171,20 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         size = cbuf->size;
     size = hev_task_channel_data_copy (buffer, cbuf->data, size);
 
-    if (self->use_count == self->max_count) {
+    self->use_count--;
+    /* a write was waiting, or can be done without waiting from now on */
+    if (self->use_count + 2 >= self->max_count) {
         HevTaskChannel *peer = self->peer;
 
         if (peer) {
-            if (peer->select)
+            if (peer->select && (self->max_count == 1 ||
+                                 hev_task_channel_is_select_writable (self)))
                 hev_task_channel_select_add_write (peer->select, peer);
             if (peer->task)
                 hev_task_wakeup (peer->task);
         }
     }
 
-    self->use_count--;
     if (self->select && !hev_task_channel_is_readable (self))
         hev_task_channel_select_del_read (self->select, self);
 
-- 
2.43.0


From 9288e09800e0b2d3450657f41168c84fb5d55dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:53 +0000
Subject: [PATCH 09/42] fix: compute the size of buffered channels without
 overflow

The product of buffer size and count was computed in 32 bits, so large channels
got too little memory and datagrams were written outside of it.
---
 src/kern/itc/hev-task-channel.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index a934d58..560a000 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -28,19 +28,25 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
                                    unsigned int buffers)
 {
     HevTaskChannel *c1, *c2;
-    unsigned int buffers_size;
-    unsigned int data_size = 0;
+    size_t buffers_size;
+    size_t chan_size;
 
     buffers += 1;
+    if (!buffers)
+        goto err0;
+    buffers_size = sizeof (HevTaskChannelBuffer);
     if (buffers > 1)
-        data_size = size * buffers;
+        buffers_size += size;
+    if (__builtin_mul_overflow (buffers_size, buffers, &chan_size) ||
+        __builtin_add_overflow (chan_size, sizeof (HevTaskChannel), &chan_size))
+        goto err0;
     buffers_size = sizeof (HevTaskChannelBuffer) * buffers;
 
-    c1 = hev_malloc (sizeof (HevTaskChannel) + buffers_size + data_size);
+    c1 = hev_malloc (chan_size);
     if (!c1)
         goto err0;
 
-    c2 = hev_malloc (sizeof (HevTaskChannel) + buffers_size + data_size);
+    c2 = hev_malloc (chan_size);
     if (!c2)
         goto err1;
 
@@ -60,8 +66,10 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
         unsigned int i;
 
         for (i = 0; i < buffers; i++) {
-            c1->buffers[i].data = (void *)c1->buffers + buffers_size + size * i;
-            c2->buffers[i].data = (void *)c2->buffers + buffers_size + size * i;
+            size_t offset = buffers_size + (size_t)size * i;
+
+            c1->buffers[i].data = (void *)c1->buffers + offset;
+            c2->buffers[i].data = (void *)c2->buffers + offset;
         }
     }
 
-- 
2.43.0


From fab79bf78f47ce2d300c9f2bda30b490cd49ccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:04 +0000
Subject: [PATCH 10/42] fix: refuse allocations too large for the slice
 allocator

The number of slices was kept in an int and the rounded size could wrap around,
so very large requests got a small block.
---
 src/mem/slice/hev-memory-allocator-slice.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mem/slice/hev-memory-allocator-slice.c b/src/mem/slice/hev-memory-allocator-slice.c
index 4e14210..937b188 100644
--- a/src/mem/slice/hev-memory-allocator-slice.c
+++ b/src/mem/slice/hev-memory-allocator-slice.c
@@ -7,6 +7,7 @@
  ============================================================================
  */
 
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -19,6 +20,8 @@
 #define MAX_CACHED_SLICE_SIZE CONFIG_MEMALLOC_SLICE_MAX_SIZE
 #define MAX_CACHED_SLICE_COUNT CONFIG_MEMALLOC_SLICE_MAX_COUNT
 #define MAX_CACHED_SLICE_INDEX (MAX_CACHED_SLICE_SIZE / CACHED_SLICE_ALIGN)
+#define MAX_ALLOC_SIZE \
+    (SIZE_MAX - sizeof (HevMemorySlice) - CACHED_SLICE_ALIGN)
 
 typedef struct _HevMemorySlice HevMemorySlice;
 typedef struct _HevMemoryLRUNode HevMemoryLRUNode;
@@ -88,7 +91,10 @@ _hev_memory_allocator_alloc (HevMemoryAllocator *allocator, size_t size)
 {
     HevMemoryAllocatorSlice *self = (HevMemoryAllocatorSlice *)allocator;
     HevMemorySlice *slice, **owner;
-    int index;
+    size_t index;
+
+    if (size > MAX_ALLOC_SIZE)
+        return NULL;
 
     size = ALIGN_UP (size, CACHED_SLICE_ALIGN);
     index = size / CACHED_SLICE_ALIGN;
@@ -140,13 +146,16 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
                                size_t size)
 {
     HevMemorySlice *slice;
-    int index;
+    size_t index;
 
     if (0 == size) {
         _hev_memory_allocator_free (allocator, ptr);
         return NULL;
     }
 
+    if (size > MAX_ALLOC_SIZE)
+        return NULL;
+
     slice = (HevMemorySlice *)ptr - 1;
     size = ALIGN_UP (size, CACHED_SLICE_ALIGN);
     index = size / CACHED_SLICE_ALIGN;
-- 
2.43.0


From 7d92b66e05bd4eb3a141c94d5029230749e954a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:25 +0000
Subject: [PATCH 11/42] fix: refuse array allocations whose size overflows

---
 src/mem/api/hev-memory-allocator-api.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mem/api/hev-memory-allocator-api.c b/src/mem/api/hev-memory-allocator-api.c
index cdc5b25..399fa4e 100644
--- a/src/mem/api/hev-memory-allocator-api.c
+++ b/src/mem/api/hev-memory-allocator-api.c
@@ -45,7 +45,9 @@ hev_calloc (size_t nmemb, size_t size)
     if (!nmemb || !size)
         return NULL;
 
-    size *= nmemb;
+    if (__builtin_mul_overflow (nmemb, size, &size))
+        return NULL;
+
     allocator = hev_memory_allocator_default ();
     data = hev_memory_allocator_alloc (allocator, size);
     if (data)
-- 
2.43.0


From bb9e730fea0015006e2ed2c81a2dc8be45a9ac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:38 +0000
Subject: [PATCH 12/42] fix: refuse circular buffers whose size overflows

---
 src/lib/io/buffer/hev-circular-buffer.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/buffer/hev-circular-buffer.c b/src/lib/io/buffer/hev-circular-buffer.c
index 4d78c1d..4b84628 100644
--- a/src/lib/io/buffer/hev-circular-buffer.c
+++ b/src/lib/io/buffer/hev-circular-buffer.c
@@ -26,8 +26,12 @@ EXPORT_SYMBOL HevCircularBuffer *
 hev_circular_buffer_new (size_t max_size)
 {
     HevCircularBuffer *self;
+    size_t size;
 
-    self = hev_malloc (sizeof (HevCircularBuffer) + max_size);
+    if (__builtin_add_overflow (max_size, sizeof (HevCircularBuffer), &size))
+        return NULL;
+
+    self = hev_malloc (size);
     if (!self)
         return NULL;
 
-- 
2.43.0


From 72c848db3c2064b6521f5a9c27fb5eec32889ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:58 +0000
Subject: [PATCH 13/42] fix: report address, ancillary data and flags of
 received messages

---
 src/lib/io/socket/hev-task-io-socket.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index 7ca7ca5..7b86541 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -262,6 +262,8 @@ hev_task_io_socket_recvmsg (int fd, struct msghdr *msg, int flags,
 {
     ssize_t s;
     size_t i, size = 0, len = 0;
+    size_t controllen = msg->msg_controllen;
+    socklen_t namelen = msg->msg_namelen;
     struct msghdr mh;
     struct iovec iov[msg->msg_iovlen];
 
@@ -290,6 +292,13 @@ retry:
         goto retry;
     }
 
+    if (s > 0 || (s == 0 && size == 0)) {
+        msg->msg_namelen = mh.msg_namelen;
+        msg->msg_controllen =
+            (mh.msg_control - msg->msg_control) + mh.msg_controllen;
+        msg->msg_flags = mh.msg_flags | (size ? msg->msg_flags : 0);
+    }
+
     if (!(flags & MSG_WAITALL))
         return s;
 
@@ -313,6 +322,9 @@ retry:
 
         mh.msg_iov += i;
         mh.msg_iovlen -= i;
+        mh.msg_namelen = namelen;
+        mh.msg_control += mh.msg_controllen;
+        mh.msg_controllen = controllen - msg->msg_controllen;
 
         goto retry;
     }
-- 
2.43.0


From e3fc49ab7ae92588185bbd1213eeb926819ec932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:58 +0000
Subject: [PATCH 14/42] fix: send ancillary data only once with MSG_WAITALL

---
 src/lib/io/socket/hev-task-io-socket.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index 7b86541..d4be205 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -389,6 +389,8 @@ retry:
 
         mh.msg_iov += i;
         mh.msg_iovlen -= i;
+        mh.msg_control = NULL;
+        mh.msg_controllen = 0;
 
         goto retry;
     }
-- 
2.43.0


From 481de8678cfa6080596a6478e258b10059f7784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:07 +0000
Subject: [PATCH 15/42] fix: don't repeat peeked data with MSG_WAITALL

---
 src/lib/io/socket/hev-task-io-socket.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index d4be205..c99ec62 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -131,7 +131,7 @@ retry:
         goto retry;
     }
 
-    if (!(flags & MSG_WAITALL))
+    if (!(flags & MSG_WAITALL) || (flags & MSG_PEEK))
         return s;
 
     if (s <= 0) {
@@ -203,7 +203,7 @@ retry:
         goto retry;
     }
 
-    if (!(flags & MSG_WAITALL))
+    if (!(flags & MSG_WAITALL) || (flags & MSG_PEEK))
         return s;
 
     if (s <= 0) {
@@ -299,7 +299,7 @@ retry:
         msg->msg_flags = mh.msg_flags | (size ? msg->msg_flags : 0);
     }
 
-    if (!(flags & MSG_WAITALL))
+    if (!(flags & MSG_WAITALL) || (flags & MSG_PEEK))
         return s;
 
     if (s <= 0) {
-- 
2.43.0


From b9822b1b4abd4e1e0f14aed1bd964199193a870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:06 +0000
Subject: [PATCH 16/42] fix: report descriptors that are ready when a poll
 starts

Regular files and closed descriptors cannot be waited for with epoll, so
hev_task_io_poll only noticed them once its timeout had passed, or never
without a timeout. Poll once before waiting.
---
 src/lib/io/poll/hev-task-io-poll.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/poll/hev-task-io-poll.c b/src/lib/io/poll/hev-task-io-poll.c
index d82421a..fa4f070 100644
--- a/src/lib/io/poll/hev-task-io-poll.c
+++ b/src/lib/io/poll/hev-task-io-poll.c
@@ -17,9 +17,8 @@ hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
 {
     int res;
 
-    if (timeout == 0) {
-        res = poll (fds, nfds, 0);
-    } else {
+    res = poll (fds, nfds, 0);
+    if (res == 0 && timeout != 0) {
         HevTask *task = hev_task_self ();
         unsigned int i;
 
-- 
2.43.0


From 075e12fda389cf82320b86b84bcbbacbdb7e2320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:22 +0000
Subject: [PATCH 17/42] fix: wait for all events of a descriptor polled more
 than once

Each entry replaced the events registered for earlier entries with the
same descriptor, so a poll could miss what an earlier entry asked for.
---
 src/lib/io/poll/hev-task-io-poll.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/poll/hev-task-io-poll.c b/src/lib/io/poll/hev-task-io-poll.c
index fa4f070..29b941d 100644
--- a/src/lib/io/poll/hev-task-io-poll.c
+++ b/src/lib/io/poll/hev-task-io-poll.c
@@ -20,11 +20,19 @@ hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
     res = poll (fds, nfds, 0);
     if (res == 0 && timeout != 0) {
         HevTask *task = hev_task_self ();
-        unsigned int i;
+        unsigned int i, j;
 
         for (i = 0; i < nfds; i++) {
-            if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) < 0)
-                hev_task_add_fd (task, fds[i].fd, fds[i].events);
+            unsigned int events = fds[i].events;
+
+            /* the same fd may be listed more than once */
+            for (j = 0; j < i; j++) {
+                if (fds[j].fd == fds[i].fd)
+                    events |= fds[j].events;
+            }
+
+            if (hev_task_mod_fd (task, fds[i].fd, events) < 0)
+                hev_task_add_fd (task, fds[i].fd, events);
         }
 
         if (timeout > 0) {
-- 
2.43.0


From 85f065955194d82e19970baf9753a07bbf4dfb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:05 +0000
Subject: [PATCH 18/42] fix: close a descriptor used in both directions only
 once

A descriptor layer with the same descriptor for input and output closed
it twice, and could so close one another thread had just opened.
---
 src/lib/cio/fd/hev-task-cio-fd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/cio/fd/hev-task-cio-fd.c b/src/lib/cio/fd/hev-task-cio-fd.c
index 4d0ffb9..78ca7bf 100644
--- a/src/lib/cio/fd/hev-task-cio-fd.c
+++ b/src/lib/cio/fd/hev-task-cio-fd.c
@@ -126,7 +126,7 @@ _hev_task_cio_fd_destruct (HevObject *base)
 
     if (self->fdi >= 0)
         close (self->fdi);
-    if (self->fdo >= 0)
+    if (self->fdo >= 0 && self->fdo != self->fdi)
         close (self->fdo);
 
     HEV_TASK_CIO_TYPE->destruct (base);
-- 
2.43.0


From 2628365458bf897a81b1c899a2ea74cb6a19d579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:22 +0000
Subject: [PATCH 19/42] fix: skip empty pieces of vectors in buffer layers

An empty piece ended a vector read or write early. As the first piece it
made the call return 0, which looks like the end of the stream.
---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index 1af7e63..c6b197a 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -219,6 +219,9 @@ _hev_task_cio_buffer_readv (HevTaskCIO *base, const struct iovec *iov,
         const struct iovec *v = &iov[i];
         ssize_t res;
 
+        if (!v->iov_len)
+            continue;
+
         res = _hev_task_cio_buffer_read (base, v->iov_base, v->iov_len);
         if (res <= 0) {
             if (size)
@@ -249,6 +252,9 @@ _hev_task_cio_buffer_writev (HevTaskCIO *base, const struct iovec *iov,
         const struct iovec *v = &iov[i];
         ssize_t res;
 
+        if (!v->iov_len)
+            continue;
+
         res = _hev_task_cio_buffer_write (base, v->iov_base, v->iov_len);
         if (res <= 0) {
             if (size)
-- 
2.43.0


From a00da8229f1ba39d91afff2ff10ab976ccf635b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:37 +0000
Subject: [PATCH 20/42] fix: drop the reference to the next layer when a layer
 dies

The next layer was destructed directly, even while others still held
references to it. They were left with freed memory.
---
 src/lib/cio/base/hev-task-cio.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.h b/src/lib/cio/base/hev-task-cio.h
index 71979f6..3fb22a3 100644
--- a/src/lib/cio/base/hev-task-cio.h
+++ b/src/lib/cio/base/hev-task-cio.h
@@ -678,13 +678,11 @@ static inline void
 hev_task_cio_next_destruct (HevTaskCIO *self)
 {
     HevTaskCIO *next = self->next;
-    HevObjectClass *nkptr;
 
     if (!next)
         return;
 
-    nkptr = HEV_OBJECT_GET_CLASS (next);
-    nkptr->destruct (HEV_OBJECT (next));
+    hev_object_unref (HEV_OBJECT (next));
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From df939c42b5a22ec9dec1267babba2166dd5aa7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:54 +0000
Subject: [PATCH 21/42] fix: flush a buffer layer until it is empty

A flush whose data was taken only in part reported that it would block
without having tried again. With another buffer below nothing was to
wait for, and the task slept forever.
---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 25 ++++++++++++------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index c6b197a..aac1630 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -147,23 +147,22 @@ _hev_task_cio_buffer_flush (HevTaskCIOBuffer *self)
     if (!self->wbuf)
         return 0;
 
-    iovcnt = hev_circular_buffer_reading (self->wbuf, iov);
-    if (iovcnt == 0)
-        return 0;
+    for (;;) {
+        iovcnt = hev_circular_buffer_reading (self->wbuf, iov);
+        if (iovcnt == 0)
+            return 0;
 
-    res = hev_task_cio_next_writev (base, iov, iovcnt);
-    if (res < 0)
-        return res;
+        res = hev_task_cio_next_writev (base, iov, iovcnt);
+        if (res < 0)
+            return res;
 
-    hev_circular_buffer_read_finish (self->wbuf, res);
+        if (res == 0) {
+            base->err = EAGAIN;
+            return -1;
+        }
 
-    res = hev_circular_buffer_get_use_size (self->wbuf);
-    if (res) {
-        base->err = EAGAIN;
-        return -1;
+        hev_circular_buffer_read_finish (self->wbuf, res);
     }
-
-    return 0;
 }
 
 static ssize_t
-- 
2.43.0


From 3b4f60767323c4cd46f064ba286e7250268f88eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:06 +0000
Subject: [PATCH 22/42] fix: keep flushing while splicing chains

---
 src/lib/cio/base/hev-task-cio.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.c b/src/lib/cio/base/hev-task-cio.c
index f64cd73..f2d7987 100644
--- a/src/lib/cio/base/hev-task-cio.c
+++ b/src/lib/cio/base/hev-task-cio.c
@@ -426,12 +426,13 @@ retry:
 static int
 task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
 {
+    HevTaskCIOClass *kptr;
     struct iovec iov[2];
     int res = 1, iovc;
 
+    kptr = HEV_OBJECT_GET_CLASS (i);
     iovc = hev_circular_buffer_writing (buf, iov);
     if (iovc) {
-        HevTaskCIOClass *kptr = HEV_OBJECT_GET_CLASS (i);
         ssize_t s = kptr->readv (i, iov, iovc);
         if (0 >= s) {
             if ((0 > s) && (i->err == EAGAIN))
@@ -443,22 +444,26 @@ task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
         }
     }
 
+    kptr = HEV_OBJECT_GET_CLASS (o);
     iovc = hev_circular_buffer_reading (buf, iov);
     if (iovc) {
-        HevTaskCIOClass *kptr = HEV_OBJECT_GET_CLASS (o);
         ssize_t s = kptr->writev (o, iov, iovc);
         if (0 >= s) {
             if ((0 > s) && (o->err == EAGAIN))
                 res = 0;
             else
-                res = -1;
+                return -1;
         } else {
             hev_circular_buffer_read_finish (buf, s);
-            kptr->ctrl (o, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL);
             res = 1;
         }
     }
 
+    /* don't end before all is flushed */
+    if ((0 > kptr->ctrl (o, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL)) &&
+        (o->err == EAGAIN) && (0 > res))
+        res = 0;
+
     return res;
 }
 
-- 
2.43.0


From 91643db6f7a5fe74cc3645e26fe94df518ac0de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:54 +0000
Subject: [PATCH 23/42] fix: start a layer without a next layer

---
 src/lib/cio/base/hev-task-cio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/cio/base/hev-task-cio.c b/src/lib/cio/base/hev-task-cio.c
index f2d7987..4af81d4 100644
--- a/src/lib/cio/base/hev-task-cio.c
+++ b/src/lib/cio/base/hev-task-cio.c
@@ -533,6 +533,7 @@ hev_task_cio_construct (HevTaskCIO *self)
 
     HEV_OBJECT (self)->klass = HEV_TASK_CIO_TYPE;
 
+    self->next = NULL;
     self->err = 0;
 
     return 0;
-- 
2.43.0


From 03884a8ee2bc035c68c5956c96d1172de263cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:56 +0000
Subject: [PATCH 24/42] fix: fail to make a buffer layer that has no buffers

---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index aac1630..a94518f 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -297,10 +297,23 @@ hev_task_cio_buffer_construct (HevTaskCIOBuffer *self, size_t rsize,
 
     HEV_OBJECT (self)->klass = HEV_TASK_CIO_BUFFER_TYPE;
 
-    if (rsize)
+    self->rbuf = NULL;
+    self->wbuf = NULL;
+
+    if (rsize) {
         self->rbuf = hev_circular_buffer_new (rsize);
-    if (wsize)
+        if (!self->rbuf)
+            return -1;
+    }
+
+    if (wsize) {
         self->wbuf = hev_circular_buffer_new (wsize);
+        if (!self->wbuf) {
+            if (self->rbuf)
+                hev_circular_buffer_unref (self->rbuf);
+            return -1;
+        }
+    }
 
     return 0;
 }
-- 
2.43.0


From d733f1f80334995e40f8e71444d335f89584a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:16 +0000
Subject: [PATCH 25/42] fix: data race on the page size when threads make
 stacks

---
 src/kern/task/hev-task-stack-mmap.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/kern/task/hev-task-stack-mmap.c b/src/kern/task/hev-task-stack-mmap.c
index 6008780..55b391d 100644
--- a/src/kern/task/hev-task-stack-mmap.c
+++ b/src/kern/task/hev-task-stack-mmap.c
@@ -31,10 +31,7 @@ HevTaskStack *
 hev_task_stack_new (int size)
 {
     HevTaskStack *self;
-    static int page_size;
-
-    if (!page_size)
-        page_size = getpagesize ();
+    int page_size = getpagesize ();
 
     size = ALIGN_UP (size, page_size);
 #ifdef ENABLE_STACK_OVERFLOW_DETECTION
-- 
2.43.0


From 6632262e909016650951e1cfb06b734148176321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:32 +0000
Subject: [PATCH 26/42] fix: start the helper thread of lookups once, for all
 threads

---
 src/kern/aide/hev-task-aide.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/kern/aide/hev-task-aide.c b/src/kern/aide/hev-task-aide.c
index 95bc00c..7458257 100644
--- a/src/kern/aide/hev-task-aide.c
+++ b/src/kern/aide/hev-task-aide.c
@@ -22,15 +22,25 @@ static pthread_t thread;
 static pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
 static HevTaskIOReactor *reactor;
+static int starting;
 
 static void *
 hev_task_aide_entry (void *data)
 {
+    int failed;
+
+    pthread_detach (pthread_self ());
+
     pthread_mutex_lock (&mutex);
     reactor = hev_task_io_reactor_new ();
-    pthread_cond_signal (&cond);
+    failed = !reactor;
+    starting = 0;
+    pthread_cond_broadcast (&cond);
     pthread_mutex_unlock (&mutex);
 
+    if (failed)
+        return NULL;
+
     for (;;) {
         HevTaskIOReactorWaitEvent events[256];
         int i, count;
@@ -54,19 +64,18 @@ hev_task_aide_entry (void *data)
 int
 hev_task_aide_init (void)
 {
-    int res = -1;
-
-    if (reactor)
-        return 0;
+    int res = 0;
 
     pthread_mutex_lock (&mutex);
-    if (!reactor) {
-        res = pthread_create (&thread, NULL, hev_task_aide_entry, NULL);
-        if (0 == res) {
-            while (!reactor)
-                pthread_cond_wait (&cond, &mutex);
-        }
+    if (!reactor && !starting) {
+        starting = 1;
+        if (pthread_create (&thread, NULL, hev_task_aide_entry, NULL) != 0)
+            starting = 0;
     }
+    while (starting)
+        pthread_cond_wait (&cond, &mutex);
+    if (!reactor)
+        res = -1;
     pthread_mutex_unlock (&mutex);
 
     return res;
-- 
2.43.0


From 85b6d6035b489cd9b36ccb49c7c4bdfd585b11fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:45 +0000
Subject: [PATCH 27/42] fix: wait for the helper thread before freeing what it
 uses

---
 src/lib/dns/hev-task-dns-proxy.c | 38 +++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/lib/dns/hev-task-dns-proxy.c b/src/lib/dns/hev-task-dns-proxy.c
index 3310e5d..2e2c4d9 100644
--- a/src/lib/dns/hev-task-dns-proxy.c
+++ b/src/lib/dns/hev-task-dns-proxy.c
@@ -98,19 +98,24 @@ hev_task_dns_server_handler (unsigned int revents, void *data)
 
     for (;;) {
         char sync = 's';
-        int res;
+        int end, res;
 
         res = read (proxy->work.fd, &sync, sizeof (sync));
-        if (0 >= res)
+        if (0 > res)
             break;
 
-        switch (proxy->call->type) {
-        case HEV_TASK_DNS_CALL_GETADDRINFO:
-            hev_task_dns_server_getaddrinfo (proxy->call);
-            break;
-        case HEV_TASK_DNS_CALL_GETNAMEINFO:
-            hev_task_dns_server_getnameinfo (proxy->call);
-            break;
+        end = (0 == res);
+        if (end) {
+            hev_task_aide_del (&proxy->work);
+        } else {
+            switch (proxy->call->type) {
+            case HEV_TASK_DNS_CALL_GETADDRINFO:
+                hev_task_dns_server_getaddrinfo (proxy->call);
+                break;
+            case HEV_TASK_DNS_CALL_GETNAMEINFO:
+                hev_task_dns_server_getnameinfo (proxy->call);
+                break;
+            }
         }
 
         for (;;) {
@@ -124,6 +129,10 @@ hev_task_dns_server_handler (unsigned int revents, void *data)
             pfd.events = POLLOUT;
             poll (&pfd, 1, -1);
         }
+
+        /* the proxy may be gone by now */
+        if (end)
+            break;
     }
 }
 
@@ -181,7 +190,16 @@ exit:
 void
 hev_task_dns_proxy_destroy (HevTaskDNSProxy *self)
 {
-    hev_task_aide_del (&self->work);
+    struct pollfd pfd;
+    char sync;
+
+    /* wait for the server to leave the proxy */
+    shutdown (self->fd, SHUT_WR);
+    pfd.fd = self->fd;
+    pfd.events = POLLIN;
+    while ((0 > read (self->fd, &sync, sizeof (sync))) && (EAGAIN == errno))
+        poll (&pfd, 1, -1);
+
     close (self->work.fd);
     close (self->fd);
     hev_free (self);
-- 
2.43.0


From c0a7c039fa077a6b26189dbfb8b7ac53d457fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:33 +0000
Subject: [PATCH 28/42] fix: fill class tables once

Two threads that used a class for the first time at the same moment could
see a table that was only partly filled, as its name was set first.
---
 src/lib/cio/base/hev-task-cio.c          | 20 ++++++++++++------
 src/lib/cio/buffer/hev-task-cio-buffer.c | 20 ++++++++++++------
 src/lib/cio/fd/hev-task-cio-fd.c         | 20 ++++++++++++------
 src/lib/cio/null/hev-task-cio-null.c     | 20 ++++++++++++------
 src/lib/cio/socket/hev-task-cio-socket.c | 20 ++++++++++++------
 src/lib/object/hev-object-atomic.c       | 27 +++++++++++++++---------
 src/lib/object/hev-object.c              | 15 ++++++-------
 7 files changed, 88 insertions(+), 54 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.c b/src/lib/cio/base/hev-task-cio.c
index 4af81d4..05200b0 100644
--- a/src/lib/cio/base/hev-task-cio.c
+++ b/src/lib/cio/base/hev-task-cio.c
@@ -9,6 +9,7 @@
 
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 
 #include "kern/task/hev-task.h"
 #include "lib/io/basic/hev-task-io.h"
@@ -549,16 +550,15 @@ _hev_task_cio_destruct (HevObject *base)
     HEV_OBJECT_TYPE->destruct (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_class (void)
+static HevTaskCIOClass klass;
+static pthread_once_t klass_once = PTHREAD_ONCE_INIT;
+
+static void
+_hev_task_cio_class_init (void)
 {
-    static HevTaskCIOClass klass;
     HevTaskCIOClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_OBJECT_TYPE, sizeof (HevObjectClass));
 
     okptr->name = "HevTaskCIO";
@@ -573,6 +573,12 @@ hev_task_cio_class (void)
     kptr->readv_dgram = hev_task_cio_next_readv_dgram;
     kptr->writev_dgram = hev_task_cio_next_writev_dgram;
     kptr->ctrl = hev_task_cio_next_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_class (void)
+{
+    pthread_once (&klass_once, _hev_task_cio_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index a94518f..4c650cf 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -9,6 +9,7 @@
 
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 
 #include "kern/task/hev-task.h"
 #include "lib/io/basic/hev-task-io.h"
@@ -332,17 +333,16 @@ _hev_task_cio_buffer_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_buffer_class (void)
+static HevTaskCIOBufferClass klass;
+static pthread_once_t klass_once = PTHREAD_ONCE_INIT;
+
+static void
+_hev_task_cio_buffer_class_init (void)
 {
-    static HevTaskCIOBufferClass klass;
     HevTaskCIOBufferClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
     HevTaskCIOClass *ckptr;
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));
 
     okptr->name = "HevTaskCIOBuffer";
@@ -354,6 +354,12 @@ hev_task_cio_buffer_class (void)
     ckptr->readv = _hev_task_cio_buffer_readv;
     ckptr->writev = _hev_task_cio_buffer_writev;
     ckptr->ctrl = _hev_task_cio_buffer_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_buffer_class (void)
+{
+    pthread_once (&klass_once, _hev_task_cio_buffer_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/cio/fd/hev-task-cio-fd.c b/src/lib/cio/fd/hev-task-cio-fd.c
index 78ca7bf..aac0516 100644
--- a/src/lib/cio/fd/hev-task-cio-fd.c
+++ b/src/lib/cio/fd/hev-task-cio-fd.c
@@ -9,6 +9,7 @@
 
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 #include <unistd.h>
 
 #include "kern/task/hev-task.h"
@@ -133,17 +134,16 @@ _hev_task_cio_fd_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_fd_class (void)
+static HevTaskCIOFdClass klass;
+static pthread_once_t klass_once = PTHREAD_ONCE_INIT;
+
+static void
+_hev_task_cio_fd_class_init (void)
 {
-    static HevTaskCIOFdClass klass;
     HevTaskCIOFdClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
     HevTaskCIOClass *ckptr;
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));
 
     okptr->name = "HevTaskCIOFd";
@@ -155,6 +155,12 @@ hev_task_cio_fd_class (void)
     ckptr->readv = _hev_task_cio_fd_readv;
     ckptr->writev = _hev_task_cio_fd_writev;
     ckptr->ctrl = _hev_task_cio_fd_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_fd_class (void)
+{
+    pthread_once (&klass_once, _hev_task_cio_fd_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/cio/null/hev-task-cio-null.c b/src/lib/cio/null/hev-task-cio-null.c
index c185e80..9b02acc 100644
--- a/src/lib/cio/null/hev-task-cio-null.c
+++ b/src/lib/cio/null/hev-task-cio-null.c
@@ -8,6 +8,7 @@
  */
 
 #include <string.h>
+#include <pthread.h>
 
 #include "kern/task/hev-task.h"
 #include "lib/io/basic/hev-task-io.h"
@@ -130,17 +131,16 @@ _hev_task_cio_null_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_null_class (void)
+static HevTaskCIONullClass klass;
+static pthread_once_t klass_once = PTHREAD_ONCE_INIT;
+
+static void
+_hev_task_cio_null_class_init (void)
 {
-    static HevTaskCIONullClass klass;
     HevTaskCIONullClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
     HevTaskCIOClass *ckptr;
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));
 
     okptr->name = "HevTaskCIONull";
@@ -156,6 +156,12 @@ hev_task_cio_null_class (void)
     ckptr->readv_dgram = _hev_task_cio_null_readv_dgram;
     ckptr->writev_dgram = _hev_task_cio_null_writev_dgram;
     ckptr->ctrl = _hev_task_cio_null_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_null_class (void)
+{
+    pthread_once (&klass_once, _hev_task_cio_null_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/cio/socket/hev-task-cio-socket.c b/src/lib/cio/socket/hev-task-cio-socket.c
index 02271a4..ac9684a 100644
--- a/src/lib/cio/socket/hev-task-cio-socket.c
+++ b/src/lib/cio/socket/hev-task-cio-socket.c
@@ -9,6 +9,7 @@
 
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 #include <unistd.h>
 #include <netinet/in.h>
 #include <sys/socket.h>
@@ -214,17 +215,16 @@ _hev_task_cio_socket_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_socket_class (void)
+static HevTaskCIOSocketClass klass;
+static pthread_once_t klass_once = PTHREAD_ONCE_INIT;
+
+static void
+_hev_task_cio_socket_class_init (void)
 {
-    static HevTaskCIOSocketClass klass;
     HevTaskCIOSocketClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
     HevTaskCIOClass *ckptr;
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));
 
     okptr->name = "HevTaskCIOSocket";
@@ -240,6 +240,12 @@ hev_task_cio_socket_class (void)
     ckptr->readv_dgram = _hev_task_cio_socket_readv_dgram;
     ckptr->writev_dgram = _hev_task_cio_socket_writev_dgram;
     ckptr->ctrl = _hev_task_cio_socket_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_socket_class (void)
+{
+    pthread_once (&klass_once, _hev_task_cio_socket_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/object/hev-object-atomic.c b/src/lib/object/hev-object-atomic.c
index 4d93ba7..d8e44f7 100644
--- a/src/lib/object/hev-object-atomic.c
+++ b/src/lib/object/hev-object-atomic.c
@@ -8,6 +8,7 @@
  */
 
 #include <string.h>
+#include <pthread.h>
 #include <stdatomic.h>
 
 #include "lib/misc/hev-compiler.h"
@@ -54,20 +55,26 @@ _hev_object_atomic_ref (HevObject *base, int ref)
     kptr->destruct (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_object_atomic_class (void)
+static HevObjectAtomicClass klass;
+static pthread_once_t klass_once = PTHREAD_ONCE_INIT;
+
+static void
+_hev_object_atomic_class_init (void)
 {
-    static HevObjectAtomicClass klass;
     HevObjectAtomicClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
 
-    if (!okptr->name) {
-        memcpy (kptr, HEV_OBJECT_TYPE, sizeof (HevObjectClass));
+    memcpy (kptr, HEV_OBJECT_TYPE, sizeof (HevObjectClass));
 
-        okptr->name = "HevObjectAtomic";
-        okptr->destruct = _hev_object_atomic_destruct;
-        okptr->ref = _hev_object_atomic_ref;
-    }
+    okptr->name = "HevObjectAtomic";
+    okptr->destruct = _hev_object_atomic_destruct;
+    okptr->ref = _hev_object_atomic_ref;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_object_atomic_class (void)
+{
+    pthread_once (&klass_once, _hev_object_atomic_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/object/hev-object.c b/src/lib/object/hev-object.c
index 910cd2f..a1af539 100644
--- a/src/lib/object/hev-object.c
+++ b/src/lib/object/hev-object.c
@@ -45,14 +45,11 @@ _hev_object_ref (HevObject *self, int ref)
 EXPORT_SYMBOL HevObjectClass *
 hev_object_class (void)
 {
-    static HevObjectClass klass;
-    HevObjectClass *kptr = &klass;
+    static HevObjectClass klass = {
+        .name = "HevObject",
+        .ref = _hev_object_ref,
+        .destruct = _hev_object_destruct,
+    };
 
-    if (!kptr->name) {
-        kptr->name = "HevObject";
-        kptr->destruct = _hev_object_destruct;
-        kptr->ref = _hev_object_ref;
-    }
-
-    return kptr;
+    return &klass;
 }
-- 
2.43.0


From 4bcd8178a0767a49e2f39d2388e08b34b6eaebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:04 +0000
Subject: [PATCH 29/42] fix: order the last unref of an atomic object

The destructor could run before the accesses other threads made to the
object ahead of dropping their references.
---
 src/lib/object/hev-object-atomic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/object/hev-object-atomic.c b/src/lib/object/hev-object-atomic.c
index d8e44f7..70b71e9 100644
--- a/src/lib/object/hev-object-atomic.c
+++ b/src/lib/object/hev-object-atomic.c
@@ -48,7 +48,7 @@ _hev_object_atomic_ref (HevObject *base, int ref)
         return;
     }
 
-    rc = atomic_fetch_sub_explicit (rcp, 1, memory_order_relaxed);
+    rc = atomic_fetch_sub_explicit (rcp, 1, memory_order_acq_rel);
     if (rc > 1)
         return;
 
-- 
2.43.0


From af292a9df790bff145e29025dd4c2cb3011e5d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:28 +0000
Subject: [PATCH 30/42] fix: fail an allocation when the thread's allocator
 cannot be made

The default allocator of a thread is made on first use. When that failed,
hev_malloc and friends used a null pointer, and an allocator that could not
be stored for the thread was leaked or released while still in use.
---
 src/mem/api/hev-memory-allocator-api.c | 10 ++++++++++
 src/mem/base/hev-memory-allocator.c    |  8 ++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/mem/api/hev-memory-allocator-api.c b/src/mem/api/hev-memory-allocator-api.c
index 399fa4e..38cd8f3 100644
--- a/src/mem/api/hev-memory-allocator-api.c
+++ b/src/mem/api/hev-memory-allocator-api.c
@@ -20,6 +20,8 @@ hev_malloc (size_t size)
     HevMemoryAllocator *allocator;
 
     allocator = hev_memory_allocator_default ();
+    if (!allocator)
+        return NULL;
     return hev_memory_allocator_alloc (allocator, size);
 }
 
@@ -30,6 +32,8 @@ hev_malloc0 (size_t size)
     void *data;
 
     allocator = hev_memory_allocator_default ();
+    if (!allocator)
+        return NULL;
     data = hev_memory_allocator_alloc (allocator, size);
     if (data)
         memset (data, 0, size);
@@ -49,6 +53,8 @@ hev_calloc (size_t nmemb, size_t size)
         return NULL;
 
     allocator = hev_memory_allocator_default ();
+    if (!allocator)
+        return NULL;
     data = hev_memory_allocator_alloc (allocator, size);
     if (data)
         memset (data, 0, size);
@@ -61,6 +67,8 @@ hev_realloc (void *ptr, size_t size)
     HevMemoryAllocator *allocator;
 
     allocator = hev_memory_allocator_default ();
+    if (!allocator)
+        return NULL;
     return hev_memory_allocator_realloc (allocator, ptr, size);
 }
 
@@ -70,5 +78,7 @@ hev_free (void *ptr)
     HevMemoryAllocator *allocator;
 
     allocator = hev_memory_allocator_default ();
+    if (!allocator)
+        return;
     hev_memory_allocator_free (allocator, ptr);
 }
diff --git a/src/mem/base/hev-memory-allocator.c b/src/mem/base/hev-memory-allocator.c
index 7262928..1ee1bcd 100644
--- a/src/mem/base/hev-memory-allocator.c
+++ b/src/mem/base/hev-memory-allocator.c
@@ -35,7 +35,10 @@ hev_memory_allocator_default (void)
     allocator = pthread_getspecific (key);
     if (!allocator) {
         allocator = hev_memory_allocator_simple_new ();
-        pthread_setspecific (key, allocator);
+        if (allocator && pthread_setspecific (key, allocator) != 0) {
+            hev_memory_allocator_unref (allocator);
+            allocator = NULL;
+        }
     }
 
     return allocator;
@@ -49,7 +52,8 @@ hev_memory_allocator_set_default (HevMemoryAllocator *allocator)
     pthread_once (&key_once, pthread_key_creator);
 
     old_allocator = pthread_getspecific (key);
-    pthread_setspecific (key, allocator);
+    if (pthread_setspecific (key, allocator) != 0)
+        return allocator;
 
     return old_allocator;
 }
-- 
2.43.0


From 8d610c730bec55afc80312156f529e0073f4bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:28 +0000
Subject: [PATCH 31/42] fix: notice when the context of a thread cannot be
 stored

pthread_setspecific returns a positive number on failure, so init went on
without a context and crashed.
---
 src/kern/core/hev-task-system.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/core/hev-task-system.c b/src/kern/core/hev-task-system.c
index 10f5761..25b20fe 100644
--- a/src/kern/core/hev-task-system.c
+++ b/src/kern/core/hev-task-system.c
@@ -62,7 +62,7 @@ hev_task_system_init (void)
     if (!context)
         goto exit;
 
-    if (hev_task_system_set_context (context) < 0)
+    if (hev_task_system_set_context (context) != 0)
         goto free_context;
 
     context->reactor = hev_task_io_reactor_new ();
-- 
2.43.0


From 2a51059ea876fdf494269a456308ea0e099e985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:44 +0000
Subject: [PATCH 32/42] fix: release the allocator when init fails

A failed hev_task_system_init left its memory allocator as the default one of
the thread. Nobody releases it, as there is nothing to finalize.
---
 src/kern/core/hev-task-system.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kern/core/hev-task-system.c b/src/kern/core/hev-task-system.c
index 25b20fe..6b7cbda 100644
--- a/src/kern/core/hev-task-system.c
+++ b/src/kern/core/hev-task-system.c
@@ -60,7 +60,7 @@ hev_task_system_init (void)
 
     context = hev_malloc0 (sizeof (HevTaskSystemContext));
     if (!context)
-        goto exit;
+        goto reset_allocator;
 
     if (hev_task_system_set_context (context) != 0)
         goto free_context;
@@ -87,6 +87,10 @@ rest_context:
     hev_task_system_set_context (NULL);
 free_context:
     hev_free (context);
+reset_allocator:
+    allocator = hev_memory_allocator_set_default (NULL);
+    if (allocator)
+        hev_memory_allocator_unref (allocator);
 exit:
     return -1;
 }
-- 
2.43.0


From 2989c10226b8b6aeaa65c8edcc1fd2de95a9b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:44 +0000
Subject: [PATCH 33/42] fix: release the allocator of a helper thread that
 gives up

The helper thread for lookups ends when it cannot make its reactor. The
memory allocator of the thread was leaked.
---
 src/kern/aide/hev-task-aide.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kern/aide/hev-task-aide.c b/src/kern/aide/hev-task-aide.c
index 7458257..58c370a 100644
--- a/src/kern/aide/hev-task-aide.c
+++ b/src/kern/aide/hev-task-aide.c
@@ -15,6 +15,7 @@
 #include "kern/task/hev-task-private.h"
 #include "kern/io/hev-task-io-reactor.h"
 #include "lib/io/basic/hev-task-io.h"
+#include "mem/base/hev-memory-allocator.h"
 
 #include "hev-task-aide.h"
 
@@ -38,8 +39,14 @@ hev_task_aide_entry (void *data)
     pthread_cond_broadcast (&cond);
     pthread_mutex_unlock (&mutex);
 
-    if (failed)
+    if (failed) {
+        HevMemoryAllocator *allocator;
+
+        allocator = hev_memory_allocator_set_default (NULL);
+        if (allocator)
+            hev_memory_allocator_unref (allocator);
         return NULL;
+    }
 
     for (;;) {
         HevTaskIOReactorWaitEvent events[256];
-- 
2.43.0


From 259664ca57a35275353d1e36b459bd1bc086e222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:53 +0000
Subject: [PATCH 34/42] fix: close the descriptor of a reactor that cannot be
 set up

---
 src/kern/io/hev-task-io-reactor.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kern/io/hev-task-io-reactor.c b/src/kern/io/hev-task-io-reactor.c
index 8abf1d3..4f0d698 100644
--- a/src/kern/io/hev-task-io-reactor.c
+++ b/src/kern/io/hev-task-io-reactor.c
@@ -32,12 +32,14 @@ hev_task_io_reactor_new (void)
 
     flags = fcntl (self->fd, F_GETFD);
     if (flags < 0) {
+        close (self->fd);
         hev_free (self);
         return NULL;
     }
 
     flags |= FD_CLOEXEC;
     if (fcntl (self->fd, F_SETFD, flags) < 0) {
+        close (self->fd);
         hev_free (self);
         return NULL;
     }
-- 
2.43.0


From 71b32aa35e31240bf5a7c24453942f1261ae2414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:53 +0000
Subject: [PATCH 35/42] fix: do not mark a heap stack that could not be
 allocated

---
 src/kern/task/hev-task-stack-heap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kern/task/hev-task-stack-heap.c b/src/kern/task/hev-task-stack-heap.c
index 63d9ffc..3357bbb 100644
--- a/src/kern/task/hev-task-stack-heap.c
+++ b/src/kern/task/hev-task-stack-heap.c
@@ -70,9 +70,10 @@ hev_task_stack_new (int size)
 
     size += STACK_OVERFLOW_DETECTION_SIZE;
     self = hev_malloc (sizeof (HevTaskStack) + size);
-    if (self)
-        self->size = size;
+    if (!self)
+        return NULL;
 
+    self->size = size;
     hev_task_stack_detection_mark (self);
     return self;
 }
-- 
2.43.0


From ffed6a743634c1f7b61c3f3799355e59eef1a311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:09 +0000
Subject: [PATCH 36/42] fix: undo the signal set-up when it fails half-way

The alternate stack stayed installed after its memory was freed.
---
 src/lib/misc/hev-task-stack-detector.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index 43d21a5..a488d37 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -109,16 +109,22 @@ hev_task_stack_detector_new (void)
     pthread_mutex_lock (&mutex);
     if (!users) {
         res |= sigaction (SIGBUS, &sa, &bus_sa);
-        res |= sigaction (SIGSEGV, &sa, &segv_sa);
+        if (res == 0) {
+            res |= sigaction (SIGSEGV, &sa, &segv_sa);
+            if (res < 0)
+                sigaction (SIGBUS, &bus_sa, NULL);
+        }
     }
     if (res == 0)
         users++;
     pthread_mutex_unlock (&mutex);
     if (res < 0)
-        goto free;
+        goto restore;
 
     return self;
 
+restore:
+    setaltstack (&self->oss, NULL);
 free:
     free (self);
 exit:
-- 
2.43.0


From 23d19ac36dbd8b99724cd8db26228fc8d9984f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:17 +0000
Subject: [PATCH 37/42] fix: fail a splice when the size of its pipe is unknown

The size was taken as -1, which the kernel refuses as a length. One direction
stayed dead while the other one was served.
---
 src/lib/io/basic/hev-task-io.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/basic/hev-task-io.c b/src/lib/io/basic/hev-task-io.c
index 51000f3..bb6be9a 100644
--- a/src/lib/io/basic/hev-task-io.c
+++ b/src/lib/io/basic/hev-task-io.c
@@ -226,7 +226,10 @@ task_io_splicer_init (HevTaskIOSplicer *self, size_t buf_size)
         goto exit_close;
 
 #ifdef F_GETPIPE_SZ
-    buf_size = fcntl (self->fd[0], F_GETPIPE_SZ);
+    res = fcntl (self->fd[0], F_GETPIPE_SZ);
+    if (res < 0)
+        goto exit_close;
+    buf_size = res;
 #endif
 
     self->wlen = 0;
-- 
2.43.0


From 10ab1a4526cb2cc92d2e46e5a1fed272a926ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:16:17 +0000
Subject: [PATCH 38/42] fix: wake tasks for every event that can be polled for

Registrations only passed on POLLIN, POLLOUT and POLLERR. A task that
registered or polled for urgent data, a half-closed peer or one of the
normal/band variants was never woken, although poll reports them.
---
 src/kern/io/hev-task-io-reactor-epoll.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kern/io/hev-task-io-reactor-epoll.h b/src/kern/io/hev-task-io-reactor-epoll.h
index b1c6976..9004550 100644
--- a/src/kern/io/hev-task-io-reactor-epoll.h
+++ b/src/kern/io/hev-task-io-reactor-epoll.h
@@ -79,6 +79,10 @@ hev_task_io_reactor_setup_event_gen (HevTaskIOReactorSetupEvent *events, int fd,
     if (poll_events & POLLERR)
         reactor_events |= HEV_TASK_IO_REACTOR_EV_ER;
 
+    /* the others have the same values as in poll */
+    reactor_events |= poll_events & (EPOLLPRI | EPOLLRDNORM | EPOLLRDBAND |
+                                     EPOLLWRNORM | EPOLLWRBAND | EPOLLRDHUP);
+
     hev_task_io_reactor_setup_event_set (events, fd, op, reactor_events, data);
 
     return 1;
-- 
2.43.0


From c38fb8debfdfb897fe9b66af6f3fc1635b5f17ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:07 +0000
Subject: [PATCH 39/42] fix: pass on faults in threads without a task system

---
 src/lib/misc/hev-task-stack-detector.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index a488d37..cb77ff9 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -52,7 +52,11 @@ static void
 signal_handler (int signo, siginfo_t *si, void *unused)
 {
     HevTaskSystemContext *context = hev_task_system_get_context ();
-    HevListNode *node = hev_list_first (&context->all_tasks);
+    HevListNode *node = NULL;
+
+    /* the thread may have no task system */
+    if (context)
+        node = hev_list_first (&context->all_tasks);
 
     for (; node; node = hev_list_node_next (node)) {
         HevTask *task = container_of (node, HevTask, list_node);
-- 
2.43.0


From 6899391ace77aabf86e27257a997cddaa9ae2bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:22:14 +0000
Subject: [PATCH 40/42] fix: keep the program's larger alternate signal stack

The stack detector replaced the alternate signal stack of the thread by one
of SIGSTKSZ bytes. A signal handler of the program that relies on a larger
stack of its own then overran it into the heap. Install the detector's stack
only when the thread has none, or a smaller one.
---
 src/lib/misc/hev-task-stack-detector.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index cb77ff9..40505ae 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -106,7 +106,11 @@ hev_task_stack_detector_new (void)
     sa.sa_sigaction = signal_handler;
     sigemptyset (&sa.sa_mask);
 
-    res |= setaltstack (&ss, &self->oss);
+    self->oss.ss_flags = SS_DISABLE;
+    res |= setaltstack (NULL, &self->oss);
+    /* keep the program's stack, its handlers may need all of it */
+    if ((self->oss.ss_flags & SS_DISABLE) || self->oss.ss_size < SIGSTKSZ)
+        res |= setaltstack (&ss, NULL);
     if (res < 0)
         goto free;
 
-- 
2.43.0


From b08e7b9255d40cea26a1a227623faa6838c4ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:29:45 +0000
Subject: [PATCH 41/42] fix: know the previous fault handlers before replacing
 them

Another thread that faulted while the first task system was being set up
could run the new handler before the previous action was stored, and the
process died from a call through a null pointer. Read the previous
actions first.
---
 src/lib/misc/hev-task-stack-detector.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index 40505ae..cad94e6 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -116,9 +116,13 @@ hev_task_stack_detector_new (void)
 
     pthread_mutex_lock (&mutex);
     if (!users) {
-        res |= sigaction (SIGBUS, &sa, &bus_sa);
+        /* a fault in another thread may need them at once */
+        res |= sigaction (SIGBUS, NULL, &bus_sa);
+        res |= sigaction (SIGSEGV, NULL, &segv_sa);
+        if (res == 0)
+            res |= sigaction (SIGBUS, &sa, NULL);
         if (res == 0) {
-            res |= sigaction (SIGSEGV, &sa, &segv_sa);
+            res |= sigaction (SIGSEGV, &sa, NULL);
             if (res < 0)
                 sigaction (SIGBUS, &bus_sa, NULL);
         }
-- 
2.43.0


From d45048fd1c1dbbc7912653110d198578054c8f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:44:24 +0000
Subject: [PATCH 42/42] fix: refuse a second initialisation before replacing
 the allocator

hev_task_system_init() in a thread that already has a task system returns
-1, but only after the thread's memory allocator had been replaced.  When
the new allocator could not be created, the plain one took over, and the
blocks handed out earlier were then freed as something they are not.
Look for an existing system first.
---
 src/kern/core/hev-task-system.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kern/core/hev-task-system.c b/src/kern/core/hev-task-system.c
index 6b7cbda..76cab14 100644
--- a/src/kern/core/hev-task-system.c
+++ b/src/kern/core/hev-task-system.c
@@ -46,6 +46,11 @@ hev_task_system_init (void)
     HevMemoryAllocator *allocator = NULL;
     HevTaskSystemContext *context;
 
+    pthread_once (&key_once, pthread_key_creator);
+
+    if (hev_task_system_get_context ())
+        goto exit;
+
 #ifdef ENABLE_MEMALLOC_SLICE
     allocator = hev_memory_allocator_slice_new ();
 #endif
@@ -53,11 +58,6 @@ hev_task_system_init (void)
     if (allocator)
         hev_memory_allocator_unref (allocator);
 
-    pthread_once (&key_once, pthread_key_creator);
-
-    if (hev_task_system_get_context ())
-        goto exit;
-
     context = hev_malloc0 (sizeof (HevTaskSystemContext));
     if (!context)
         goto reset_allocator;
-- 
2.43.0

