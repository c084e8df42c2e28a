From 8eae9bd7407f2f01eb8c1f180f5b7d7b89550f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 01/96] fix: crash when closing a coroutine that is inside of
 hclose()

---
 cr.c | 9 +++++++--
 cr.h | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cr.c b/cr.c
index fdd5bb0..328a7b0 100644
--- a/cr.c
+++ b/cr.c
@@ -296,6 +296,7 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     cr->no_blocking1 = 0;
     cr->no_blocking2 = 0;
     cr->done = 0;
+    cr->closing = 0;
     cr->mem = *ptr ? 1 : 0;
 #if defined DILL_VALGRIND
     cr->sid = VALGRIND_STACK_REGISTER((char*)(cr + 1) - stacksz, cr);
@@ -382,8 +383,10 @@ static void dill_cr_close(struct dill_hvfs *vfs) {
     if(!cr->done) {
         /* No blocking calls from this point on. */
         cr->no_blocking1 = 1;
-        /* Resume the coroutine if it was blocked. */
-        if(!cr->ready.next)
+        /* Resume the coroutine if it was blocked. If it is itself waiting for
+           a different coroutine to finish, let it do so: hclose() is not
+           a blocking call. */
+        if(!cr->ready.next && !cr->closing)
             dill_cancel(cr, ECANCELED);
         /* Wait for the coroutine to stop executing. With no clauses added,
            the only mechanism to resume is through dill_cancel(). This is not
@@ -391,7 +394,9 @@ static void dill_cr_close(struct dill_hvfs *vfs) {
            coroutine that is being shut down is not permitted to block, we
            should get control back pretty quickly. */
         cr->closer = ctx->r;
+        ctx->r->closing = 1;
         int rc = dill_wait();
+        ctx->r->closing = 0;
         /* This assertion triggers when coroutine tries to close a bundle that
            it is part of. There's no sane way to handle that so let's just
            crash the process. */
diff --git a/cr.h b/cr.h
index 627bd72..23c8d9d 100644
--- a/cr.h
+++ b/cr.h
@@ -66,6 +66,9 @@ struct dill_cr {
     unsigned int no_blocking2 : 1;
     /* Set when the coroutine has finished its execution. */
     unsigned int done : 1;
+    /* Set while the coroutine is waiting inside of hclose() for a different
+       coroutine to finish. */
+    unsigned int closing : 1;
     /* If true, the coroutine was launched with go_mem. */
     unsigned int mem : 1;
     /* When the coroutine handle is being closed, this points to the
-- 
2.43.0


From ebe092ae828a8f97c250513cd8c3ff8fd4314652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 02/96] fix: bundle_mem(NULL) does not set errno

---
 cr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cr.c b/cr.c
index 328a7b0..dde0960 100644
--- a/cr.c
+++ b/cr.c
@@ -85,8 +85,7 @@ DILL_CT_ASSERT(sizeof(struct dill_bundle_storage) >=
     sizeof(struct dill_bundle));
 
 int dill_bundle_mem(struct dill_bundle_storage *mem) {
-    int err;
-    if(dill_slow(!mem)) {err = EINVAL; return -1;}
+    if(dill_slow(!mem)) {errno = EINVAL; return -1;}
     struct dill_bundle *b = (struct dill_bundle*)mem;
     b->vfs.query = dill_bundle_query;
     b->vfs.close = dill_bundle_close;
-- 
2.43.0


From 12d8ef16cd08f68f1c33812094889f7cf4a08f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:56 +0000
Subject: [PATCH 03/96] fix: deadlines more than INT_MAX ms away overflow the
 poll timeout

---
 cr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cr.c b/cr.c
index dde0960..e39752e 100644
--- a/cr.c
+++ b/cr.c
@@ -21,6 +21,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <string.h>
@@ -470,7 +471,8 @@ int dill_wait(void)  {
                     int64_t deadline = dill_cont(
                         dill_rbtree_first(&ctx->timers),
                         struct dill_tmclause, item)->item.val;
-                    timeout = (int) (nw >= deadline ? 0 : deadline - nw);
+                    int64_t diff = nw >= deadline ? 0 : deadline - nw;
+                    timeout = diff > INT_MAX ? INT_MAX : (int)diff;
                 }
             }
             /* Wait for events. */
-- 
2.43.0


From 929733ae00e8c51245f631233edd02a0d08a937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:56 +0000
Subject: [PATCH 04/96] fix: crash when bundle_wait() times out at the moment
 the bundle finishes

---
 cr.c | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/cr.c b/cr.c
index e39752e..093064e 100644
--- a/cr.c
+++ b/cr.c
@@ -75,13 +75,19 @@ struct dill_bundle {
     struct dill_hvfs vfs;
     /* List of coroutines in this bundle. */
     struct dill_list crs;
-    /* If somebody is doing hdone() on this bundle, here's the clause
-       to trigger when all coroutines are finished. */
-    struct dill_clause *waiter;
+    /* Clauses of the coroutines doing bundle_wait() on this bundle. They are
+       triggered when all coroutines are finished. */
+    struct dill_list waiters;
     /* If true, the bundle was created by bundle_mem. */
     unsigned int mem : 1;
 };
 
+struct dill_bundleclause {
+    struct dill_clause cl;
+    /* An item in dill_bundle::waiters list. */
+    struct dill_list item;
+};
+
 DILL_CT_ASSERT(sizeof(struct dill_bundle_storage) >=
     sizeof(struct dill_bundle));
 
@@ -91,7 +97,7 @@ int dill_bundle_mem(struct dill_bundle_storage *mem) {
     b->vfs.query = dill_bundle_query;
     b->vfs.close = dill_bundle_close;
     dill_list_init(&b->crs);
-    b->waiter = NULL;
+    dill_list_init(&b->waiters);
     b->mem = 1;
     return dill_hmake(&b->vfs);
 }
@@ -127,6 +133,11 @@ static void dill_bundle_close(struct dill_hvfs *vfs) {
     if(!self->mem) free(self);
 }
 
+static void dill_bundle_cancelwait(struct dill_clause *cl) {
+    struct dill_bundleclause *bcl = dill_cont(cl, struct dill_bundleclause, cl);
+    dill_list_erase(&bcl->item);
+}
+
 int dill_bundle_wait(int h, int64_t deadline) {
     int rc = dill_canblock();
     if(dill_slow(rc < 0)) return -1;
@@ -135,13 +146,12 @@ int dill_bundle_wait(int h, int64_t deadline) {
     /* If there are no coroutines in the bundle succeed immediately. */
     if(dill_list_empty(&self->crs)) return 0;
     /* Otherwise wait for all coroutines to finish. */
-    struct dill_clause cl;
-    self->waiter = &cl;
-    dill_waitfor(&cl, 0, NULL);
+    struct dill_bundleclause bcl;
+    dill_list_insert(&bcl.item, &self->waiters);
+    dill_waitfor(&bcl.cl, 0, dill_bundle_cancelwait);
     struct dill_tmclause tmcl;
     dill_timer(&tmcl, 1, deadline);
     int id = dill_wait();
-    self->waiter = NULL;
     if(dill_slow(id < 0)) return -1;
     if(dill_slow(id == 1)) {errno = ETIMEDOUT; return -1;}
     dill_assert(id == 0);
@@ -353,12 +363,17 @@ void dill_epilogue(void) {
     /* Deallocate the coroutine, unless, of course, it is already
        in the process of being closed. */
     if(!ctx->r->no_blocking1) {
-        /* If this is the last coroutine in the bundle and there's someone
-           waiting for hdone() on the bundle unblock them. */
+        /* If this is the last coroutine in the bundle unblock anyone doing
+           bundle_wait() on it. */
         if(dill_list_oneitem(&ctx->r->bundle)) {
             struct dill_bundle *b = dill_cont(ctx->r->bundle.next,
                 struct dill_bundle, crs);
-            if(b->waiter) dill_trigger(b->waiter, 0);
+            while(!dill_list_empty(&b->waiters)) {
+                struct dill_bundleclause *bcl = dill_cont(
+                    dill_list_next(&b->waiters), struct dill_bundleclause,
+                    item);
+                dill_trigger(&bcl->cl, 0);
+            }
         }
         dill_list_erase(&ctx->r->bundle);
         dill_cr_close(&ctx->r->vfs);
-- 
2.43.0


From 48d253eaf8efec2851231f63400c2a7784a14605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 05/96] fix: hclose uses stale pointer if handle table is
 reallocated during close

---
 handle.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/handle.c b/handle.c
index 3d658ca..a147253 100644
--- a/handle.c
+++ b/handle.c
@@ -155,6 +155,9 @@ int dill_hclose(int h) {
     hndl->vfs->close(hndl->vfs);
     /* Restore the previous state. */
     dill_no_blocking(old);
+    /* The handle array may have been reallocated in the meantime (other
+       coroutines may run while this one is waiting) so recompute the pointer. */
+    hndl = &ctx->handles[h];
     /* Mark the cache as invalid. */
     hndl->ptr = NULL;
     /* Return a handle to the shared pool. */
-- 
2.43.0


From 225a6f2a2a299adb2e4c9800753b0c18710753e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 06/96] fix: unused handles are lost when handle table grows

---
 handle.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/handle.c b/handle.c
index a147253..d06abf9 100644
--- a/handle.c
+++ b/handle.c
@@ -88,7 +88,8 @@ int dill_hmake(struct dill_hvfs *vfs) {
         for(i = ctx->nhandles; i != sz - 1; ++i)
             hndls[i].next = i + 1;
         hndls[sz - 1].next = -1;
-        ctx->first = ctx->nhandles;
+        if(ctx->first == -1) ctx->first = ctx->nhandles;
+        else hndls[ctx->last].next = ctx->nhandles;
         ctx->last = sz - 1; 
         /* Adjust the array. */
         ctx->handles = hndls;
-- 
2.43.0


From 90875ddd5164a3e7d892ae749b543e5deee45ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 07/96] fix: declare SSE/AVX512 registers as clobbered by
 dill_setjmp

go() returns with whatever values the coroutine left in the vector registers,
so floating-point locals of the function calling go() may get corrupted.
---
 libdill.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libdill.h b/libdill.h
index 7063aa0..7e464c3 100644
--- a/libdill.h
+++ b/libdill.h
@@ -143,6 +143,14 @@ DILL_EXPORT __attribute__((noinline)) void dill_epilogue(void);
 
 /* Stack-switching on X86-64. */
 #if defined(__x86_64__) && !defined DILL_ARCH_FALLBACK
+#if defined __AVX512F__
+#define DILL_CLOBBER_AVX512 \
+    , "xmm16", "xmm17", "xmm18", "xmm19", "xmm20", "xmm21", "xmm22", "xmm23",\
+      "xmm24", "xmm25", "xmm26", "xmm27", "xmm28", "xmm29", "xmm30", "xmm31",\
+      "k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"
+#else
+#define DILL_CLOBBER_AVX512
+#endif
 #define dill_setjmp(ctx) __extension__ ({\
     int ret;\
     asm("lea     LJMPRET%=(%%rip), %%rcx\n\t"\
@@ -158,7 +166,10 @@ DILL_EXPORT __attribute__((noinline)) void dill_epilogue(void);
         "LJMPRET%=:\n\t"\
         : "=a" (ret)\
         : "d" (ctx)\
-        : "memory", "rcx", "rsi", "rdi", "r8", "r9", "r10", "r11", "cc");\
+        : "memory", "rcx", "rsi", "rdi", "r8", "r9", "r10", "r11", "cc",\
+          "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7",\
+          "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15"\
+          DILL_CLOBBER_AVX512);\
     ret;\
 })
 #define dill_longjmp(ctx) \
-- 
2.43.0


From 41a211bf598cfdb4daf85670aa10505d2904b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 08/96] fix: go_mem with a very small buffer writes outside of
 the buffer

---
 cr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cr.c b/cr.c
index 093064e..48ab7d5 100644
--- a/cr.c
+++ b/cr.c
@@ -260,6 +260,8 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     int new_bundle = bndl < 0;
     if(new_bundle) {
         if(*ptr) {
+            if(dill_slow(len < sizeof(struct dill_bundle_storage))) {
+                err = ENOMEM; goto error1;}
             bndl = dill_bundle_mem(*ptr);
             *ptr = ((uint8_t*)*ptr) + sizeof(struct dill_bundle_storage);
             len -= sizeof(struct dill_bundle_storage);
@@ -284,10 +286,11 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
         uintptr_t top = (uintptr_t)*ptr;
         top += len;
         top &= ~(uintptr_t)15;
+        if(dill_slow(top < (uintptr_t)*ptr ||
+              top - (uintptr_t)*ptr < sizeof(struct dill_cr))) {
+            err = ENOMEM; goto error2;}
         stacksz = top - (uintptr_t)*ptr;
         cr = (struct dill_cr*)top;
-        if(dill_slow(stacksz < sizeof(struct dill_cr))) {
-            err = ENOMEM; goto error2;}
     }
 #if defined DILL_CENSUS
     /* Mark the bytes in the stack as unused. */
-- 
2.43.0


From a8a17423b9256ab6d293f61b6db6697411f10893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 09/96] fix: fdclean accesses memory out of bounds for invalid
 descriptors

---
 epoll.c.inc  | 1 +
 kqueue.c.inc | 1 +
 poll.c.inc   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/epoll.c.inc b/epoll.c.inc
index c925125..f2d0f69 100644
--- a/epoll.c.inc
+++ b/epoll.c.inc
@@ -175,6 +175,7 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     /* We cannot clean an fd that someone is waiting for. */
diff --git a/kqueue.c.inc b/kqueue.c.inc
index 92a0674..85f18f3 100644
--- a/kqueue.c.inc
+++ b/kqueue.c.inc
@@ -172,6 +172,7 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     /* We cannot clean an fd that someone is waiting for. */
diff --git a/poll.c.inc b/poll.c.inc
index a575799..dcfb1c4 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -166,6 +166,7 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     if(dill_slow(fdi->in || fdi->out)) {errno = EBUSY; return -1;}
-- 
2.43.0


From 51608d28dc5f7982a884c520b8df72eb0dd46b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 10/96] fix: poll-based pollset reuses stale events of removed
 descriptors

It may wake up with no coroutine to resume and crash.
---
 poll.c.inc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/poll.c.inc b/poll.c.inc
index dcfb1c4..075d3a6 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -132,6 +132,7 @@ int dill_pollset_in(struct dill_fdclause *fdcl, int id, int fd) {
         fdi->idx = ctx->pollset_size;
         ++ctx->pollset_size;
         ctx->pollset[fdi->idx].fd = fd;
+        ctx->pollset[fdi->idx].events = 0;
     }
     if(dill_slow(fdi->in)) {errno = EBUSY; return -1;}
     ctx->pollset[fdi->idx].events |= POLLIN;
@@ -155,6 +156,7 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
         fdi->idx = ctx->pollset_size;
         ++ctx->pollset_size;
         ctx->pollset[fdi->idx].fd = fd;
+        ctx->pollset[fdi->idx].events = 0;
     }
     if(dill_slow(fdi->out)) {errno = EBUSY; return -1;}
     ctx->pollset[fdi->idx].events |= POLLOUT;
@@ -192,6 +194,7 @@ int dill_pollset_poll(int timeout) {
     if(numevs < 0 && errno == EINTR) return -1;
     dill_assert(numevs >= 0);
     /* Fire file descriptor events as needed. */
+    int fired = 0;
     int i;
     for(i = 0; i != ctx->pollset_size; ++i) {
         struct pollfd *pfd = &ctx->pollset[i];
@@ -201,11 +204,13 @@ int dill_pollset_poll(int timeout) {
               pfd->revents & (POLLIN | POLLERR | POLLHUP | POLLNVAL)) {
             pfd->events &= ~POLLIN;
             dill_trigger(&fdi->in->cl, 0);
+            fired = 1;
         }
         if(fdi->out && 
               pfd->revents & (POLLOUT | POLLERR | POLLHUP | POLLNVAL)) {
             pfd->events &= ~POLLOUT;
             dill_trigger(&fdi->out->cl, 0);
+            fired = 1;
         }
         /* If nobody is polling for the fd remove it from the pollset. */
         if(!pfd->events) {
@@ -223,6 +228,6 @@ int dill_pollset_poll(int timeout) {
             --i;
         }
     }
-    return numevs > 0;
+    return fired;
 }
 
-- 
2.43.0


From 221aa61b2df75272409eb8a61b0cdb8b2b100ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:37 +0000
Subject: [PATCH 11/96] fix: closing or detaching a socket leaks its handle

tcp_close, ipc_close and the detach functions freed the socket but left its
handle open, pointing to freed memory.
---
 http.c   |  6 ++++--
 ipc.c    |  4 ++--
 prefix.c |  4 +++-
 suffix.c |  4 +++-
 tcp.c    |  4 ++--
 term.c   |  9 ++++++---
 tls.c    |  5 +++--
 ws.c     | 10 +++++++---
 8 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/http.c b/http.c
index 8dcb106..0efd6ba 100644
--- a/http.c
+++ b/http.c
@@ -116,8 +116,10 @@ int dill_http_detach(int s, int64_t deadline) {
     if(dill_slow(u < 0)) {err = errno; goto error;}
     u = dill_suffix_detach(u, deadline);
     if(dill_slow(u < 0)) {err = errno; goto error;}
-error:
-    if(!obj->mem) free(obj);
+error:;
+    obj->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     errno = err;
     return u;
 }
diff --git a/ipc.c b/ipc.c
index 06d64ab..510b233 100644
--- a/ipc.c
+++ b/ipc.c
@@ -321,10 +321,10 @@ int dill_ipc_close(int s, int64_t deadline) {
     int rc = dill_ipc_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
-    dill_ipc_hclose(&self->hvfs);
+    dill_hclose(s);
     return 0;
 error:
-    dill_ipc_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
diff --git a/prefix.c b/prefix.c
index 1746872..68d1325 100644
--- a/prefix.c
+++ b/prefix.c
@@ -117,7 +117,9 @@ int dill_prefix_detach(int s) {
     if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
     if(s >= 0) dill_hclose(s);
diff --git a/suffix.c b/suffix.c
index 1dce9e8..c577aed 100644
--- a/suffix.c
+++ b/suffix.c
@@ -121,7 +121,9 @@ int dill_suffix_detach(int s, int64_t deadline) {
     if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
     if(s >= 0) dill_hclose(s);
diff --git a/tcp.c b/tcp.c
index cdc72c9..e9edc6f 100644
--- a/tcp.c
+++ b/tcp.c
@@ -233,10 +233,10 @@ int dill_tcp_close(int s, int64_t deadline) {
     int rc = dill_tcp_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
-    dill_tcp_hclose(&self->hvfs);
+    dill_hclose(s);
     return 0;
 error:
-    dill_tcp_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
diff --git a/term.c b/term.c
index 5c91677..e41a6b5 100644
--- a/term.c
+++ b/term.c
@@ -144,11 +144,14 @@ int dill_term_detach(int s, int64_t deadline) {
             }
         }
     }
+    int rc;
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
-error:;
-    int rc = dill_hclose(s);
+error:
+    rc = dill_hclose(s);
     dill_assert(rc == 0);
     errno = err;
     return -1;
diff --git a/tls.c b/tls.c
index 958b10e..d2cf04d 100644
--- a/tls.c
+++ b/tls.c
@@ -277,10 +277,11 @@ int dill_tls_detach(int s, int64_t deadline) {
     }
     int u = self->u;
     self->u = -1;
-    dill_tls_hclose(&self->hvfs);
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
-    dill_tls_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
diff --git a/ws.c b/ws.c
index 013a516..6765f5f 100644
--- a/ws.c
+++ b/ws.c
@@ -557,14 +557,18 @@ int dill_ws_detach(int s, int status, const void *buf, size_t len,
         }
     }
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 }
 
 static void dill_ws_hclose(struct dill_hvfs *hvfs) {
     struct dill_ws_sock *self = (struct dill_ws_sock*)hvfs;
-    int rc = dill_hclose(self->u);
-    dill_assert(rc == 0);
+    if(dill_fast(self->u >= 0)) {
+        int rc = dill_hclose(self->u);
+        dill_assert(rc == 0);
+    }
     if(!self->mem) free(self);
 }
 
-- 
2.43.0


From 00383804d134f0d6afb1b376fceb8a30af2e1fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:25 +0000
Subject: [PATCH 12/96] fix: iol_rsvd left modified when an invalid iolist is
 rejected

---
 iol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iol.c b/iol.c
index c1d4d12..a69d0ac 100644
--- a/iol.c
+++ b/iol.c
@@ -51,7 +51,7 @@ int dill_iolcheck(struct iolist *first, struct iolist *last,
     return 0;
 error:;
     struct iolist *it2;
-    for(it2 = first; it2 != it; it2 = it2->iol_next) it->iol_rsvd = 0;
+    for(it2 = first; nbf; it2 = it2->iol_next, nbf--) it2->iol_rsvd = 0;
     errno = EINVAL;
     return -1;
 }
-- 
2.43.0


From d5641ab0654496201d4f43dbcf9a3596d19f3a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:25 +0000
Subject: [PATCH 13/96] fix: brecvl(s, NULL, NULL) dereferences NULL

---
 bsock.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bsock.c b/bsock.c
index e659a0d..00895be 100644
--- a/bsock.c
+++ b/bsock.c
@@ -58,7 +58,8 @@ int dill_brecvl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_bsock_vfs *b = dill_hquery(s, dill_bsock_type);
     if(dill_slow(!b)) return -1;
-    if(dill_slow((first && !last) || (!first && last) || last->iol_next)) {
+    if(dill_slow((first && !last) || (!first && last) ||
+          (last && last->iol_next))) {
         errno = EINVAL; return -1;}
     return b->brecvl(b, first, last, deadline);
 }
-- 
2.43.0


From 6c7343d6a51722f5ae39845ee960131bc15bff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:25 +0000
Subject: [PATCH 14/96] fix: malformed iolists are not rejected by all sockets

Only some code paths called dill_iolcheck(), the others looped forever
when given a list with a loop.
---
 bsock.c | 5 +++++
 msock.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/bsock.c b/bsock.c
index 00895be..7238369 100644
--- a/bsock.c
+++ b/bsock.c
@@ -27,6 +27,7 @@
 
 #define DILL_DISABLE_RAW_NAMES
 #include "libdillimpl.h"
+#include "iol.h"
 #include "utils.h"
 
 dill_unique_id(dill_bsock_type);
@@ -51,6 +52,8 @@ int dill_bsendl(int s, struct dill_iolist *first, struct dill_iolist *last,
     if(dill_slow(!b)) return -1;
     if(dill_slow(!first || !last || last->iol_next)) {
         errno = EINVAL; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     return b->bsendl(b, first, last, deadline);
 }
 
@@ -61,6 +64,8 @@ int dill_brecvl(int s, struct dill_iolist *first, struct dill_iolist *last,
     if(dill_slow((first && !last) || (!first && last) ||
           (last && last->iol_next))) {
         errno = EINVAL; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     return b->brecvl(b, first, last, deadline);
 }
 
diff --git a/msock.c b/msock.c
index c493bba..1d061c2 100644
--- a/msock.c
+++ b/msock.c
@@ -27,6 +27,7 @@
 
 #define DILL_DISABLE_RAW_NAMES
 #include "libdillimpl.h"
+#include "iol.h"
 #include "utils.h"
 
 dill_unique_id(dill_msock_type);
@@ -51,6 +52,8 @@ int dill_msendl(int s, struct dill_iolist *first, struct dill_iolist *last,
     if(dill_slow(!m)) return -1;
     if(dill_slow(!first || !last || last->iol_next)) {
         errno = EINVAL; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     return m->msendl(m, first, last, deadline);
 }
 
@@ -62,6 +65,8 @@ ssize_t dill_mrecvl(int s, struct dill_iolist *first, struct dill_iolist *last,
           (!first && last) ||
           (first && !last))) {
         errno = EINVAL; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     return m->mrecvl(m, first, last, deadline);
 }
 
-- 
2.43.0


From f8f3b13d6e31197651be1f26094d2013bde64b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:25 +0000
Subject: [PATCH 15/96] fix: prefix sockets refuse messages shorter than the
 receive list

---
 prefix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prefix.c b/prefix.c
index 68d1325..d0ca779 100644
--- a/prefix.c
+++ b/prefix.c
@@ -182,7 +182,7 @@ static ssize_t dill_prefix_mrecvl(struct dill_msock_vfs *mvfs,
     struct dill_iolist *old_next = it->iol_next;
     it->iol_len = rmn;
     it->iol_next = NULL;
-    rc = dill_brecvl(self->u, first, last, deadline);
+    rc = dill_brecvl(self->u, first, it, deadline);
     /* Get iolist to its original state. */
     it->iol_len = old_len;
     it->iol_next = old_next;
-- 
2.43.0


From 9bc9871ec09fff3aec1af527cfb903a66d9435d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:25 +0000
Subject: [PATCH 16/96] fix: prefix sockets truncate the size of too long
 messages

---
 prefix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prefix.c b/prefix.c
index d0ca779..27427e4 100644
--- a/prefix.c
+++ b/prefix.c
@@ -137,6 +137,8 @@ static int dill_prefix_msendl(struct dill_msock_vfs *mvfs,
     struct dill_iolist *it;
     for(it = first; it; it = it->iol_next)
         sz += it->iol_len;
+    if(dill_slow(self->hdrlen < sizeof(sz) && (sz >> (self->hdrlen * 8)))) {
+        errno = EMSGSIZE; return -1;}
     int i;
     for(i = 0; i != self->hdrlen; ++i) {
         szbuf[self->bigendian ? (self->hdrlen - i - 1) : i] = sz & 0xff;
-- 
2.43.0


From 073bf3c2cd9e037b443343277c4e0edb7ced8890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 17/96] fix: suffix sockets mishandle the receive list

mrecvl checked the size of the first element only, truncated messages that
did not fit instead of failing with EMSGSIZE, put data into wrong elements
after an element with NULL base and crashed when passed no list.
---
 suffix.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/suffix.c b/suffix.c
index c577aed..74001ad 100644
--- a/suffix.c
+++ b/suffix.c
@@ -158,21 +158,22 @@ static ssize_t dill_suffix_mrecvl(struct dill_msock_vfs *mvfs,
     iol.iol_base = self->buf + self->suffixlen - 1;
     iol.iol_len = 1;
     size_t sz = 0;
-    struct dill_iolist it = *first;
+    struct dill_iolist drop = {NULL, SIZE_MAX, NULL, 0};
+    struct dill_iolist it = first ? *first : drop;
     while(1) {
         /* Check for suffix. */
         if(memcmp(self->buf, self->suffix, self->suffixlen) == 0) break;
         /* Ignore empty iolist items. */
-        while(first->iol_len == 0) {
+        while(it.iol_len == 0) {
             if(!it.iol_next) {self->inerr = 1; errno = EMSGSIZE; return -1;}
             it = *it.iol_next;
         }
         /* Move one character to the user's iolist. */
-        if(it.iol_base && it.iol_len > 0) {
+        if(it.iol_base) {
             ((uint8_t*)it.iol_base)[0] = self->buf[0];
             it.iol_base = ((uint8_t*)it.iol_base) + 1;
-            it.iol_len--;
         }
+        it.iol_len--;
         /* Read new character into the temporary buffer. */
         memmove(self->buf, self->buf + 1, self->suffixlen - 1);
         rc = self->uvfs->brecvl(self->uvfs, &iol, &iol, deadline);
-- 
2.43.0


From d965c693f96c30b39723a06018339bb999b8775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:32 +0000
Subject: [PATCH 18/96] fix: term_attach overflows buffer if the terminal
 message is too long

---
 term.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/term.c b/term.c
index e41a6b5..e86596f 100644
--- a/term.c
+++ b/term.c
@@ -67,7 +67,7 @@ static void *dill_term_hquery(struct dill_hvfs *hvfs, const void *type) {
 int dill_term_attach_mem(int s, const void *buf, size_t len,
       struct dill_term_storage *mem) {
     int err;
-    if(dill_slow(!mem && len > DILL_MAX_TERMINATOR_LENGTH)) {
+    if(dill_slow(!mem || len > DILL_MAX_TERMINATOR_LENGTH)) {
         err = EINVAL; goto error;}
     if(dill_slow(len > 0 && !buf)) {err = EINVAL; goto error;}
     /* Take ownership of the underlying socket. */
-- 
2.43.0


From 4f9c91f8ef93356aea933d551fa8e6fdf8317120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:32 +0000
Subject: [PATCH 19/96] fix: term sockets can be used after the terminal
 message

---
 term.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/term.c b/term.c
index e86596f..e407dc7 100644
--- a/term.c
+++ b/term.c
@@ -160,6 +160,7 @@ error:
 static int dill_term_msendl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_term_sock *self = dill_cont(mvfs, struct dill_term_sock, mvfs);
+    if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     /* TODO: Check that it's not the terminal message. */
     return dill_msendl(self->u, first, last, deadline);
 }
@@ -167,6 +168,7 @@ static int dill_term_msendl(struct dill_msock_vfs *mvfs,
 static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_term_sock *self = dill_cont(mvfs, struct dill_term_sock, mvfs);
+    if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(self->len == 0) {
         ssize_t sz = dill_mrecvl(self->u, first, last, deadline);
         if(dill_slow(sz < 0)) return -1;
-- 
2.43.0


From f6a90827de1d54f9142d5c1e39d312ca0ca81caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:32 +0000
Subject: [PATCH 20/96] fix: term sockets mishandle the receive list

---
 term.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/term.c b/term.c
index e407dc7..f7e47f8 100644
--- a/term.c
+++ b/term.c
@@ -179,11 +179,14 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
         }
         return sz;
     }
+    struct dill_iolist drop = {NULL, SIZE_MAX, NULL, 0};
+    if(!first) first = last = &drop;
     struct dill_iolist trimmed = {0};
     int rc = dill_ioltrim(first, self->len, &trimmed);
     uint8_t buf[self->len];
     struct dill_iolist iol = {buf, self->len, rc < 0 ? NULL : &trimmed, 0}; 
-    ssize_t sz = dill_mrecvl(self->u, &iol, rc < 0 ? &iol : last, deadline);
+    ssize_t sz = dill_mrecvl(self->u, &iol,
+        rc < 0 ? &iol : trimmed.iol_next ? last : &trimmed, deadline);
     if(dill_slow(sz < 0)) return -1;
     if(dill_slow(sz == self->len &&
           dill_slow(memcmp(self->buf, buf, self->len) == 0))) {
@@ -191,7 +194,8 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
         errno = EPIPE;
         return -1;
     }
-    dill_iolto(buf, self->len, first);
+    rc = dill_iolto(buf, sz < self->len ? sz : self->len, first);
+    if(dill_slow(rc < 0)) {errno = EMSGSIZE; return -1;}
     return sz;
 }
 
-- 
2.43.0


From 0a0ed797e961927bdaeb1c07f33a8c53903e5fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 21/96] fix: http accepts any 8-character protocol version

---
 http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http.c b/http.c
index 0efd6ba..383e1e6 100644
--- a/http.c
+++ b/http.c
@@ -179,7 +179,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     /* Protocol. */
     start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
-    if(dill_slow(pos - start != 8 &&
+    if(dill_slow(pos - start != 8 ||
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -228,7 +228,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
     size_t start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start != 8 &&
+    if(dill_slow(pos - start != 8 ||
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
-- 
2.43.0


From b85a46e51c6a54d242f6253e9fc4f035742a7a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 22/96] fix: http_sendfield aborts if the value consists of
 spaces

---
 http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http.c b/http.c
index 383e1e6..4b19099 100644
--- a/http.c
+++ b/http.c
@@ -271,7 +271,7 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     iol[1].iol_rsvd = 0;
     const char *start = dill_lstrip(value, ' ');
     const char *end = dill_rstrip(start, ' ');
-    dill_assert(start < end);
+    if(dill_slow(start >= end)) {errno = EPROTO; return -1;}
     iol[2].iol_base = (void*)start;
     iol[2].iol_len = end - start;
     iol[2].iol_next = NULL;
-- 
2.43.0


From 84e9ae75c6efc2f8170e7b81145f80b2e74cd4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 23/96] fix: http_recvfield does not strip trailing spaces

---
 http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http.c b/http.c
index 4b19099..b435022 100644
--- a/http.c
+++ b/http.c
@@ -305,7 +305,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Value. */
     start = pos;
-    pos = dill_rstrip(obj->rxbuf + sz, ' ') - obj->rxbuf;
+    pos = dill_rstrip(obj->rxbuf + start, ' ') - obj->rxbuf;
     if(dill_slow(pos - start > valuelen - 1)) {errno = EMSGSIZE; return -1;}
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
-- 
2.43.0


From 2609e28a4a74c8c583dd89cc095ebaab89395fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 24/96] fix: http sends strings that are split or misparsed by
 the peer

CR and LF in a reason or value and CR anywhere else allowed to inject
additional lines, an empty command or resource shifts the remaining ones.
---
 http.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/http.c b/http.c
index b435022..c491653 100644
--- a/http.c
+++ b/http.c
@@ -128,8 +128,8 @@ int dill_http_sendrequest(int s, const char *command, const char *resource,
       int64_t deadline) {
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
-    if (strpbrk(command, " \t\n") != NULL) {errno = EINVAL; return -1;}
-    if (strpbrk(resource, " \t\n") != NULL) {errno = EINVAL; return -1;}
+    if (!*command || strpbrk(command, " \t\r\n") != NULL) {errno = EINVAL; return -1;}
+    if (!*resource || strpbrk(resource, " \t\r\n") != NULL) {errno = EINVAL; return -1;}
     struct dill_iolist iol[4];
     iol[0].iol_base = (void*)command;
     iol[0].iol_len = strlen(command);
@@ -191,6 +191,7 @@ int dill_http_sendstatus(int s, int status, const char *reason, int64_t deadline
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
     if(dill_slow(status < 100 || status > 599)) {errno = EINVAL; return -1;}
+    if (strpbrk(reason, "\r\n") != NULL) {errno = EINVAL; return -1;}
     char buf[4];
     buf[0] = (status / 100) + '0';
     status %= 100;
@@ -257,9 +258,10 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
     /* Check whether name contains only valid characters. */
-    if (strpbrk(name, "(),/:;<=>?@[\\]{}\" \t\n") != NULL) {
+    if (strpbrk(name, "(),/:;<=>?@[\\]{}\" \t\r\n") != NULL) {
         errno = EINVAL; return -1;}
     if (strlen(value) == 0) {errno = EPROTO; return -1;}
+    if (strpbrk(value, "\r\n") != NULL) {errno = EINVAL; return -1;}
     struct dill_iolist iol[3];
     iol[0].iol_base = (void*)name;
     iol[0].iol_len = strlen(name);
-- 
2.43.0


From 107229b5c4491d99415b9f0286e1a34abb5c6de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 25/96] fix: http writes to zero-sized buffers

---
 http.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/http.c b/http.c
index c491653..ccf942f 100644
--- a/http.c
+++ b/http.c
@@ -164,7 +164,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     size_t start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > commandlen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= commandlen)) {errno = EMSGSIZE; return -1;}
     memcpy(command, obj->rxbuf + start, pos - start);
     command[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -172,7 +172,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > resourcelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= resourcelen)) {errno = EMSGSIZE; return -1;}
     memcpy(resource, obj->rxbuf + start, pos - start);
     resource[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -247,7 +247,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
         (obj->rxbuf[start + 2] - '0');
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Reason. */
-    if(sz - pos > reasonlen - 1) {errno = EMSGSIZE; return -1;}
+    if(sz - pos >= reasonlen) {errno = EMSGSIZE; return -1;}
     memcpy(reason, obj->rxbuf + pos, sz - pos);
     reason[sz - pos] = 0;
     return status;
@@ -298,7 +298,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
           obj->rxbuf[pos] != ':')
         ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > namelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= namelen)) {errno = EMSGSIZE; return -1;}
     memcpy(name, obj->rxbuf + start, pos - start);
     name[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -308,7 +308,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     /* Value. */
     start = pos;
     pos = dill_rstrip(obj->rxbuf + start, ' ') - obj->rxbuf;
-    if(dill_slow(pos - start > valuelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= valuelen)) {errno = EMSGSIZE; return -1;}
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
-- 
2.43.0


From 2c9406882fc705eef73031bdd598936e510e6eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 26/96] fix: http accepts lines containing NUL

---
 http.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/http.c b/http.c
index ccf942f..08b5931 100644
--- a/http.c
+++ b/http.c
@@ -183,7 +183,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
-    if(dill_slow(obj->rxbuf[pos] != 0)) {errno = EPROTO; return -1;}
+    if(dill_slow(pos != sz)) {errno = EPROTO; return -1;}
     return 0;
 }
 
@@ -247,6 +247,8 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
         (obj->rxbuf[start + 2] - '0');
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Reason. */
+    if(dill_slow(memchr(obj->rxbuf + pos, 0, sz - pos))) {
+        errno = EPROTO; return -1;}
     if(sz - pos >= reasonlen) {errno = EMSGSIZE; return -1;}
     memcpy(reason, obj->rxbuf + pos, sz - pos);
     reason[sz - pos] = 0;
@@ -312,7 +314,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
-    if(dill_slow(obj->rxbuf[pos] != 0)) {errno = EPROTO; return -1;}
+    if(dill_slow(pos != sz)) {errno = EPROTO; return -1;}
     return 0;
 }
 
-- 
2.43.0


From 1a49db6ae0fb7e75184b30adaab834bca59dc0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 27/96] fix: ws client overflows header buffer for messages
 over 64kB

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 6765f5f..5c66168 100644
--- a/ws.c
+++ b/ws.c
@@ -324,7 +324,7 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
     size_t len;
     int rc = dill_iolcheck(first, last, NULL, &len);
     if(dill_slow(rc < 0)) return -1;
-    uint8_t buf[12];
+    uint8_t buf[14];
     size_t sz;
     buf[0] = 0x80 | type;
     if(len > 0xffff) {
-- 
2.43.0


From 7a66fd89d578772e5249532b8b100300170a5ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 28/96] fix: ws mrecvl with no list uses uninitialised memory

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 5c66168..51efab5 100644
--- a/ws.c
+++ b/ws.c
@@ -380,7 +380,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     if(dill_slow(rc < 0)) return -1;
     size_t res = 0;
     /* Message may consist of multiple frames. Read them one by one. */
-    struct dill_iolist it;
+    struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
     if(first) it = *first;
     while(1) {
         struct dill_iolist iol_msg;
-- 
2.43.0


From 679db0607c8ed1d3965cd8897c808087a7882438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 29/96] fix: ws corrupts messages received in several frames or
 buffers

The mask was restarted for each element of the list, each fragment
overwrote the previous one and the server dereferenced NULL elements.
---
 ws.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 51efab5..43dde83 100644
--- a/ws.c
+++ b/ws.c
@@ -438,16 +438,21 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             if(dill_slow(rc < 0)) return -1;
         }
         /* Frame may be read into multiple iolist elements. */
+        size_t pos = 0;
         while(1) {
             size_t toread = sz < it.iol_len ? sz : it.iol_len;
             if(toread > 0) {
                 rc = dill_brecv(self->u, it.iol_base, toread, deadline);
                 if(dill_slow(rc < 0)) return -1;
-                if(self->server) {
+                if(self->server && it.iol_base) {
                     size_t i;
                     for(i = 0; i != toread; ++i)
-                        ((uint8_t*)it.iol_base)[i] ^= mask[i % 4];
+                        ((uint8_t*)it.iol_base)[i] ^= mask[(pos + i) % 4];
                 }
+                /* Next frame continues where this one ends. */
+                if(it.iol_base) it.iol_base = (uint8_t*)it.iol_base + toread;
+                it.iol_len -= toread;
+                pos += toread;
             }
             sz -= toread;
             if(sz == 0) break;
-- 
2.43.0


From 1f297de6cb2851febe0b6fc030427937e3cd1d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 30/96] fix: ws accepts invalid sequences of frames

Continuation without a message, a new message inside of another one and
overflowing sizes were accepted, a close frame inside of a message was
misparsed.
---
 ws.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 43dde83..065de60 100644
--- a/ws.c
+++ b/ws.c
@@ -22,6 +22,7 @@
 
 */
 
+#include <limits.h>
 #include <errno.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -379,6 +380,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     int rc = dill_iolcheck(first, last, NULL, NULL);
     if(dill_slow(rc < 0)) return -1;
     size_t res = 0;
+    int fragmented = 0;
     /* Message may consist of multiple frames. Read them one by one. */
     struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
     if(first) it = *first;
@@ -392,14 +394,19 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         /* TODO: Other opcodes. */
         switch(opcode) {
         case 0:
+            if(dill_slow(!fragmented)) {errno = EPROTO; return -1;}
             break;
         case 1:
+            if(dill_slow(fragmented)) {errno = EPROTO; return -1;}
             if(flags) *flags = DILL_WS_TEXT;
             break;
         case 2:
+            if(dill_slow(fragmented)) {errno = EPROTO; return -1;}
             if(flags) *flags = DILL_WS_BINARY;
             break;
         case 8:
+            /* The rest of an incomplete message will never arrive. */
+            res = 0;
             it.iol_base = &self->status;
             it.iol_len = 2;
             it.iol_next = &iol_msg;
@@ -408,7 +415,6 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             iol_msg.iol_len = sizeof(self->msg);
             iol_msg.iol_next = NULL;
             iol_msg.iol_rsvd = 0;
-            self->indone = 1;
             break;
         default:
             errno = EPROTO;
@@ -428,6 +434,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             if(dill_slow(rc < 0)) return -1;
             sz = dill_getll(hdr2);
         }
+        if(dill_slow(sz > SSIZE_MAX - res)) {errno = EMSGSIZE; return -1;}
         res += sz;
         /* Control frames cannot be fragmented or longer than 125 bytes. */
         if(dill_slow(opcode >= 8 && (sz > 125 || !(hdr1[0] & 0x80)))) {
@@ -459,7 +466,12 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             if(dill_slow(!it.iol_next)) {errno = EMSGSIZE; return -1;}
             it = *it.iol_next;
         }
+        if(opcode == 8) {
+            self->indone = 1;
+            break;
+        }
         if(hdr1[0] & 0x80) break;
+        fragmented = 1;
     }
     if(dill_slow(self->indone)) {
         if(dill_slow(res == 1)) {errno = EPROTO; return -1;}
-- 
2.43.0


From 562d814e67f10779ceb2a7b9d764249ec5e19e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 31/96] fix: ws sockets lose frame boundaries after an error

After a failure in the middle of a frame the next call parsed or sent
data at a wrong position.
---
 ws.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/ws.c b/ws.c
index 065de60..c5e424a 100644
--- a/ws.c
+++ b/ws.c
@@ -42,6 +42,8 @@ struct dill_ws_sock {
     int flags;
     unsigned int indone : 1;
     unsigned int outdone: 1;
+    unsigned int inerr : 1;
+    unsigned int outerr : 1;
     unsigned int server : 1;
     unsigned int mem : 1;
     uint16_t status;
@@ -83,6 +85,8 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     self->flags = flags;
     self->indone = 0;
     self->outdone = 0;
+    self->inerr = 0;
+    self->outerr = 0;
     self->server = 0;
     self->mem = 1;
     self->status = 0;
@@ -205,6 +209,8 @@ int dill_ws_attach_server_mem(int s, int flags,
     self->flags = flags;
     self->indone = 0;
     self->outdone = 0;
+    self->inerr = 0;
+    self->outerr = 0;
     self->server = 1;
     self->mem = 1;
     self->status = 0;
@@ -318,10 +324,9 @@ error1:
     return -1;
 }
 
-static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
+static int dill_ws_sendframe(struct dill_msock_vfs *mvfs, uint8_t type,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
-    if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     size_t len;
     int rc = dill_iolcheck(first, last, NULL, &len);
     if(dill_slow(rc < 0)) return -1;
@@ -373,12 +378,22 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
     return 0;
 }
 
-static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
+static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
-    if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
+    if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
+    if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     int rc = dill_iolcheck(first, last, NULL, NULL);
     if(dill_slow(rc < 0)) return -1;
+    rc = dill_ws_sendframe(mvfs, type, first, last, deadline);
+    if(dill_slow(rc < 0 && errno != EBUSY)) self->outerr = 1;
+    return rc;
+}
+
+static ssize_t dill_ws_recvmsg(struct dill_msock_vfs *mvfs, int *flags,
+      struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
+    struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
+    int rc;
     size_t res = 0;
     int fragmented = 0;
     /* Message may consist of multiple frames. Read them one by one. */
@@ -488,6 +503,18 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     return res;
 }
 
+static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
+      struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
+    struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
+    if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
+    if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
+    ssize_t sz = dill_ws_recvmsg(mvfs, flags, first, last, deadline);
+    if(dill_slow(sz < 0 && errno != EBUSY && errno != EPIPE)) self->inerr = 1;
+    return sz;
+}
+
 int dill_ws_send(int s, int flags, const void *buf, size_t len,
       int64_t deadline) {
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
-- 
2.43.0


From 9f42717fb326a81c87c0c99dbea061d3ede080a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 32/96] fix: ws_attach_client leaks sockets if refused by the
 server

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index c5e424a..6ae1570 100644
--- a/ws.c
+++ b/ws.c
@@ -124,7 +124,7 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     char reason[256];
     rc = dill_http_recvstatus(s, reason, sizeof(reason), deadline);
     if(dill_slow(rc < 0)) {err = errno; goto error;}
-    if(dill_slow(rc != 101)) {errno = EPROTO; return -1;}
+    if(dill_slow(rc != 101)) {err = EPROTO; goto error;}
     int has_upgrade = 0;
     int has_connection = 0;
     int has_key = 0;
-- 
2.43.0


From 251bd73c1d83fe28f89da28350e15691f8a6831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 33/96] fix: ws_done sends invalid close frames

Control frames are limited to 125 bytes and a message cannot be sent
without a status.
---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 6ae1570..23d1f88 100644
--- a/ws.c
+++ b/ws.c
@@ -568,7 +568,8 @@ static ssize_t dill_ws_mrecvl(struct dill_msock_vfs *mvfs,
 int dill_ws_done(int s, int status, const void *buf, size_t len,
       int64_t deadline) {
     if(dill_slow((status != 0 && (status < 1000 || status > 4999)) ||
-        (!buf && len > 0))) {errno = EINVAL; return -1;}
+        (!buf && len > 0) || (status == 0 && len > 0) || len > 123)) {
+        errno = EINVAL; return -1;}
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
-- 
2.43.0


From 988ca45624e34f0d2c8fdc24a233419ceb81fa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 34/96] fix: ws_detach leaves the socket open in the case of
 error

---
 ws.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 23d1f88..f606f2f 100644
--- a/ws.c
+++ b/ws.c
@@ -586,11 +586,12 @@ int dill_ws_done(int s, int status, const void *buf, size_t len,
 
 int dill_ws_detach(int s, int status, const void *buf, size_t len,
       int64_t deadline) {
+    int err;
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
     if(dill_slow(!self)) return -1;
     if(!self->outdone) {
         int rc = dill_ws_done(s, status, buf, len, deadline);
-        if(dill_slow(rc < 0)) return -1;
+        if(dill_slow(rc < 0)) {err = errno; goto error;}
     }
     while(1) {
         struct dill_iolist iol = {NULL, SIZE_MAX, NULL, 0};
@@ -598,7 +599,8 @@ int dill_ws_detach(int s, int status, const void *buf, size_t len,
             deadline);
         if(sz < 0) {
              if(errno == EPIPE) break;
-             return -1;
+             err = errno;
+             goto error;
         }
     }
     int u = self->u;
@@ -606,6 +608,10 @@ int dill_ws_detach(int s, int status, const void *buf, size_t len,
     int rc = dill_hclose(s);
     dill_assert(rc == 0);
     return u;
+error:
+    dill_hclose(s);
+    errno = err;
+    return -1;
 }
 
 static void dill_ws_hclose(struct dill_hvfs *hvfs) {
-- 
2.43.0


From ca27fd6b06b6e725c87dd63f90962379e760a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 35/96] fix: base64 decoder reads out of bounds for non-ASCII
 characters

---
 utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils.c b/utils.c
index eb3582d..d164ddc 100644
--- a/utils.c
+++ b/utils.c
@@ -166,11 +166,11 @@ int dill_base64_decode(const char *in, size_t in_len, uint8_t *out,
         0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF};
 
     for(io = 0, ii = 0, v = 0, rem = 0; ii < in_len; ii++) {
-        if(isspace(in[ii]))
+        if(isspace((uint8_t)in[ii]))
             continue;
         if(in[ii] == '=')
             break;
-        ch = DECODEMAP[(int)(in[ii])];
+        ch = DECODEMAP[(uint8_t)in[ii]];
         /*  Discard invalid characters as per RFC 2045. */
         if(ch == 0xFF)
             break; 
-- 
2.43.0


From 9b97eb565555a1984c99fda8fdc94ca0ed979ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 36/96] fix: ws_response_key accepts malformed keys

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index f606f2f..07e2a96 100644
--- a/ws.c
+++ b/ws.c
@@ -657,7 +657,8 @@ int dill_ws_response_key(const char *request_key, char *response_key) {
     uint8_t nonce[16];
     int rc = dill_base64_decode(request_key, strlen(request_key),
         nonce, sizeof(nonce));
-    if(dill_slow(rc != sizeof(nonce))) {errno = EPROTO; return -1;}
+    if(dill_slow(rc != sizeof(nonce) || strlen(request_key) != 24 ||
+          strcmp(request_key + 22, "==") != 0)) {errno = EPROTO; return -1;}
     /* Create the response key. */
     struct dill_sha1 sha1;
     dill_sha1_init(&sha1);
-- 
2.43.0


From 67ffa499b051fdf19dbc25e991f63aaa28499a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 37/96] fix: ws_attach_server returns uninitialised host if
 there is none

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 07e2a96..a5ff17d 100644
--- a/ws.c
+++ b/ws.c
@@ -278,7 +278,8 @@ int dill_ws_attach_server_mem(int s, int flags,
            continue;
         }
     }
-    if(dill_slow(!has_upgrade || !has_connection || !has_key || !has_version)) {
+    if(dill_slow(!has_host || !has_upgrade || !has_connection || !has_key ||
+          !has_version)) {
         err = EPROTO; goto error;}
 
     /* Send HTTP response back to the client. */
-- 
2.43.0


From fb3fae024fc4b89db25bb137281fc4da15fe108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 38/96] fix: ws handshake fails if Connection field has more
 than one option

Browsers send, e.g., "keep-alive, Upgrade".
---
 ws.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index a5ff17d..a28adc5 100644
--- a/ws.c
+++ b/ws.c
@@ -68,6 +68,18 @@ static void *dill_ws_hquery(struct dill_hvfs *hvfs, const void *type) {
     return NULL;
 }
 
+/* Checks whether comma-separated list contains the token. */
+static int dill_ws_hastoken(const char *list, const char *token) {
+    size_t len = strlen(token);
+    while(1) {
+        list += strspn(list, " \t,");
+        if(!*list) return 0;
+        size_t sz = strcspn(list, " \t,");
+        if(sz == len && strncasecmp(list, token, len) == 0) return 1;
+        list += sz;
+    }
+}
+
 int dill_ws_attach_client_mem(int s, int flags, const char *resource,
       const char *host, struct dill_ws_storage *mem, int64_t deadline) {
     int err;
@@ -142,7 +154,7 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
            continue;
         }
         if(strcasecmp(name, "Connection") == 0) {
-           if(has_connection || strcasecmp(value, "Upgrade") != 0) {
+           if(has_connection || !dill_ws_hastoken(value, "Upgrade")) {
                err = EPROTO; goto error;}
            has_connection = 1;
            continue;
@@ -258,7 +270,7 @@ int dill_ws_attach_server_mem(int s, int flags,
            continue;
         }
         if(strcasecmp(name, "Connection") == 0) {
-           if(has_connection || strcasecmp(value, "Upgrade") != 0) {
+           if(has_connection || !dill_ws_hastoken(value, "Upgrade")) {
                err = EPROTO; goto error;}
            has_connection = 1;
            continue;
-- 
2.43.0


From e07fa57a777a4ced31c08e23782bd02a59cba5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:01 +0000
Subject: [PATCH 39/96] fix: socks5 client aborts if the proxy selects a method
 that was not offered

---
 socks5.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/socks5.c b/socks5.c
index a919801..9e141b2 100644
--- a/socks5.c
+++ b/socks5.c
@@ -103,8 +103,8 @@ static int s5_client_auth(int s, const char *username, const char *password,
             // proxy accepted NO AUTH REQ'D, so we're done
             return 0;
         case S5METH_USERPASS:
-            dill_assert(!!username);
-            dill_assert(!!password);
+            // proxy selected a method that wasn't offered
+            if(dill_slow(!username || !password)) {errno = EPROTO; return -1;}
             // USER/PASS AUTH - per RFC 1929
             // max USER, PASS is 255 bytes (plus 3 bytes for VER, ULEN, PLEN)
             uint8_t upauth[513];
@@ -128,7 +128,7 @@ static int s5_client_auth(int s, const char *username, const char *password,
             errno = EACCES; return -1;
         default:
             // something is fishy as the proxy accepted something not requested
-            dill_assert(0);
+            errno = EPROTO; return -1;
     }
     return -1;
 }
-- 
2.43.0


From 24f5f83a7bcedd0abef25ce7e7d63d08b68454a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:01 +0000
Subject: [PATCH 40/96] fix: socks5 client overflows buffer for credentials of
 maximal length

---
 socks5.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socks5.c b/socks5.c
index 9e141b2..af2ad85 100644
--- a/socks5.c
+++ b/socks5.c
@@ -113,9 +113,9 @@ static int s5_client_auth(int s, const char *username, const char *password,
             uint8_t plen = (uint8_t)strlen(password);
             upauth[0] = RFC1929_VER; // VER = 1
             upauth[1] = ulen; // ULEN
-            strcpy((char *)(upauth + 2), username); // UNAME
+            memcpy(upauth + 2, username, ulen); // UNAME
             upauth[2 + ulen] = plen; // PLEN
-            strcpy((char *)(upauth + 3 + ulen), password); // PASSWD
+            memcpy(upauth + 3 + ulen, password, plen); // PASSWD
             err = dill_bsend(s, (void *)upauth, 3 + ulen + plen, deadline);
             if(dill_slow(err)) return -1;
             uint8_t upauthr[2];
-- 
2.43.0


From 1c22486292dcac86d0611342b7606cb1887bcfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:01 +0000
Subject: [PATCH 41/96] fix: socks5_proxy_auth does not set errno when
 authentication fails

---
 socks5.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/socks5.c b/socks5.c
index af2ad85..21093f3 100644
--- a/socks5.c
+++ b/socks5.c
@@ -203,6 +203,7 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
         resp[1] = S5AUTH_FAIL;
         err = dill_bsend(s, (void *)resp, 2, deadline);
         if(dill_slow(err)) return -1;
+        errno = EACCES;
         return -1;
     }
     // no compatible AUTH (auth fail)
@@ -210,6 +211,7 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
     resp[1] = S5METH_NOMETHOD;
     err = dill_bsend(s, (void *)resp, 2, deadline);
     if(dill_slow(err)) return -1;
+    errno = EACCES;
     return -1;
 accept_noauth:
     // accept NOAUTH, no further auth req'd
-- 
2.43.0


From e8e16e96b4a377a73449d50bf1b78d627c7c8944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 42/96] fix: socks5 proxy silently cuts names and credentials
 at zero bytes

---
 socks5.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/socks5.c b/socks5.c
index 21093f3..a32e0f4 100644
--- a/socks5.c
+++ b/socks5.c
@@ -188,6 +188,10 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
         // read PASSWD
         err = dill_brecv(s, (void *)&(authr[3+ulen]), plen, deadline);
         if(dill_slow(err)) return -1;
+        // zero byte would silently cut the user name or the password
+        if(dill_slow(memchr(authr + 2, 0, ulen) != NULL ||
+              memchr(authr + 3 + ulen, 0, plen) != NULL)) {
+            errno = EPROTO; return -1;}
         // add null terminators in place
         authr[2+ulen] = 0x00;
         authr[3+ulen+plen] = 0x00;
@@ -452,6 +456,9 @@ int dill_socks5_proxy_recvcommand(int s, struct dill_ipaddr *ipaddr,
             break;
         case S5ADDR_NAME:
             // first octet is len
+            // zero byte would silently cut the name
+            if(dill_slow(memchr(conn + 5, 0, conn[4]) != NULL)) {
+                errno = EPROTO; return -1;}
             memcpy((void *)&(s5addr.addr), (void *)&(conn[5]), conn[4]);
             // add null terminator
             s5addr.addr[conn[4]] = '\x00';
@@ -487,6 +494,9 @@ int dill_socks5_proxy_recvcommandbyname(int s, char *host, int *port,
             break;
         case S5ADDR_NAME:
             // first octet is len
+            // zero byte would silently cut the name
+            if(dill_slow(memchr(conn + 5, 0, conn[4]) != NULL)) {
+                errno = EPROTO; return -1;}
             memcpy((void *)host, (void *)&(conn[5]), conn[4]);
             // add null terminator
             host[conn[4]] = '\x00';
-- 
2.43.0


From c5122cb870c769a763a844eebaa4afca6d9247c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 43/96] fix: TLS aborts on BIO commands it does not know

---
 tls.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tls.c b/tls.c
index d2cf04d..96df80e 100644
--- a/tls.c
+++ b/tls.c
@@ -452,11 +452,9 @@ static long dill_tls_cbio_ctrl(BIO *bio, int cmd, long larg, void *parg) {
     switch(cmd) {
     case BIO_CTRL_FLUSH:
         return 1;
-    case BIO_CTRL_PUSH:
-    case BIO_CTRL_POP:
-        return 0;
     default:
-        dill_assert(0);
+        /* Unsupported command. */
+        return 0;
     }
 }
 
-- 
2.43.0


From 0b65d29e671e47da1bfd928e9caeb42fe4f45d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 44/96] fix: deadlines of TLS handshakes are ignored

---
 tls.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tls.c b/tls.c
index 96df80e..307fdd8 100644
--- a/tls.c
+++ b/tls.c
@@ -106,7 +106,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->deadline = -1;
+    self->deadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -192,7 +192,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->deadline = -1;
+    self->deadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -244,6 +244,7 @@ int dill_tls_done(int s, int64_t deadline) {
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
+    self->deadline = deadline;
     while(1) {
         ERR_clear_error();
         int rc = SSL_shutdown(self->ssl);
@@ -268,6 +269,7 @@ int dill_tls_detach(int s, int64_t deadline) {
     }
     /* Wait for the handshake acknowledgement from the peer. */
     if(!self->indone) {
+        self->deadline = deadline;
         while(1) {
             ERR_clear_error();
             int rc = SSL_shutdown(self->ssl);
-- 
2.43.0


From 44b079ca5ecd06b494f33f9a2805229374bf1c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 45/96] fix: TLS receive mishandles empty and missing buffers

---
 tls.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tls.c b/tls.c
index 307fdd8..d95a579 100644
--- a/tls.c
+++ b/tls.c
@@ -326,17 +326,20 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
     while(1) {
         uint8_t *base = it->iol_base;
         size_t len = it->iol_len;
-        while(1) {
+        while(len > 0) {
             ERR_clear_error();
-            int rc = SSL_read(self->ssl, base, len);
+            /* If there's no buffer the data are skipped. */
+            uint8_t skip[512];
+            int rc = base ? SSL_read(self->ssl, base, len) :
+                SSL_read(self->ssl, skip, len < sizeof(skip) ?
+                    len : sizeof(skip));
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     if(errno == EPIPE) self->indone = 1;
                     else self->inerr = 1;
                     return -1;
                 }
-                if(rc == len) break;
-                base += rc;
+                if(base) base += rc;
                 len -= rc;
             }
         }
-- 
2.43.0


From 950aa77daf8ffc0a7847deb3ce65963ad002ea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 46/96] fix: failed TLS handshake is reported as success

---
 tls.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tls.c b/tls.c
index d95a579..10f6d35 100644
--- a/tls.c
+++ b/tls.c
@@ -116,8 +116,10 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     while(1) {
         ERR_clear_error();
         int rc = SSL_connect(ssl);
-        if(dill_tls_followup(self, rc)) break;
-        if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        if(dill_tls_followup(self, rc)) {
+            if(dill_slow(errno != 0)) {err = errno; goto error4;}
+            break;
+        }
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
@@ -202,8 +204,10 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     while(1) {
         ERR_clear_error();
         rc = SSL_accept(ssl);
-        if(dill_tls_followup(self, rc)) break;
-        if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        if(dill_tls_followup(self, rc)) {
+            if(dill_slow(errno != 0)) {err = errno; goto error4;}
+            break;
+        }
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-- 
2.43.0


From 445f5cead41ba304eb989ba25ad7066f73b6eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 47/96] fix: double free after a failed TLS handshake

---
 tls.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/tls.c b/tls.c
index 10f6d35..07941e2 100644
--- a/tls.c
+++ b/tls.c
@@ -117,16 +117,14 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
         ERR_clear_error();
         int rc = SSL_connect(ssl);
         if(dill_tls_followup(self, rc)) {
-            if(dill_slow(errno != 0)) {err = errno; goto error4;}
+            if(dill_slow(errno != 0)) {err = errno; goto error3;}
             break;
         }
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-    if(dill_slow(h < 0)) {err = errno; goto error4;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
-error4:
-    BIO_vfree(bio);
 error3:
     SSL_free(ssl);
 error2:
@@ -205,16 +203,14 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
         ERR_clear_error();
         rc = SSL_accept(ssl);
         if(dill_tls_followup(self, rc)) {
-            if(dill_slow(errno != 0)) {err = errno; goto error4;}
+            if(dill_slow(errno != 0)) {err = errno; goto error3;}
             break;
         }
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-    if(dill_slow(h < 0)) {err = errno; goto error4;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
-error4:
-    BIO_vfree(bio);
 error3:
     SSL_free(ssl);
 error2:
-- 
2.43.0


From fe09807a50c1365675f043bb61c23d3b61c94dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 48/96] fix: TLS objects leak when taking ownership of the
 socket fails

---
 tls.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tls.c b/tls.c
index 07941e2..9fa43fe 100644
--- a/tls.c
+++ b/tls.c
@@ -96,7 +96,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
 	  SSL_set_bio(ssl, bio, bio);
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-    if(dill_slow(s < 0)) {err = errno; goto error1;}
+    if(dill_slow(s < 0)) {err = errno; goto error3;}
     /* Create the object. */
     struct dill_tls_sock *self = (struct dill_tls_sock*)mem;
     self->hvfs.query = dill_tls_hquery;
@@ -182,7 +182,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
 	  SSL_set_bio(ssl, bio, bio);
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-    if(dill_slow(s < 0)) {err = errno; goto error1;}
+    if(dill_slow(s < 0)) {err = errno; goto error3;}
     /* Create the object. */
     struct dill_tls_sock *self = (struct dill_tls_sock*)mem;
     self->hvfs.query = dill_tls_hquery;
-- 
2.43.0


From 4ed4a53bec3f370f183c9860398d8b57dd934a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 49/96] fix: TLS spins for ever on a connection that has failed

---
 tls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls.c b/tls.c
index 9fa43fe..94bc3c2 100644
--- a/tls.c
+++ b/tls.c
@@ -399,7 +399,7 @@ static int dill_tls_followup(struct dill_tls_sock *self, int rc) {
     case SSL_ERROR_SYSCALL:
         /* Error from our custom BIO. */
         dill_assert(rc == -1);
-        if(errno == 0) return 0;
+        if(errno == 0) errno = ECONNRESET;
         return 1;
     case SSL_ERROR_SSL:        
         dill_tls_process_errors();
-- 
2.43.0


From 5bffebd48a57bf59ca85dbbd0de3d613a497afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 50/96] fix: TLS deadlines of concurrent send and receive get
 mixed up

---
 tls.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tls.c b/tls.c
index 94bc3c2..b581eb8 100644
--- a/tls.c
+++ b/tls.c
@@ -441,14 +441,20 @@ static int dill_tls_cbio_destroy(BIO *bio) {
 
 static int dill_tls_cbio_write(BIO *bio, const char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
-    int rc = dill_bsend(self->u, buf, len, self->deadline);
+    int64_t deadline = self->deadline;
+    int rc = dill_bsend(self->u, buf, len, deadline);
+    /* Another coroutine may have used the socket in the meantime. */
+    self->deadline = deadline;
     if(dill_slow(rc < 0)) return -1;
     return len;
 }
 
 static int dill_tls_cbio_read(BIO *bio, char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
-    int rc = dill_brecv(self->u, buf, len, self->deadline);
+    int64_t deadline = self->deadline;
+    int rc = dill_brecv(self->u, buf, len, deadline);
+    /* Another coroutine may have used the socket in the meantime. */
+    self->deadline = deadline;
     if(dill_slow(rc < 0)) return -1;
     return len;
 }
-- 
2.43.0


From 04a3ca4e49d0fb83710bd5f0ea7ebece47b9e74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 51/96] fix: a failed skip in the middle of a large receive is
 ignored

---
 fd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fd.c b/fd.c
index 92e9388..67bde4e 100644
--- a/fd.c
+++ b/fd.c
@@ -328,6 +328,7 @@ int dill_fd_recv(int s, struct dill_fd_rxbuf *rxbuf, struct dill_iolist *first,
                 /* Skip specified number of bytes. */
                 dill_assert(it == begin);
                 int rc = dill_fd_skip(s, it->iol_len, deadline);
+                if(dill_slow(rc < 0)) return -1;
                 goto next;
             }
             if(it == end || !it->iol_next->iol_base || !it->iol_next->iol_len) {
-- 
2.43.0


From b82fea55e2646a0f4116dd4d82ea16742aaf7bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 52/96] fix: lists of more than IOV_MAX buffers can't be sent
 or received

---
 fd.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fd.c b/fd.c
index 67bde4e..af06323 100644
--- a/fd.c
+++ b/fd.c
@@ -23,6 +23,7 @@
 */
 
 #include <fcntl.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
@@ -35,6 +36,13 @@
 #define DILL_FD_CACHESIZE 32
 #define DILL_FD_BUFSIZE 1984
 
+/* Maximum number of buffers that can be passed to the kernel at once. */
+#if defined IOV_MAX
+#define DILL_FD_IOVMAX IOV_MAX
+#else
+#define DILL_FD_IOVMAX 1024
+#endif
+
 #if defined MSG_NOSIGNAL
 #define FD_NOSIGNAL MSG_NOSIGNAL
 #else
@@ -172,7 +180,10 @@ int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
             hdr.msg_iovlen--;
         }
         if(!hdr.msg_iovlen) return 0;
+        size_t iovlen = hdr.msg_iovlen;
+        if(dill_slow(iovlen > DILL_FD_IOVMAX)) hdr.msg_iovlen = DILL_FD_IOVMAX;
         ssize_t sz = sendmsg(s, &hdr, FD_NOSIGNAL);
+        hdr.msg_iovlen = iovlen;
         dill_assert(sz != 0);
         if(sz < 0) {
             if(dill_slow(errno != EWOULDBLOCK && errno != EAGAIN)) {
@@ -218,7 +229,10 @@ static int dill_fd_recv_(int s, struct dill_iolist *first,
     hdr.msg_iov = iov;
     hdr.msg_iovlen = niov;
     while(1) {
+        size_t iovlen = hdr.msg_iovlen;
+        if(dill_slow(iovlen > DILL_FD_IOVMAX)) hdr.msg_iovlen = DILL_FD_IOVMAX;
         ssize_t sz = recvmsg(s, &hdr, 0);
+        hdr.msg_iovlen = iovlen;
         if(dill_slow(sz == 0)) {errno = EPIPE; return -1;}
         if(sz < 0) {
             if(dill_slow(errno != EWOULDBLOCK && errno != EAGAIN)) {
-- 
2.43.0


From 3e701a0860f6b6033b6949c018498abc4fd6e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 53/96] fix: sending a list that ends with an empty buffer
 waits needlessly

---
 fd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fd.c b/fd.c
index af06323..1e1afd4 100644
--- a/fd.c
+++ b/fd.c
@@ -194,7 +194,7 @@ int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
         }
         /* Adjust the iovec array so that it doesn't contain data
            that was already sent. */
-        while(sz) {
+        while(1) {
             struct iovec *head = &hdr.msg_iov[0];
             if(head->iov_len > sz) {
                 head->iov_base += sz;
-- 
2.43.0


From f40cdcd149be81845d6f7254995dc76bc9ddcab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 54/96] fix: tcp_close discards data that are still being
 delivered

---
 fd.c  | 10 +++++++---
 fd.h  |  3 +++
 tcp.c |  5 ++++-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/fd.c b/fd.c
index 1e1afd4..00daf3d 100644
--- a/fd.c
+++ b/fd.c
@@ -399,14 +399,18 @@ next:
 }
 
 void dill_fd_close(int s) {
-    int rc = dill_fdclean(s);
-    dill_assert(rc == 0);
     /* Discard any pending outbound data. If SO_LINGER option cannot
        be set, never mind and continue anyway. */
     struct linger lng;
     lng.l_onoff=1;
     lng.l_linger=0;
     setsockopt(s, SOL_SOCKET, SO_LINGER, (void*)&lng, sizeof(lng));
+    dill_fd_finish(s);
+}
+
+void dill_fd_finish(int s) {
+    int rc = dill_fdclean(s);
+    dill_assert(rc == 0);
     /* We are not checking the error here. close() has inconsistent behaviour
        and leaking a file descriptor is better than crashing the entire
        program. */
@@ -416,7 +420,7 @@ void dill_fd_close(int s) {
 int dill_fd_own(int s) {
     int n = dup(s);
     if(dill_slow(n < 0)) return -1;
-    dill_fd_close(s);
+    dill_fd_finish(s);
     return n;
 }
 
diff --git a/fd.h b/fd.h
index 58f65ea..f068b70 100644
--- a/fd.h
+++ b/fd.h
@@ -76,6 +76,9 @@ int dill_fd_recv(
     int64_t deadline);
 void dill_fd_close(
     int s);
+/* Same as dill_fd_close() but pending outbound data are still delivered. */
+void dill_fd_finish(
+    int s);
 int dill_fd_own(
     int s);
 int dill_fd_check(
diff --git a/tcp.c b/tcp.c
index e9edc6f..e6b44ea 100644
--- a/tcp.c
+++ b/tcp.c
@@ -243,7 +243,10 @@ error:
 
 static void dill_tcp_hclose(struct dill_hvfs *hvfs) {
     struct dill_tcp_conn *self = (struct dill_tcp_conn*)hvfs;
-    dill_fd_close(self->fd);
+    /* If both peers are done with sending there may still be data on the way
+       to the peer. These must not be discarded. */
+    if(self->indone && self->outdone) dill_fd_finish(self->fd);
+    else dill_fd_close(self->fd);
     dill_fd_termrxbuf(&self->rxbuf);
     if(!self->mem) free(self);
 }
-- 
2.43.0


From 4682ee91d42f429ef4ea2ed5bcb80e9789663515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 55/96] fix: skipping to the end of a stream ignores the
 deadline while data keep coming

---
 fd.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fd.c b/fd.c
index 00daf3d..34983de 100644
--- a/fd.c
+++ b/fd.c
@@ -264,12 +264,22 @@ static int dill_fd_recv_(int s, struct dill_iolist *first,
 /* Skip len bytes. If len is negative skip until error occurs. */
 static int dill_fd_skip(int s, ssize_t len, int64_t deadline) {
     uint8_t buf[512];
+    int64_t start = len < 0 && deadline >= 0 ? dill_now() : 0;
     while(len) {
         size_t to_recv = len < 0 || len > sizeof(buf) ? sizeof(buf) : len;
         struct dill_iolist iol = {buf, to_recv, NULL, 0};
         int rc = dill_fd_recv_(s, &iol, &iol, deadline);
         if(dill_slow(rc < 0)) return -1;
-        if(len >= 0) len -= to_recv;
+        if(len >= 0) {
+            len -= to_recv;
+            continue;
+        }
+        /* The peer may be sending faster than we are able to skip the data. */
+        if(deadline >= 0) {
+            int64_t now = dill_now();
+            if(dill_slow(now > start && now > deadline)) {
+                errno = ETIMEDOUT; return -1;}
+        }
     }
     return 0;
 }
-- 
2.43.0


From 3c6e61cf622a3ad39b5f0f7d5428be7c717fd241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 56/96] fix: prefix and suffix sockets are broken by an attempt
 to use them while busy

---
 prefix.c | 4 ++--
 suffix.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/prefix.c b/prefix.c
index 27427e4..330e52a 100644
--- a/prefix.c
+++ b/prefix.c
@@ -146,7 +146,7 @@ static int dill_prefix_msendl(struct dill_msock_vfs *mvfs,
     }
     struct dill_iolist hdr = {szbuf, sizeof(szbuf), first, 0};
     int rc = dill_bsendl(self->u, &hdr, last, deadline);
-    if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
+    if(dill_slow(rc < 0)) {if(errno != EBUSY) self->outerr = 1; return -1;}
     return 0;
 }
 
@@ -157,7 +157,7 @@ static ssize_t dill_prefix_mrecvl(struct dill_msock_vfs *mvfs,
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
     uint8_t szbuf[self->hdrlen];
     int rc = dill_brecv(self->u, szbuf, self->hdrlen, deadline);
-    if(dill_slow(rc < 0)) {self->inerr = 1; return -1;}
+    if(dill_slow(rc < 0)) {if(errno != EBUSY) self->inerr = 1; return -1;}
     uint64_t sz = 0;
     int i;
     for(i = 0; i != self->hdrlen; ++i) {
diff --git a/suffix.c b/suffix.c
index 74001ad..037cb81 100644
--- a/suffix.c
+++ b/suffix.c
@@ -141,7 +141,7 @@ static int dill_suffix_msendl(struct dill_msock_vfs *mvfs,
     last->iol_next = &iol;
     int rc = self->uvfs->bsendl(self->uvfs, first, &iol, deadline);
     last->iol_next = NULL;
-    if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
+    if(dill_slow(rc < 0)) {if(errno != EBUSY) self->outerr = 1; return -1;}
     return 0;
 }
 
@@ -153,7 +153,7 @@ static ssize_t dill_suffix_mrecvl(struct dill_msock_vfs *mvfs,
     /* First fill in the temporary buffer. */
     struct dill_iolist iol = {self->buf, self->suffixlen, NULL, 0};
     int rc = self->uvfs->brecvl(self->uvfs, &iol, &iol, deadline);
-    if(dill_slow(rc < 0)) {self->inerr = 1; return -1;}
+    if(dill_slow(rc < 0)) {if(errno != EBUSY) self->inerr = 1; return -1;}
     /* Read the input, character by character. */
     iol.iol_base = self->buf + self->suffixlen - 1;
     iol.iol_len = 1;
-- 
2.43.0


From 0b0af4e5fab112f3e6a1c4352164a8f5d82048d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 57/96] fix: TLS sockets can't cope with being used while busy

---
 tls.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tls.c b/tls.c
index b581eb8..0955d2d 100644
--- a/tls.c
+++ b/tls.c
@@ -44,6 +44,8 @@ struct dill_tls_sock {
     SSL *ssl;
     int u;
     int64_t deadline;
+    unsigned int rbusy : 1;
+    unsigned int sbusy : 1;
     unsigned int indone : 1;
     unsigned int outdone: 1;
     unsigned int inerr : 1;
@@ -107,6 +109,8 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     self->ssl = ssl;
     self->u = s;
     self->deadline = deadline;
+    self->rbusy = 0;
+    self->sbusy = 0;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -193,6 +197,8 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     self->ssl = ssl;
     self->u = s;
     self->deadline = deadline;
+    self->rbusy = 0;
+    self->sbusy = 0;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -242,6 +248,7 @@ error1:
 int dill_tls_done(int s, int64_t deadline) {
     struct dill_tls_sock *self = dill_hquery(s, dill_tls_type);
     if(dill_slow(!self)) return -1;
+    if(dill_slow(self->sbusy)) {errno = EBUSY; return -1;}
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     self->deadline = deadline;
@@ -291,6 +298,7 @@ error:
 static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_tls_sock *self = dill_cont(bvfs, struct dill_tls_sock, bvfs);
+    if(dill_slow(self->sbusy)) {errno = EBUSY; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     self->deadline = deadline;
@@ -300,7 +308,9 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
         size_t len = it->iol_len;
         while(len > 0) {
             ERR_clear_error();
+            self->sbusy = 1;
             int rc = SSL_write(self->ssl, base, len);
+            self->sbusy = 0;
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     self->outerr = 1;
@@ -319,6 +329,7 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
 static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_tls_sock *self = dill_cont(bvfs, struct dill_tls_sock, bvfs);
+    if(dill_slow(self->rbusy)) {errno = EBUSY; return -1;}
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
     self->deadline = deadline;
@@ -330,9 +341,11 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
             ERR_clear_error();
             /* If there's no buffer the data are skipped. */
             uint8_t skip[512];
+            self->rbusy = 1;
             int rc = base ? SSL_read(self->ssl, base, len) :
                 SSL_read(self->ssl, skip, len < sizeof(skip) ?
                     len : sizeof(skip));
+            self->rbusy = 0;
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     if(errno == EPIPE) self->indone = 1;
-- 
2.43.0


From bc39a2e5fe77e40a95d20778ecda843d3cb85327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 58/96] fix: udp_open succeeds even if the local address can't
 be bound

---
 udp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udp.c b/udp.c
index c3bda63..bc7b22c 100644
--- a/udp.c
+++ b/udp.c
@@ -82,7 +82,7 @@ int dill_udp_open_mem(struct dill_ipaddr *local,
     /* Start listening. */
     if(local) {
         rc = bind(s, dill_ipaddr_sockaddr(local), dill_ipaddr_len(local));
-        if(s < 0) {err = errno; goto error2;}
+        if(dill_slow(rc < 0)) {err = errno; goto error2;}
         /* Get the ephemeral port number. */
         if(dill_ipaddr_port(local) == 0) {
             struct dill_ipaddr baddr;
-- 
2.43.0


From 188653e98893839a7e7e5d7fa5f26eb94949c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 59/96] fix: udp_recv passes truncated datagrams off as
 complete

---
 udp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udp.c b/udp.c
index bc7b22c..75600da 100644
--- a/udp.c
+++ b/udp.c
@@ -187,6 +187,8 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
                packets coming from different addresses. */
             if(obj->hasremote && !dill_ipaddr_equal(&raddr, &obj->remote, 0))
                 continue;
+            if(dill_slow(hdr.msg_flags & MSG_TRUNC)) {
+                errno = EMSGSIZE; return -1;}
             if(addr) *addr = raddr;
             return sz;
         }
-- 
2.43.0


From a129be4d7ed29b6033f5d01a1fe9a81db08c33af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 60/96] fix: UDP datagrams can't be sent while another
 coroutine is receiving

---
 udp.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/udp.c b/udp.c
index 75600da..3452d68 100644
--- a/udp.c
+++ b/udp.c
@@ -133,7 +133,6 @@ static int dill_udp_sendl_(struct dill_msock_vfs *mvfs,
       const struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last) {
     struct dill_udp_sock *obj = dill_cont(mvfs, struct dill_udp_sock, mvfs);
-    if(dill_slow(obj->busy)) {errno = EBUSY; return -1;}
     /* If no destination IP address is provided, fall back to the stored one. */
     const struct dill_ipaddr *dstaddr = addr;
     if(!dstaddr) {
-- 
2.43.0


From 9f4b4e6954021cedba177092f20fe983ae86953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 61/96] fix: ipc_sendfd aborts or raises SIGPIPE when the
 descriptor can't be sent

---
 ipc.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/ipc.c b/ipc.c
index 510b233..ae03609 100644
--- a/ipc.c
+++ b/ipc.c
@@ -35,6 +35,12 @@
 
 static int dill_ipc_resolve(const char *addr, struct sockaddr_un *su);
 
+#if defined MSG_NOSIGNAL
+#define IPC_NOSIGNAL MSG_NOSIGNAL
+#else
+#define IPC_NOSIGNAL 0
+#endif
+
 dill_unique_id(dill_ipc_listener_type);
 dill_unique_id(dill_ipc_type);
 
@@ -232,15 +238,18 @@ int dill_ipc_sendfd(int s, int fd, int64_t deadline) {
     cmsg->cmsg_len = CMSG_LEN(sizeof(fd));
     *((int*)CMSG_DATA(cmsg)) = fd;
     msg.msg_controllen = cmsg->cmsg_len;
-    int rc = dill_fdout(self->fd, deadline);
-    if(dill_slow(rc < 0)) return -1;
-    ssize_t sz = sendmsg(self->fd, &msg, 0);
-    if(dill_slow(sz == 0)) {self->outdone = 1; errno = EPIPE; return -1;}
-    if(dill_slow(sz < 0)) {
-       if(errno == ECONNRESET) {self->outerr = 1; return -1;}
-       dill_assert(0);
+    while(1) {
+        int rc = dill_fdout(self->fd, deadline);
+        if(dill_slow(rc < 0)) return -1;
+        ssize_t sz = sendmsg(self->fd, &msg, IPC_NOSIGNAL);
+        if(dill_fast(sz >= 0)) return 0;
+        if(errno == EAGAIN || errno == EWOULDBLOCK) continue;
+        /* The descriptor can't be sent. The connection itself is all right. */
+        if(errno == EBADF || errno == ETOOMANYREFS) return -1;
+        if(errno == EPIPE) errno = ECONNRESET;
+        self->outerr = 1;
+        return -1;
     }
-    return 0;
 }
 
 int dill_ipc_recvfd(int s, int64_t deadline) {
-- 
2.43.0


From bebe285a730f5a6408cb46738e86f4b736bb022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 62/96] fix: ipc_recvfd marks the outbound half as broken, or
 aborts, when receiving fails

---
 ipc.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ipc.c b/ipc.c
index ae03609..3a55253 100644
--- a/ipc.c
+++ b/ipc.c
@@ -270,14 +270,17 @@ int dill_ipc_recvfd(int s, int64_t deadline) {
     unsigned char control[1024];
     msg.msg_control = control;
     msg.msg_controllen = sizeof(control);
-    int rc = dill_fdin(self->fd, deadline);
-    if(dill_slow(rc < 0)) return -1;
-    ssize_t sz = recvmsg(self->fd, &msg, 0);
-    if(dill_slow(sz == 0)) {self->indone = 1; errno = EPIPE; return -1;}
-    if(dill_slow(sz < 0)) {
-       if(errno == ECONNRESET) {self->outerr = 1; return -1;}
-       dill_assert(0);
+    ssize_t sz;
+    while(1) {
+        int rc = dill_fdin(self->fd, deadline);
+        if(dill_slow(rc < 0)) return -1;
+        sz = recvmsg(self->fd, &msg, 0);
+        if(dill_fast(sz >= 0)) break;
+        if(errno == EAGAIN || errno == EWOULDBLOCK) continue;
+        self->inerr = 1;
+        return -1;
     }
+    if(dill_slow(sz == 0)) {self->indone = 1; errno = EPIPE; return -1;}
     /* Loop over the auxiliary data to find the embedded file descriptor. */
     int fd = -1;
     struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg);
-- 
2.43.0


From 90e970ab5cc7802d15fa48f4135f314630073b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 63/96] fix: a socket isn't busy while a descriptor is being
 sent or received

---
 ipc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipc.c b/ipc.c
index 3a55253..235ab9a 100644
--- a/ipc.c
+++ b/ipc.c
@@ -239,7 +239,9 @@ int dill_ipc_sendfd(int s, int fd, int64_t deadline) {
     *((int*)CMSG_DATA(cmsg)) = fd;
     msg.msg_controllen = cmsg->cmsg_len;
     while(1) {
+        self->sbusy = 1;
         int rc = dill_fdout(self->fd, deadline);
+        self->sbusy = 0;
         if(dill_slow(rc < 0)) return -1;
         ssize_t sz = sendmsg(self->fd, &msg, IPC_NOSIGNAL);
         if(dill_fast(sz >= 0)) return 0;
@@ -272,7 +274,9 @@ int dill_ipc_recvfd(int s, int64_t deadline) {
     msg.msg_controllen = sizeof(control);
     ssize_t sz;
     while(1) {
+        self->rbusy = 1;
         int rc = dill_fdin(self->fd, deadline);
+        self->rbusy = 0;
         if(dill_slow(rc < 0)) return -1;
         sz = recvmsg(self->fd, &msg, 0);
         if(dill_fast(sz >= 0)) break;
-- 
2.43.0


From 7eac6d670a0bf1dd24205a942e91dbfd529d6519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 64/96] fix: ipc_listen_mem crashes if there is no memory to
 use

---
 ipc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipc.c b/ipc.c
index 235ab9a..661ca5e 100644
--- a/ipc.c
+++ b/ipc.c
@@ -429,6 +429,7 @@ error1:
 int dill_ipc_listen_mem(const char *addr, int backlog,
       struct dill_ipc_listener_storage *mem) {
     int err;
+    if(dill_slow(!mem)) {err = EINVAL; goto error1;}
     /* Create a UNIX address out of the address string. */
     struct sockaddr_un su;
     int rc = dill_ipc_resolve(addr, &su);
-- 
2.43.0


From 3834d095340027cadf8d27a1c0da25a9b158cb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 65/96] fix: ipc_pair leaks memory if the second handle can't
 be created

---
 ipc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipc.c b/ipc.c
index 661ca5e..f39ba01 100644
--- a/ipc.c
+++ b/ipc.c
@@ -575,6 +575,7 @@ int dill_ipc_pair(int s[2]) {
     conn1->mem = 0;
     return 0;
 error6:
+    free(conn1);
     rc = dill_hclose(s[0]);
     goto error2;
 error5:
-- 
2.43.0


From bbbd0fe26d7e9d0a3494924633d47b02f9e6debd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 66/96] fix: file descriptor leaks when a handle can't be
 created for it

---
 ipc.c | 12 ++++++++----
 tcp.c | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/ipc.c b/ipc.c
index f39ba01..c26a065 100644
--- a/ipc.c
+++ b/ipc.c
@@ -112,12 +112,14 @@ int dill_ipc_fromfd_mem(int fd, struct dill_ipc_storage *mem) {
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_ipc_makeconn(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
@@ -415,12 +417,14 @@ int dill_ipc_listener_fromfd_mem(int fd,
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_ipc_makelistener(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
diff --git a/tcp.c b/tcp.c
index e6b44ea..376bf67 100644
--- a/tcp.c
+++ b/tcp.c
@@ -100,12 +100,14 @@ int dill_tcp_fromfd_mem(int fd, struct dill_tcp_storage *mem) {
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_tcp_makeconn(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
@@ -314,12 +316,14 @@ int dill_tcp_listener_fromfd_mem(int fd,
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_tcp_makelistener(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
-- 
2.43.0


From 3307d6b7c0c4d4863efedb30396e04c6aa135f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 67/96] fix: several UDP sockets can be bound to the same
 address

---
 udp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/udp.c b/udp.c
index 3452d68..171c453 100644
--- a/udp.c
+++ b/udp.c
@@ -79,6 +79,11 @@ int dill_udp_open_mem(struct dill_ipaddr *local,
     /* Set it to non-blocking mode. */
     int rc = dill_fd_unblock(s);
     if(dill_slow(rc < 0)) {err = errno; goto error2;}
+    /* Unlike with TCP, this option would allow several sockets, even those with
+       ephemeral ports, to share one address and steal each other's packets. */
+    int opt = 0;
+    rc = setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &opt, sizeof(opt));
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Start listening. */
     if(local) {
         rc = bind(s, dill_ipaddr_sockaddr(local), dill_ipaddr_len(local));
-- 
2.43.0


From 938f6bf13f1a96ae4f5973be0d40bc85299f1eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 68/96] fix: udp_send and udp_recv treat any message socket as
 a UDP socket

---
 udp.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/udp.c b/udp.c
index 171c453..f18d8f3 100644
--- a/udp.c
+++ b/udp.c
@@ -206,32 +206,32 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
 
 int dill_udp_send(int s, const struct dill_ipaddr *addr,
       const void *buf, size_t len) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
     struct dill_iolist iol = {(void*)buf, len, NULL, 0};
-    return dill_udp_sendl_(m, addr, &iol, &iol);
+    return dill_udp_sendl_(&obj->mvfs, addr, &iol, &iol);
 }
 
 ssize_t dill_udp_recv(int s, struct dill_ipaddr *addr, void *buf, size_t len,
       int64_t deadline) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
     struct dill_iolist iol = {(void*)buf, len, NULL, 0};
-    return dill_udp_recvl_(m, addr, &iol, &iol, deadline);
+    return dill_udp_recvl_(&obj->mvfs, addr, &iol, &iol, deadline);
 }
 
 int dill_udp_sendl(int s, const struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
-    return dill_udp_sendl_(m, addr, first, last);
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
+    return dill_udp_sendl_(&obj->mvfs, addr, first, last);
 }
 
 ssize_t dill_udp_recvl(int s, struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
-    return dill_udp_recvl_(m, addr, first, last, deadline);
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
+    return dill_udp_recvl_(&obj->mvfs, addr, first, last, deadline);
 }
 
 static int dill_udp_msendl(struct dill_msock_vfs *mvfs,
-- 
2.43.0


From d7e7f1d28b5172994db55097eb1531a77807265b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 69/96] fix: UDP sockets can't skip data

---
 udp.c | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/udp.c b/udp.c
index f18d8f3..a2b0f85 100644
--- a/udp.c
+++ b/udp.c
@@ -33,6 +33,9 @@
 #include "iol.h"
 #include "utils.h"
 
+/* No UDP packet is longer than this. */
+#define DILL_UDP_MAX 65536
+
 dill_unique_id(dill_udp_type);
 
 static void *dill_udp_hquery(struct dill_hvfs *hvfs, const void *type);
@@ -180,28 +183,46 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
     size_t niov;
     int rc = dill_iolcheck(first, last, &niov, NULL);
     if(dill_slow(rc < 0)) return -1;
-    struct iovec iov[niov];
+    struct iovec iov[niov + 1];
     dill_ioltoiov(first, iov);
+    /* Data to be skipped are stored to a scratch buffer. If there's no list
+       the entire packet is skipped. */
+    void *skip = NULL;
+    size_t i;
+    iov[niov].iov_base = NULL;
+    iov[niov].iov_len = first ? 0 : DILL_UDP_MAX;
+    for(i = 0; i != niov + 1; ++i) {
+        if(dill_fast(iov[i].iov_base || !iov[i].iov_len)) continue;
+        if(!skip) skip = malloc(DILL_UDP_MAX);
+        if(dill_slow(!skip)) {errno = ENOMEM; return -1;}
+        iov[i].iov_base = skip;
+        if(iov[i].iov_len > DILL_UDP_MAX) iov[i].iov_len = DILL_UDP_MAX;
+    }
     hdr.msg_iov = (struct iovec*)iov;
-    hdr.msg_iovlen = niov;
+    hdr.msg_iovlen = first ? niov : 1;
+    ssize_t sz;
     while(1) {
-        ssize_t sz = recvmsg(obj->fd, &hdr, 0);
+        sz = recvmsg(obj->fd, &hdr, 0);
         if(sz >= 0) {
             /* If remote IP address is specified we'll silently drop all
                packets coming from different addresses. */
             if(obj->hasremote && !dill_ipaddr_equal(&raddr, &obj->remote, 0))
                 continue;
             if(dill_slow(hdr.msg_flags & MSG_TRUNC)) {
-                errno = EMSGSIZE; return -1;}
-            if(addr) *addr = raddr;
-            return sz;
+                errno = EMSGSIZE; sz = -1;}
+            else if(addr) *addr = raddr;
+            break;
         }
-        if(errno != EAGAIN && errno != EWOULDBLOCK) return -1;
+        if(errno != EAGAIN && errno != EWOULDBLOCK) break;
         obj->busy = 1;
         rc = dill_fdin(obj->fd, deadline);
         obj->busy = 0;
-        if(dill_slow(rc < 0)) return -1;
+        if(dill_slow(rc < 0)) break;
     }
+    int err = errno;
+    free(skip);
+    errno = err;
+    return sz;
 }
 
 int dill_udp_send(int s, const struct dill_ipaddr *addr,
-- 
2.43.0


From e2dce3d725ecff350cd33f243285ba99eb2e2a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 70/96] fix: udp_recv never times out while packets from other
 addresses keep coming

---
 udp.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/udp.c b/udp.c
index a2b0f85..4ffd5ce 100644
--- a/udp.c
+++ b/udp.c
@@ -201,13 +201,20 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
     hdr.msg_iov = (struct iovec*)iov;
     hdr.msg_iovlen = first ? niov : 1;
     ssize_t sz;
+    int64_t start = obj->hasremote && deadline >= 0 ? dill_now() : 0;
     while(1) {
         sz = recvmsg(obj->fd, &hdr, 0);
         if(sz >= 0) {
             /* If remote IP address is specified we'll silently drop all
                packets coming from different addresses. */
-            if(obj->hasremote && !dill_ipaddr_equal(&raddr, &obj->remote, 0))
-                continue;
+            if(obj->hasremote && !dill_ipaddr_equal(&raddr, &obj->remote, 0)) {
+                if(deadline < 0) continue;
+                /* They may be arriving faster than we are able to drop them. */
+                int64_t now = dill_now();
+                if(dill_fast(now <= start || now <= deadline)) continue;
+                errno = ETIMEDOUT; sz = -1;
+                break;
+            }
             if(dill_slow(hdr.msg_flags & MSG_TRUNC)) {
                 errno = EMSGSIZE; sz = -1;}
             else if(addr) *addr = raddr;
-- 
2.43.0


From 95b5f272fa36a0e17e3c9ea2d01c009fc91d9a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 71/96] fix: ipaddr_local aborts on an invalid mode and
 truncates invalid ports

---
 ipaddr.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ipaddr.c b/ipaddr.c
index 005777d..3125314 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -179,7 +179,21 @@ const char *dill_ipaddr_str(const struct dill_ipaddr *addr, char *ipstr) {
 
 int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
       int mode) {
-    if(mode == 0) mode = DILL_IPADDR_PREF_IPV4;
+    if(dill_slow(!addr || port < 0 || port > 0xffff)) {
+        errno = EINVAL; return -1;}
+    switch(mode) {
+    case 0:
+        mode = DILL_IPADDR_PREF_IPV4;
+        break;
+    case DILL_IPADDR_IPV4:
+    case DILL_IPADDR_IPV6:
+    case DILL_IPADDR_PREF_IPV4:
+    case DILL_IPADDR_PREF_IPV6:
+        break;
+    default:
+        errno = EINVAL;
+        return -1;
+    }
     memset(addr, 0, sizeof(struct dill_ipaddr));
     if(!name) 
         return dill_ipaddr_ipany(addr, port, mode);
-- 
2.43.0


From 6bad3793e10a44d4132aaa962f16fa0a27975214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 72/96] fix: ipaddr_local aborts if the interface has two
 addresses of a family

---
 ipaddr.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 3125314..1ff8ecf 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -219,12 +219,10 @@ int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
             continue;
         switch(it->ifa_addr->sa_family) {
         case AF_INET:
-            dill_assert(!ipv4);
-            ipv4 = it;
+            if(!ipv4) ipv4 = it;
             break;
         case AF_INET6:
-            dill_assert(!ipv6);
-            ipv6 = it;
+            if(!ipv6) ipv6 = it;
             break;
         }
         if(ipv4 && ipv6)
-- 
2.43.0


From 692a3241b6e76fde8e4aa1715ae58c00ceee133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 73/96] fix: ipaddr_local aborts if interfaces cannot be listed

---
 ipaddr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 1ff8ecf..7f4a433 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -206,8 +206,7 @@ int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
     /* Address is not a literal. It must be an interface name then. */
     struct ifaddrs *ifaces = NULL;
     rc = getifaddrs (&ifaces);
-    dill_assert (rc == 0);
-    dill_assert (ifaces);
+    if(dill_slow(rc != 0)) return -1;
     /*  Find first IPv4 and first IPv6 address. */
     struct ifaddrs *ipv4 = NULL;
     struct ifaddrs *ipv6 = NULL;
-- 
2.43.0


From 3dfa0dccd0ddc89b744219e5d5188679da412879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 74/96] fix: ipaddr_remotes aborts on an invalid port

---
 ipaddr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipaddr.c b/ipaddr.c
index 7f4a433..60ef11e 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -278,7 +278,8 @@ int dill_ipaddr_remote(struct dill_ipaddr *addr, const char *name, int port,
 int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
       const char *name, int port, int mode, int64_t deadline) {
     /* Check the arguments. */
-    if(dill_slow(!addrs || naddrs <= 0 || !name)) {errno = EINVAL; return -1;}
+    if(dill_slow(!addrs || naddrs <= 0 || !name || port < 0 || port > 0xffff)) {
+        errno = EINVAL; return -1;}
     switch(mode) {
     case 0:
         mode = DILL_IPADDR_PREF_IPV4;
-- 
2.43.0


From 773750ab5e5ba736ea95b891081d4c9ca28d5dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 75/96] fix: DNS resolver uses compound literals after the end
 of their lifetime

---
 dns/dns.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dns/dns.h b/dns/dns.h
index dc88ab5..ebd425a 100644
--- a/dns/dns.h
+++ b/dns/dns.h
@@ -149,9 +149,9 @@ extern int dns_debug;
 #define DNS_PRAGMA_QUIET _Pragma("GCC diagnostic ignored \"-Woverride-init\"")
 #define DNS_PRAGMA_POP _Pragma("GCC diagnostic pop")
 
-/* GCC parses the _Pragma operator less elegantly than clang. */
-#define dns_quietinit(...) \
-	__extension__ ({ DNS_PRAGMA_PUSH DNS_PRAGMA_QUIET __VA_ARGS__; DNS_PRAGMA_POP })
+/* GCC doesn't accept the _Pragma operator inside of an expression and the
+ * address of a compound literal must not leave a statement expression. */
+#define dns_quietinit(...) __VA_ARGS__
 #else
 #define DNS_PRAGMA_PUSH
 #define DNS_PRAGMA_QUIET
-- 
2.43.0


From a8ac7d7882c03b2bcfe0152c48e11099ba7a30e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 76/96] fix: DNS resolver sends malformed queries if the host
 has no domain name

---
 dns/dns.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dns/dns.c b/dns/dns.c
index 064440a..ddf9668 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -3908,9 +3908,11 @@ struct dns_resolv_conf *dns_resconf_open(int *error) {
 	dns_d_cleave(resconf->search[0], sizeof resconf->search[0], resconf->search[0], strlen(resconf->search[0]));
 
 	/*
-	 * XXX: If gethostname() returned a string without any label
-	 *      separator, then search[0][0] should be NUL.
+	 * If gethostname() returned a string without any label separator
+	 * there's no domain to search.
 	 */
+	if (0 == strcmp(resconf->search[0], "."))
+		resconf->search[0][0] = '\0';
 
 	dns_resconf_acquire(resconf);
 
-- 
2.43.0


From 8061a6077c7135a73aa6fea844e897e2a435bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 77/96] fix: ipaddr_remotes aborts if there is no /etc/hosts

---
 ipaddr.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 60ef11e..a9996e1 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -332,15 +332,29 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
        unless they are already chached. */
     if(dill_slow(!dill_dns_conf)) {
         /* TODO: Maybe re-read the configuration once in a while? */
-        dill_dns_conf = dns_resconf_local(&rc);
-        if(!dill_dns_conf) {
+        struct dns_resolv_conf *conf = dns_resconf_local(&rc);
+        if(!conf) {
             errno = ENOENT;
             return -1;
         }
-        dill_dns_hosts = dns_hosts_local(&rc);
-        dill_assert(dill_dns_hosts);
-        dill_dns_hints = dns_hints_local(dill_dns_conf, &rc);
-        dill_assert(dill_dns_hints);
+        struct dns_hosts *hosts = dns_hosts_local(&rc);
+        /* The file with local hosts doesn't have to exist. */
+        if(!hosts && rc == ENOENT) hosts = dns_hosts_open(&rc);
+        if(dill_slow(!hosts)) {
+            dns_resconf_close(conf);
+            errno = rc;
+            return -1;
+        }
+        struct dns_hints *hints = dns_hints_local(conf, &rc);
+        if(dill_slow(!hints)) {
+            dns_hosts_close(hosts);
+            dns_resconf_close(conf);
+            errno = rc;
+            return -1;
+        }
+        dill_dns_hosts = hosts;
+        dill_dns_hints = hints;
+        dill_dns_conf = conf;
     }
     /* Launch the actual DNS query. */
     struct dns_resolver *resolver = dns_res_open(dill_dns_conf,
-- 
2.43.0


From 89e505e2cc203adf63e2410448d0c9858a713882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 78/96] fix: ipaddr_remotes crashes if the DNS query fails

---
 ipaddr.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index a9996e1..5af477a 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -359,11 +359,9 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     /* Launch the actual DNS query. */
     struct dns_resolver *resolver = dns_res_open(dill_dns_conf,
         dill_dns_hosts, dill_dns_hints, NULL, dns_opts(), &rc);
-    if(!resolver) {
-        if(errno == ENFILE || errno == EMFILE) {
-            return -1;
-        }
-        dill_assert(resolver);
+    if(dill_slow(!resolver)) {
+        errno = rc;
+        return -1;
     }
     dill_assert(port >= 0 && port <= 0xffff);
     char portstr[8];
@@ -374,8 +372,11 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     struct dns_addrinfo *ai = dns_ai_open(name, portstr,
         mode == DILL_IPADDR_IPV4 ? DNS_T_A : DNS_T_AAAA, &hints,
         resolver, &rc);
-    dill_assert(ai);
     dns_res_close(resolver);
+    if(dill_slow(!ai)) {
+        errno = rc;
+        return -1;
+    }
     /* Wait for the results. */
     int nresults = 0;
     struct addrinfo *it = NULL;
@@ -400,6 +401,11 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
             continue;
         }
         if(rc == ENOENT || (rc >= DNS_EBASE && rc <= DNS_ELAST)) break;
+        if(dill_slow(rc != 0)) {
+            dns_ai_close(ai);
+            errno = rc;
+            return -1;
+        }
         if(naddrs && mode == DILL_IPADDR_IPV4 && it->ai_family == AF_INET) {
             struct sockaddr_in *inaddr = (struct sockaddr_in*)addrs;
             memcpy(inaddr, it->ai_addr, sizeof (struct sockaddr_in));
-- 
2.43.0


From 37bff0b75252a02fb563cd5545b10bd6f908917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 79/96] fix: DNS query IDs and ports are the same in every
 process

---
 dns/dns.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index ddf9668..821bd8b 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -350,6 +350,12 @@ static inline unsigned dns_atomic_fetch_sub(dns_atomic_t *i) {
  * P R N G
  */
 
+#if !defined(HAVE_ARC4RANDOM) && defined(__GLIBC__)
+#if __GLIBC_PREREQ(2, 36)
+#define HAVE_ARC4RANDOM	1
+#endif
+#endif
+
 #ifndef DNS_RANDOM
 #if defined(HAVE_ARC4RANDOM)	\
  || defined(__OpenBSD__)	\
-- 
2.43.0


From b9c59b3f2548a4c2ecfd8a6ac9c5b42f20843d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 80/96] fix: ipaddr_remotes never retries if the name server
 doesn't respond

---
 dns/dns.c | 7 ++++++-
 ipaddr.c  | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/dns/dns.c b/dns/dns.c
index 821bd8b..8b5fb1a 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -6925,7 +6925,12 @@ exec:
 		if (dns_so_elapsed(&R->so) >= dns_resconf_timeout(R->resconf))
 			dgoto(R->sp, DNS_R_FOREACH_A);
 
-		if ((error = dns_so_check(&R->so)))
+		error = dns_so_check(&R->so);
+
+		/* Nobody listens there. Try the next name server. */
+		if (error == ECONNREFUSED)
+			dgoto(R->sp, DNS_R_FOREACH_A);
+		else if (error)
 			goto error;
 
 		if (!dns_p_setptr(&F->answer, dns_so_fetch(&R->so, &error)))
diff --git a/ipaddr.c b/ipaddr.c
index 5af477a..941f522 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -386,14 +386,20 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
             int fd = dns_ai_pollfd(ai);
             int events = dns_ai_events(ai);
             dill_assert(fd >= 0);
+            /* Wake up now and then so that the resolver can notice that
+               the name server doesn't respond and try once more or ask
+               a different one. */
+            int64_t ddline = dill_now() + 1000;
+            if(deadline >= 0 && deadline < ddline) ddline = deadline;
             int rc = (events & DNS_POLLOUT) ?
-                dill_fdout(fd, deadline) : dill_fdin(fd, deadline);
+                dill_fdout(fd, ddline) : dill_fdin(fd, ddline);
             /* There's no guarantee that the file descriptor will be reused
                in next iteration. We have to clean the fdwait cache here
                to be on the safe side. */
             int err = errno;
             dill_fdclean(fd);
             errno = err;
+            if(rc < 0 && err == ETIMEDOUT && ddline != deadline) continue;
             if(dill_slow(rc < 0)) {
                 dns_ai_close(ai);
                 return -1;
-- 
2.43.0


From a8d85f21f49c9f5554a30c5a32eea8b27f25cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 81/96] fix: happyeyeballs_connect makes two attempts at once
 after a late DNS answer

---
 happyeyeballs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index 9fedfb3..adecbb0 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -113,10 +113,10 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     dill_assert(errno == ETIMEDOUT);
     /* From now we can use any address. */
     while(1) {
-        nw = dill_now();
         idx = dill_choose(cls, 2, -1);
         if(dill_slow(idx < 0 && errno == ECANCELED)) goto cancel;
         dill_assert(idx >= 0 && errno == 0);
+        nw = dill_now();
 use_address:
         /* Ignore 0.0.0.0 addresses. */
         if(dill_ipaddr_equal(&addr, &nulladdr, 0)) continue;
-- 
2.43.0


From 59e439bcb544bdd13533a89735a60bb0452e870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 82/96] fix: happyeyeballs_connect doesn't check for ports over
 65535

---
 happyeyeballs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index adecbb0..9744c7d 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -151,7 +151,7 @@ cancel:
 int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
     int res = -1;
     int err = 0;
-    if(dill_slow(!name || port <= 0)) {err = EINVAL; goto exit1;}
+    if(dill_slow(!name || port <= 0 || port > 0xffff)) {err = EINVAL; goto exit1;}
     int chconns[2];
     struct dill_chstorage chconns_storage;
     int rc = dill_chmake_mem(&chconns_storage, chconns);
-- 
2.43.0


From 9eb50138620f8c3802a2f9ab09b9fae7993e34cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 83/96] fix: happyeyeballs_connect aborts if memory runs out

---
 happyeyeballs.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index 9744c7d..15590ba 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -77,22 +77,22 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     int chipv6[2];
     struct dill_chstorage chipv6_storage;
     rc = dill_chmake_mem(&chipv6_storage, chipv6);
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) goto fail1;
     int chipv4[2];
     struct dill_chstorage chipv4_storage;
     rc = dill_chmake_mem(&chipv4_storage, chipv4);
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) goto fail2;
     struct dill_bundle_storage bndl_storage;
     int bndl = dill_bundle_mem(&bndl_storage);
-    dill_assert(bndl >= 0);
+    if(dill_slow(bndl < 0)) goto fail3;
     rc = dill_bundle_go(bndl, dill_happyeyeballs_dnsquery(name, port,
         DILL_IPADDR_IPV6, chipv6[1]));
     if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) goto fail4;
     rc = dill_bundle_go(bndl, dill_happyeyeballs_dnsquery(name, port,
         DILL_IPADDR_IPV4, chipv4[1]));
     if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) goto fail4;
     /* RFC says to wait for 50ms for IPv6 result irrespective of whether
        IPv4 address arrives. */
     struct dill_ipaddr addr;
@@ -123,7 +123,7 @@ use_address:
         /* Launch the connect attempt. */
         rc = dill_bundle_go(bndl, dill_happyeyeballs_attempt(addr, ch));
         if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-        dill_assert(rc == 0);
+        if(dill_slow(rc < 0)) goto fail4;
         /* Alternate between IPv4 and IPv6 addresses. */
         if(idx == 0) {
             int tmp = cls[0].ch;
@@ -138,14 +138,29 @@ use_address:
 cancel:
     rc = dill_hclose(bndl);
     dill_assert(rc == 0);
+close4:
     rc = dill_hclose(chipv4[0]);
     dill_assert(rc == 0);
     rc = dill_hclose(chipv4[1]);
     dill_assert(rc == 0);
+close6:
     rc = dill_hclose(chipv6[0]);
     dill_assert(rc == 0);
     rc = dill_hclose(chipv6[1]);
     dill_assert(rc == 0);
+    return;
+    /* Out of memory. Let the user know that there will be no connection. */
+fail4:
+    dill_chdone(ch);
+    goto cancel;
+fail3:
+    dill_chdone(ch);
+    goto close4;
+fail2:
+    dill_chdone(ch);
+    goto close6;
+fail1:
+    dill_chdone(ch);
 }
 
 int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
@@ -160,7 +175,11 @@ int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
     if(dill_slow(coord < 0)) {err = errno; goto exit2;}
     int conn;
     rc = dill_chrecv(chconns[0], &conn, sizeof(int), deadline);
-    if(dill_slow(rc < 0)) {err = errno; goto exit3;}
+    if(dill_slow(rc < 0)) {
+        /* The channel is terminated only if we've run out of memory. */
+        err = errno == EPIPE ? ENOMEM : errno;
+        goto exit3;
+    }
     res = conn;
 exit3:
     rc = dill_hclose(coord);
-- 
2.43.0


From a3977b4e7f18f77b39153565cad4e3395802b097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 84/96] fix: http_attach and ws_attach report ENOTSUP instead
 of EPROTO for a wrong socket

---
 http.c | 4 +++-
 ws.c   | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/http.c b/http.c
index 08b5931..7589ef3 100644
--- a/http.c
+++ b/http.c
@@ -62,7 +62,9 @@ int dill_http_attach_mem(int s, struct dill_http_storage *mem) {
     struct dill_http_sock *obj = (struct dill_http_sock*)mem;
     if(dill_slow(!mem)) {err = EINVAL; goto error;}
     /* Check whether underlying socket is a bytestream. */
-    if(dill_slow(!dill_hquery(s, dill_bsock_type))) {err = errno; goto error;}
+    void *q = dill_hquery(s, dill_bsock_type);
+    if(dill_slow(!q && errno == ENOTSUP)) {err = EPROTO; goto error;}
+    if(dill_slow(!q)) {err = errno; goto error;}
     /* Take the ownership of the underlying socket. */
     s = dill_hown(s);
     if(dill_slow(s < 0)) {err = errno; goto error;}
diff --git a/ws.c b/ws.c
index a28adc5..dd0a72f 100644
--- a/ws.c
+++ b/ws.c
@@ -84,7 +84,9 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
       const char *host, struct dill_ws_storage *mem, int64_t deadline) {
     int err;
     if(dill_slow(!mem)) {err = EINVAL; goto error;}
-    if(dill_slow(!dill_hquery(s, dill_bsock_type))) {err = errno; goto error;}
+    void *q = dill_hquery(s, dill_bsock_type);
+    if(dill_slow(!q && errno == ENOTSUP)) {err = EPROTO; goto error;}
+    if(dill_slow(!q)) {err = errno; goto error;}
     struct dill_ws_sock *self = (struct dill_ws_sock*)mem;
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
@@ -208,7 +210,9 @@ int dill_ws_attach_server_mem(int s, int flags,
       struct dill_ws_storage *mem, int64_t deadline) {
     int err;
     if(dill_slow(!mem)) {err = EINVAL; goto error;}
-    if(dill_slow(!dill_hquery(s, dill_bsock_type))) {err = errno; goto error;}
+    void *q = dill_hquery(s, dill_bsock_type);
+    if(dill_slow(!q && errno == ENOTSUP)) {err = EPROTO; goto error;}
+    if(dill_slow(!q)) {err = errno; goto error;}
     struct dill_ws_sock *self = (struct dill_ws_sock*)mem;
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-- 
2.43.0


From 5f4f42c82fbc7105ff15a3f709d43d0162e17032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:35 +0000
Subject: [PATCH 85/96] fix: ws_attach_server aborts if the handle is invalid

---
 ws.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ws.c b/ws.c
index dd0a72f..cc8f768 100644
--- a/ws.c
+++ b/ws.c
@@ -315,10 +315,7 @@ int dill_ws_attach_server_mem(int s, int flags,
     if(dill_slow(h < 0)) {err = errno; goto error;}
     return h;
 error:
-    if(s >= 0) {
-        int rc = dill_hclose(s);
-        dill_assert(rc == 0);
-    }
+    if(s >= 0) dill_hclose(s);
     errno = err;
     return -1;
 }
-- 
2.43.0


From 02aac4a42b53190adc9d253d5d7293bd7fa72bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:47 +0000
Subject: [PATCH 86/96] fix: bundle_go with an invalid handle launches the
 coroutine elsewhere

---
 libdill.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libdill.h b/libdill.h
index 7e464c3..f5dc920 100644
--- a/libdill.h
+++ b/libdill.h
@@ -269,8 +269,17 @@ DILL_EXPORT __attribute__((noinline)) void dill_epilogue(void);
 #define dill_go(fn) dill_go_(fn, NULL, 0, -1)
 #define dill_go_mem(fn, ptr, len) dill_go_(fn, ptr, len, -1)
 
-#define dill_bundle_go(bndl, fn) dill_go_(fn, NULL, 0, bndl)
-#define dill_bundle_go_mem(bndl, fn, ptr, len) dill_go_(fn, ptr, len, bndl)
+/* dill_prologue creates a new bundle if there is none, i.e. if the handle is
+   negative. An invalid handle passed by the user must not be mistaken for that
+   case, so it is replaced by a number that is never used as a handle. */
+#define dill_bundle_(bndl) __extension__ ({\
+        int dill_bndl__ = (bndl);\
+        dill_bndl__ < 0 ? 0x7fffffff : dill_bndl__;\
+    })
+
+#define dill_bundle_go(bndl, fn) dill_go_(fn, NULL, 0, dill_bundle_(bndl))
+#define dill_bundle_go_mem(bndl, fn, ptr, len) \
+    dill_go_(fn, ptr, len, dill_bundle_(bndl))
 
 struct dill_bundle_storage {char _[64];} DILL_ALIGN;
 
-- 
2.43.0


From 467d5001e5643b119a3715b5d8d4f0d740403055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:58 +0000
Subject: [PATCH 87/96] fix: socks5_client_connect checks its arguments after
 the handshake has started

---
 socks5.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/socks5.c b/socks5.c
index a32e0f4..e21ad22 100644
--- a/socks5.c
+++ b/socks5.c
@@ -362,10 +362,6 @@ static int s5_handle_connection_response(int s, int64_t deadline) {
 static int s5_client_connectbyname(int s, const char *hostname, int port, int64_t deadline) {
     // ensure socket is bytesstream
     if(dill_slow(!dill_hquery(s, dill_bsock_type))) return -1;
-    // validate input
-    if(dill_slow(!hostname)) {errno = EINVAL; return -1;}
-    if(dill_slow(strlen(hostname) > 255)) {errno = EINVAL; return -1;}
-    if((port <= 0) || (port>65535)) {errno = EINVAL; return -1;}
     // largest possible connect request = 255 chars for name + 7 bytes for
     // VER, CMD, RSV, ATYP, ALEN, PORT[2]
     uint8_t conn[262];
@@ -409,8 +405,6 @@ static int s5_client_connectbyname(int s, const char *hostname, int port, int64_
 static int s5_client_connect(int s, struct dill_ipaddr *ipaddr, int64_t deadline) {
     // ensure socket is bytesstream
     if(dill_slow(!dill_hquery(s, dill_bsock_type))) return -1;
-    // validate input
-    if(dill_slow(!ipaddr)) {errno = EINVAL; return -1;}
     // largest possible connect request = 255 chars for name + 7 bytes for
     // VER, CMD, RSV, ATYP, ALEN, PORT[2]
     uint8_t conn[262];
@@ -547,6 +541,8 @@ int dill_socks5_proxy_sendreply(int s, int reply, struct dill_ipaddr *ipaddr,
 
 int dill_socks5_client_connect(int s, const char *username,
       const char *password, struct dill_ipaddr *addr, int64_t deadline) {
+    // validate input before anything is sent to the proxy
+    if(dill_slow(!addr)) {errno = EINVAL; return -1;}
     int err = s5_client_auth(s, username, password, deadline);
     if(err < 0) return -1;
     err = s5_client_connect(s, addr, deadline);
@@ -557,6 +553,10 @@ int dill_socks5_client_connect(int s, const char *username,
 int dill_socks5_client_connectbyname(int s, const char *username,
       const char *password, const char *hostname, int port,
       int64_t deadline) {
+    // validate input before anything is sent to the proxy
+    if(dill_slow(!hostname)) {errno = EINVAL; return -1;}
+    if(dill_slow(strlen(hostname) > 255)) {errno = EINVAL; return -1;}
+    if((port <= 0) || (port>65535)) {errno = EINVAL; return -1;}
     int err = s5_client_auth(s, username, password, deadline);
     if(err < 0) return -1;
     err = s5_client_connectbyname(s, hostname, port, deadline);
-- 
2.43.0


From dac5d6074fe58d6270f721d37b7f48df44bee6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:57 +0000
Subject: [PATCH 88/96] fix: ipc_recvfd leaks all descriptors of a message but
 the first

---
 ipc.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ipc.c b/ipc.c
index c26a065..0f37866 100644
--- a/ipc.c
+++ b/ipc.c
@@ -287,13 +287,19 @@ int dill_ipc_recvfd(int s, int64_t deadline) {
         return -1;
     }
     if(dill_slow(sz == 0)) {self->indone = 1; errno = EPIPE; return -1;}
-    /* Loop over the auxiliary data to find the embedded file descriptor. */
+    /* Loop over the auxiliary data to find the embedded file descriptor.
+       If the peer has sent several descriptors close the remaining ones. */
     int fd = -1;
     struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg);
     while(cmsg) {
         if (cmsg->cmsg_level == SOL_SOCKET && cmsg->cmsg_type  == SCM_RIGHTS) {
-            fd = *(int*)CMSG_DATA(cmsg);
-            break;
+            int *fds = (int*)CMSG_DATA(cmsg);
+            size_t nfds = (cmsg->cmsg_len - CMSG_LEN(0)) / sizeof(int);
+            size_t i;
+            for(i = 0; i != nfds; ++i) {
+                if(fd < 0) fd = fds[i];
+                else close(fds[i]);
+            }
         }
         cmsg = CMSG_NXTHDR(&msg, cmsg);
     }
-- 
2.43.0


From 2b59b2d508b78492b31c1b3ec2d1aa54f246315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 89/96] fix: brecvl(NULL, NULL) on a TLS socket dereferences a
 null pointer

---
 tls.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tls.c b/tls.c
index 0955d2d..0dfa823 100644
--- a/tls.c
+++ b/tls.c
@@ -333,6 +333,9 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
     self->deadline = deadline;
+    /* If there's no list skip all the data until the connection ends. */
+    struct dill_iolist all = {NULL, SIZE_MAX, NULL, 0};
+    if(dill_slow(!first)) first = last = &all;
     struct dill_iolist *it = first;
     while(1) {
         uint8_t *base = it->iol_base;
-- 
2.43.0


From 3279f6262e6fa7be40d51e2b2c047806dfcc55f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 90/96] fix: threads attaching TLS for the first time at once
 initialise it several times

tls.c guarded its one-time initialisation with a plain static variable.
Two threads could both run it, or one of them could use the BIO method
while the other one was still filling it in. Use pthread_once.
---
 tls.c   | 47 ++++++++++++++++++++++++-----------------------
 utils.h | 22 ++++++++++++++++++++++
 2 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/tls.c b/tls.c
index 0dfa823..7a1a0a2 100644
--- a/tls.c
+++ b/tls.c
@@ -491,28 +491,29 @@ static void dill_tls_term(void) {
     EVP_cleanup();
 }
 
+static void dill_tls_init_once(void) {
+    SSL_library_init();
+    SSL_load_error_strings();
+    /* Create our own custom BIO type. */
+    int idx = BIO_get_new_index();
+    dill_tls_cbio = BIO_meth_new(idx, "bsock");
+    dill_assert(dill_tls_cbio);
+    int rc = BIO_meth_set_create(dill_tls_cbio, dill_tls_cbio_create);
+    dill_assert(rc == 1);
+    rc = BIO_meth_set_destroy(dill_tls_cbio, dill_tls_cbio_destroy);
+    dill_assert(rc == 1);
+    rc = BIO_meth_set_write(dill_tls_cbio, dill_tls_cbio_write);
+    dill_assert(rc == 1);
+    rc = BIO_meth_set_read(dill_tls_cbio, dill_tls_cbio_read);
+    dill_assert(rc == 1);
+    rc = BIO_meth_set_ctrl(dill_tls_cbio, dill_tls_cbio_ctrl);
+    dill_assert(rc == 1);
+    /* Deallocate the method once the process exits. */
+    rc = atexit(dill_tls_term);
+    dill_assert(rc == 0);
+}
+
 static void dill_tls_init(void) {
-    static int init = 0;
-    if(dill_slow(!init)) {
-        SSL_library_init();
-        SSL_load_error_strings();
-        /* Create our own custom BIO type. */
-        int idx = BIO_get_new_index();
-        dill_tls_cbio = BIO_meth_new(idx, "bsock");
-        dill_assert(dill_tls_cbio);
-        int rc = BIO_meth_set_create(dill_tls_cbio, dill_tls_cbio_create);
-        dill_assert(rc == 1);
-        rc = BIO_meth_set_destroy(dill_tls_cbio, dill_tls_cbio_destroy);
-        dill_assert(rc == 1);
-        rc = BIO_meth_set_write(dill_tls_cbio, dill_tls_cbio_write);
-        dill_assert(rc == 1);
-        rc = BIO_meth_set_read(dill_tls_cbio, dill_tls_cbio_read);
-        dill_assert(rc == 1);
-        rc = BIO_meth_set_ctrl(dill_tls_cbio, dill_tls_cbio_ctrl);
-        dill_assert(rc == 1);
-        /* Deallocate the method once the process exits. */
-        rc = atexit(dill_tls_term);
-        dill_assert(rc == 0);
-        init = 1;
-    }
+    static dill_once once = DILL_ONCE_INIT;
+    dill_do_once(&once, dill_tls_init_once);
 }
diff --git a/utils.h b/utils.h
index 6c43989..858110e 100644
--- a/utils.h
+++ b/utils.h
@@ -89,6 +89,28 @@ void dill_print_size(char x);
         }\
     } while (0)
 
+/* Runs the initialization function when called for the first time. */
+#if defined DILL_THREADS
+#include <pthread.h>
+typedef pthread_once_t dill_once;
+#define DILL_ONCE_INIT PTHREAD_ONCE_INIT
+#define dill_do_once(once, fn) \
+    do {\
+        int dill_once_rc = pthread_once((once), (fn));\
+        dill_assert(dill_once_rc == 0);\
+    } while (0)
+#else
+typedef int dill_once;
+#define DILL_ONCE_INIT 0
+#define dill_do_once(once, fn) \
+    do {\
+        if(dill_slow(!*(once))) {\
+            (fn)();\
+            *(once) = 1;\
+        }\
+    } while (0)
+#endif
+
 /* Workaround missing __rdtsc in Clang < 3.5 (or Clang < 6.0 on Xcode) */
 #if defined(__x86_64__) || defined(__i386__)
 #if defined __clang__
-- 
2.43.0


From bd6ed14dd7e4324189af13391f06a864665b94ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 91/96] fix: threads asking for random numbers for the first
 time at once leak a descriptor

---
 utils.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/utils.c b/utils.c
index d164ddc..f510502 100644
--- a/utils.c
+++ b/utils.c
@@ -109,13 +109,17 @@ const char *dill_rstrip(const char *string, char delim) {
     return ++end;
 }
 
+static int dill_random_fd = -1;
+
+static void dill_random_init(void) {
+    dill_random_fd = open("/dev/urandom", O_RDONLY);
+    dill_assert(dill_random_fd >= 0);
+}
+
 int dill_random(uint8_t *buf, size_t len) {
-    static int fd = -1;
-    if(dill_slow(fd < 0)) {
-        fd = open("/dev/urandom", O_RDONLY);
-        dill_assert(fd >= 0);
-    }
-    ssize_t sz = read(fd, buf, len);
+    static dill_once once = DILL_ONCE_INIT;
+    dill_do_once(&once, dill_random_init);
+    ssize_t sz = read(dill_random_fd, buf, len);
     if(dill_slow(sz < 0)) return -1;
     dill_assert(sz == len);
     return 0;
-- 
2.43.0


From 1f8053c98380b11ffdb3bd170ecf629b79209a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 92/96] fix: threads resolving a name for the first time at
 once race for the DNS configuration

Each of them loaded the configuration (all but one copy were leaked) and
could see it partly initialised. Load it under a mutex.
---
 ipaddr.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ipaddr.c b/ipaddr.c
index 941f522..cb3c974 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -55,6 +55,23 @@ static struct dns_resolv_conf *dill_dns_conf = NULL;
 static struct dns_hosts *dill_dns_hosts = NULL;
 static struct dns_hints *dill_dns_hints = NULL;
 
+/* The DNS configuration is shared by all the threads. */
+#if defined DILL_THREADS
+#include <pthread.h>
+static pthread_mutex_t dill_dns_mutex = PTHREAD_MUTEX_INITIALIZER;
+static void dill_dns_lock(void) {
+    int rc = pthread_mutex_lock(&dill_dns_mutex);
+    dill_assert(rc == 0);
+}
+static void dill_dns_unlock(void) {
+    int rc = pthread_mutex_unlock(&dill_dns_mutex);
+    dill_assert(rc == 0);
+}
+#else
+#define dill_dns_lock()
+#define dill_dns_unlock()
+#endif
+
 static int dill_ipaddr_ipany(struct dill_ipaddr *addr, int port, int mode)
 {
     if(dill_slow(port < 0 || port > 0xffff)) {errno = EINVAL; return -1;}
@@ -330,10 +347,12 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     }
     /* We are going to do a DNS query here so load DNS config files,
        unless they are already chached. */
+    dill_dns_lock();
     if(dill_slow(!dill_dns_conf)) {
         /* TODO: Maybe re-read the configuration once in a while? */
         struct dns_resolv_conf *conf = dns_resconf_local(&rc);
         if(!conf) {
+            dill_dns_unlock();
             errno = ENOENT;
             return -1;
         }
@@ -342,6 +361,7 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
         if(!hosts && rc == ENOENT) hosts = dns_hosts_open(&rc);
         if(dill_slow(!hosts)) {
             dns_resconf_close(conf);
+            dill_dns_unlock();
             errno = rc;
             return -1;
         }
@@ -349,6 +369,7 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
         if(dill_slow(!hints)) {
             dns_hosts_close(hosts);
             dns_resconf_close(conf);
+            dill_dns_unlock();
             errno = rc;
             return -1;
         }
@@ -356,6 +377,7 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
         dill_dns_hints = hints;
         dill_dns_conf = conf;
     }
+    dill_dns_unlock();
     /* Launch the actual DNS query. */
     struct dns_resolver *resolver = dns_res_open(dill_dns_conf,
         dill_dns_hosts, dill_dns_hints, NULL, dns_opts(), &rc);
-- 
2.43.0


From c5253ff52d7630b58c084c3a609a18dc7a40187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:50 +0000
Subject: [PATCH 93/96] fix: sends and receives of 2 GB or more on TLS sockets
 fail (OpenSSL takes the length as int)

---
 tls.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tls.c b/tls.c
index 7a1a0a2..c276776 100644
--- a/tls.c
+++ b/tls.c
@@ -23,6 +23,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <openssl/bio.h>
 #include <openssl/err.h>
 #include <openssl/ssl.h>
@@ -309,7 +310,8 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
         while(len > 0) {
             ERR_clear_error();
             self->sbusy = 1;
-            int rc = SSL_write(self->ssl, base, len);
+            /* OpenSSL measures the data by int. */
+            int rc = SSL_write(self->ssl, base, len < INT_MAX ? len : INT_MAX);
             self->sbusy = 0;
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
@@ -345,7 +347,8 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
             /* If there's no buffer the data are skipped. */
             uint8_t skip[512];
             self->rbusy = 1;
-            int rc = base ? SSL_read(self->ssl, base, len) :
+            int rc = base ?
+                SSL_read(self->ssl, base, len < INT_MAX ? len : INT_MAX) :
                 SSL_read(self->ssl, skip, len < sizeof(skip) ?
                     len : sizeof(skip));
             self->rbusy = 0;
-- 
2.43.0


From fdd34c6de7e76cdee4f9af084ece533f1db5b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:16 +0000
Subject: [PATCH 94/96] fix: PREFIX messages with length fields longer than 8
 bytes are cut to the length modulo 2^64

---
 prefix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prefix.c b/prefix.c
index 330e52a..ffc37e5 100644
--- a/prefix.c
+++ b/prefix.c
@@ -162,6 +162,8 @@ static ssize_t dill_prefix_mrecvl(struct dill_msock_vfs *mvfs,
     int i;
     for(i = 0; i != self->hdrlen; ++i) {
         uint8_t c = szbuf[self->bigendian ? i : (self->hdrlen - i - 1)];
+        /* Length field may be longer than 8 bytes. */
+        if(dill_slow(sz >> 56)) {self->inerr = 1; errno = EMSGSIZE; return -1;}
         sz <<= 8;
         sz |= c;
     }
-- 
2.43.0


From fa727938551e6fbfb24225619982200f2ac48e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:26 +0000
Subject: [PATCH 95/96] fix: sources behind a criterion like [!UNAVAIL=return]
 in nsswitch.conf are ignored, so that the name server may never be asked

---
 dns/dns.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dns/dns.c b/dns/dns.c
index 8b5fb1a..c0c297c 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -4615,6 +4615,7 @@ int dns_nssconf_loadfile(struct dns_resolv_conf *resconf, FILE *fp) {
 					dns_anyconf_skip(" \t", fp);
 				}
 
+				dns_anyconf_skip("^#;]\n", fp); /* skip what isn't understood, e.g. "!UNAVAIL=return" */
 				dns_anyconf_skip("] \t", fp);
 			}
 
-- 
2.43.0


From b9168fae41b7fae30967f21ca6dbf97077fb815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:16 +0000
Subject: [PATCH 96/96] fix: name servers with IPv6 addresses in resolv.conf
 are never asked, and one to which there is no route ends the query

---
 dns/dns.c | 98 ++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 75 insertions(+), 23 deletions(-)

diff --git a/dns/dns.c b/dns/dns.c
index c0c297c..44f66e6 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -5968,6 +5968,33 @@ static int dns_so_tcp_recv(struct dns_socket *so) {
 #endif
 
 
+/* Replace the UDP socket if it can't be used to talk to hosts with this kind of address. */
+static int dns_so_setfamily(struct dns_socket *so, int af) {
+	struct sockaddr_storage local;
+	int fd, error;
+
+	if (so->local.ss_family == af)
+		return 0;
+
+	memset(&local, 0, sizeof local);
+
+	local.ss_family	= af;
+
+	if (-1 == (fd = dns_socket((struct sockaddr *)&local, SOCK_DGRAM, &error)))
+		return error;
+
+	if ((error = dns_so_closefd(so, &so->udp))) {
+		dns_socketclose(&fd, &so->opts);
+		return error;
+	}
+
+	so->udp		= fd;
+	so->local	= local;
+
+	return 0;
+} /* dns_so_setfamily() */
+
+
 int dns_so_check(struct dns_socket *so) {
 	int error;
 	long n;
@@ -5975,6 +6002,9 @@ int dns_so_check(struct dns_socket *so) {
 retry:
 	switch (so->state) {
 	case DNS_SO_UDP_INIT:
+		if ((error = dns_so_setfamily(so, so->remote.ss_family)))
+			goto error;
+
 		so->state++;
 	case DNS_SO_UDP_CONN:
 		if (0 != connect(so->udp, (struct sockaddr *)&so->remote, dns_sa_len(&so->remote)))
@@ -6009,6 +6039,9 @@ retry:
 
 		so->state++;
 	case DNS_SO_TCP_INIT:
+		if ((error = dns_so_setfamily(so, so->remote.ss_family)))
+			goto error;
+
 		if (dns_so_tcp_keep(so)) {
 			so->state = DNS_SO_TCP_SEND;
 
@@ -6613,13 +6646,38 @@ static int dns_res_nameserv_cmp(struct dns_rr *a, struct dns_rr *b, struct dns_r
 #define dgoto(sp, i)	\
 	do { R->stack[(sp)].state = (i); goto exec; } while (0)
 
+static int dns_res_nameserv_addr(struct sockaddr_storage *ss, struct dns_resolver *R, struct dns_rr *rr, struct dns_packet *P) {
+	int af = (rr->type == DNS_T_AAAA)? AF_INET6 : AF_INET;
+	int error;
+
+	memset(ss, 0, sizeof *ss);
+
+	ss->ss_family	= af;
+#ifdef  HAVE_STRUCT_SOCKADDR_SA_LEN
+	ss->ss_len	= dns_af_len(af);
+#endif
+
+	if (af == AF_INET6)
+		error = dns_aaaa_parse((struct dns_aaaa *)dns_sa_addr(af, ss, NULL), rr, P);
+	else
+		error = dns_a_parse((struct dns_a *)dns_sa_addr(af, ss, NULL), rr, P);
+
+	if (error)
+		return error;
+
+	*dns_sa_port(af, ss) = (R->sp == 0)? dns_hints_port(R->hints, af, dns_sa_addr(af, ss, NULL)) : htons(53);
+
+	return 0;
+} /* dns_res_nameserv_addr() */
+
+
 static int dns_res_exec(struct dns_resolver *R) {
 	struct dns_res_frame *F;
 	struct dns_packet *P;
 	char host[DNS_D_MAXNAME + 1];
 	size_t len;
 	struct dns_rr rr;
-	struct sockaddr_in sin;
+	struct sockaddr_storage ss;
 	int error;
 
 exec:
@@ -6889,36 +6947,29 @@ exec:
 			goto error;
 
 		F->hints_j.name		= host;
-		F->hints_j.type		= DNS_T_A;
+		F->hints_j.type		= 0;
 		F->hints_j.section	= DNS_S_ALL & ~DNS_S_QD;
 
-		if (!dns_rr_grep(&rr, 1, &F->hints_j, F->hints, &error)) {
-			if (!dns_rr_i_count(&F->hints_j))
-				dgoto(R->sp, DNS_R_RESOLV0_NS);
-
-			dgoto(R->sp, DNS_R_FOREACH_NS);
-		}
+		/* The name server may have an IPv4 or an IPv6 address. */
+		do {
+			if (!dns_rr_grep(&rr, 1, &F->hints_j, F->hints, &error)) {
+				if (!dns_rr_i_count(&F->hints_j))
+					dgoto(R->sp, DNS_R_RESOLV0_NS);
 
-		sin.sin_family	= AF_INET;
-#ifdef  HAVE_STRUCT_SOCKADDR_SA_LEN
-		sin.sin_len     = dns_af_len(sin.sin_family);
-#endif
+				dgoto(R->sp, DNS_R_FOREACH_NS);
+			}
+		} while (rr.type != DNS_T_A && rr.type != DNS_T_AAAA);
 
-		if ((error = dns_a_parse((struct dns_a *)&sin.sin_addr, &rr, F->hints)))
+		if ((error = dns_res_nameserv_addr(&ss, R, &rr, F->hints)))
 			goto error;
 
-		if (R->sp == 0)
-			sin.sin_port = dns_hints_port(R->hints, AF_INET, (struct sockaddr *)&sin.sin_addr);
-		else
-			sin.sin_port = htons(53);
-
 		if (DNS_DEBUG) {
-			char addr[INET_ADDRSTRLEN + 1];
-			dns_a_print(addr, sizeof addr, (struct dns_a *)&sin.sin_addr);
+			char addr[INET6_ADDRSTRLEN + 1];
+			dns_inet_ntop(ss.ss_family, dns_sa_addr(ss.ss_family, &ss, NULL), addr, sizeof addr);
 			DNS_SHOW(F->query, "ASKING: %s/%s @ DEPTH: %u)", host, addr, R->sp);
 		}
 
-		if ((error = dns_so_submit(&R->so, F->query, (struct sockaddr *)&sin)))
+		if ((error = dns_so_submit(&R->so, F->query, (struct sockaddr *)&ss)))
 			goto error;
 
 		F->state++;
@@ -6928,8 +6979,9 @@ exec:
 
 		error = dns_so_check(&R->so);
 
-		/* Nobody listens there. Try the next name server. */
-		if (error == ECONNREFUSED)
+		/* Nobody listens there or there's no way to get there. Try the next name server. */
+		if (error == ECONNREFUSED || error == ENETUNREACH || error == EHOSTUNREACH
+		||  error == EADDRNOTAVAIL || error == EAFNOSUPPORT)
 			dgoto(R->sp, DNS_R_FOREACH_A);
 		else if (error)
 			goto error;
-- 
2.43.0

