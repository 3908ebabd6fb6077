From 7fe2793cf233f5c50135bc11f97c1d0fef81188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 01/90] fix: deadlines more than 2^31 ms away made the thread
 block for ever

---
 cr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cr.c b/cr.c
index fdd5bb0..b6f4a9c 100644
--- a/cr.c
+++ b/cr.c
@@ -22,6 +22,7 @@
 
 #include <errno.h>
 #include <stdint.h>
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 
@@ -466,7 +467,9 @@ int dill_wait(void)  {
                     int64_t deadline = dill_cont(
                         dill_rbtree_first(&ctx->timers),
                         struct dill_tmclause, item)->item.val;
-                    timeout = (int) (nw >= deadline ? 0 : deadline - nw);
+                    int64_t delay = nw >= deadline ? 0 : deadline - nw;
+                    /* Don't let deadlines in far future overflow the int. */
+                    timeout = delay > INT_MAX ? INT_MAX : (int)delay;
                 }
             }
             /* Wait for events. */
-- 
2.43.0


From ab83ccdaf5a64a1bc5083f4d77bffb9dfd5eac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 02/90] fix: closing a coroutine that was blocked inside
 hclose() crashed the process

---
 cr.c | 10 ++++++++--
 cr.h |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/cr.c b/cr.c
index b6f4a9c..715c827 100644
--- a/cr.c
+++ b/cr.c
@@ -298,6 +298,7 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     cr->no_blocking2 = 0;
     cr->done = 0;
     cr->mem = *ptr ? 1 : 0;
+    cr->closing = 0;
 #if defined DILL_VALGRIND
     cr->sid = VALGRIND_STACK_REGISTER((char*)(cr + 1) - stacksz, cr);
 #endif
@@ -383,8 +384,11 @@ static void dill_cr_close(struct dill_hvfs *vfs) {
     if(!cr->done) {
         /* No blocking calls from this point on. */
         cr->no_blocking1 = 1;
-        /* Resume the coroutine if it was blocked. */
-        if(!cr->ready.next)
+        /* Resume the coroutine if it was blocked. If it is itself in the middle
+           of hclose() let it be. It will resume when the coroutine it is
+           closing finishes. If that's the present coroutine it never will. */
+        dill_assert(ctx->r->closer != cr);
+        if(!cr->ready.next && !cr->closing)
             dill_cancel(cr, ECANCELED);
         /* Wait for the coroutine to stop executing. With no clauses added,
            the only mechanism to resume is through dill_cancel(). This is not
@@ -392,7 +396,9 @@ static void dill_cr_close(struct dill_hvfs *vfs) {
            coroutine that is being shut down is not permitted to block, we
            should get control back pretty quickly. */
         cr->closer = ctx->r;
+        cr->closer->closing = 1;
         int rc = dill_wait();
+        ctx->r->closing = 0;
         /* This assertion triggers when coroutine tries to close a bundle that
            it is part of. There's no sane way to handle that so let's just
            crash the process. */
diff --git a/cr.h b/cr.h
index 627bd72..bd891b4 100644
--- a/cr.h
+++ b/cr.h
@@ -68,6 +68,9 @@ struct dill_cr {
     unsigned int done : 1;
     /* If true, the coroutine was launched with go_mem. */
     unsigned int mem : 1;
+    /* Set while the coroutine is waiting for another coroutine to finish, i.e.
+       it is blocked inside of hclose(). Such wait can't be canceled. */
+    unsigned int closing : 1;
     /* When the coroutine handle is being closed, this points to the
        coroutine that is doing the hclose() call. */
     struct dill_cr *closer;
-- 
2.43.0


From 0decdd3250f70d5b9896bf7460c323f2f9b02ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 03/90] fix: bundle_mem(NULL) didn't set errno

---
 cr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cr.c b/cr.c
index 715c827..90bdc7e 100644
--- a/cr.c
+++ b/cr.c
@@ -86,8 +86,7 @@ DILL_CT_ASSERT(sizeof(struct dill_bundle_storage) >=
     sizeof(struct dill_bundle));
 
 int dill_bundle_mem(struct dill_bundle_storage *mem) {
-    int err;
-    if(dill_slow(!mem)) {err = EINVAL; return -1;}
+    if(dill_slow(!mem)) {errno = EINVAL; return -1;}
     struct dill_bundle *b = (struct dill_bundle*)mem;
     b->vfs.query = dill_bundle_query;
     b->vfs.close = dill_bundle_close;
-- 
2.43.0


From 6449f09cd92a2da2f13f36b3c6d7d6233b16b54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 04/90] fix: bundle_wait crashed, or was forgotten, when it met
 its deadline, another waiter or hclose

---
 cr.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/cr.c b/cr.c
index 90bdc7e..19cb6a9 100644
--- a/cr.c
+++ b/cr.c
@@ -75,9 +75,9 @@ struct dill_bundle {
     struct dill_hvfs vfs;
     /* List of coroutines in this bundle. */
     struct dill_list crs;
-    /* If somebody is doing hdone() on this bundle, here's the clause
-       to trigger when all coroutines are finished. */
-    struct dill_clause *waiter;
+    /* List of bundle_wait() calls in progress, i.e. the clauses to trigger
+       when all coroutines are finished. */
+    struct dill_list waiters;
     /* If true, the bundle was created by bundle_mem. */
     unsigned int mem : 1;
 };
@@ -85,13 +85,20 @@ struct dill_bundle {
 DILL_CT_ASSERT(sizeof(struct dill_bundle_storage) >=
     sizeof(struct dill_bundle));
 
+/* One bundle_wait() call in progress. */
+struct dill_bundleclause {
+    struct dill_clause cl;
+    /* An item in dill_bundle::waiters list. */
+    struct dill_list item;
+};
+
 int dill_bundle_mem(struct dill_bundle_storage *mem) {
     if(dill_slow(!mem)) {errno = EINVAL; return -1;}
     struct dill_bundle *b = (struct dill_bundle*)mem;
     b->vfs.query = dill_bundle_query;
     b->vfs.close = dill_bundle_close;
     dill_list_init(&b->crs);
-    b->waiter = NULL;
+    dill_list_init(&b->waiters);
     b->mem = 1;
     return dill_hmake(&b->vfs);
 }
@@ -117,6 +124,20 @@ static void *dill_bundle_query(struct dill_hvfs *vfs, const void *type) {
     return NULL;
 }
 
+/* Unblock everyone waiting for the coroutines in the bundle to finish. */
+static void dill_bundle_unblock(struct dill_bundle *self) {
+    while(!dill_list_empty(&self->waiters)) {
+        struct dill_bundleclause *bcl = dill_cont(
+            dill_list_next(&self->waiters), struct dill_bundleclause, item);
+        dill_trigger(&bcl->cl, 0);
+    }
+}
+
+static void dill_bundle_cancel(struct dill_clause *cl) {
+    struct dill_bundleclause *bcl = dill_cont(cl, struct dill_bundleclause, cl);
+    dill_list_erase(&bcl->item);
+}
+
 static void dill_bundle_close(struct dill_hvfs *vfs) {
     struct dill_bundle *self = (struct dill_bundle*)vfs;
     struct dill_list *it = &self->crs;
@@ -124,6 +145,7 @@ static void dill_bundle_close(struct dill_hvfs *vfs) {
         struct dill_cr *cr = dill_cont(it, struct dill_cr, bundle);
         dill_cr_close(&cr->vfs);
     }
+    dill_bundle_unblock(self);
     if(!self->mem) free(self);
 }
 
@@ -135,13 +157,12 @@ int dill_bundle_wait(int h, int64_t deadline) {
     /* If there are no coroutines in the bundle succeed immediately. */
     if(dill_list_empty(&self->crs)) return 0;
     /* Otherwise wait for all coroutines to finish. */
-    struct dill_clause cl;
-    self->waiter = &cl;
-    dill_waitfor(&cl, 0, NULL);
+    struct dill_bundleclause bcl;
+    dill_list_insert(&bcl.item, &self->waiters);
+    dill_waitfor(&bcl.cl, 0, dill_bundle_cancel);
     struct dill_tmclause tmcl;
     dill_timer(&tmcl, 1, deadline);
     int id = dill_wait();
-    self->waiter = NULL;
     if(dill_slow(id < 0)) return -1;
     if(dill_slow(id == 1)) {errno = ETIMEDOUT; return -1;}
     dill_assert(id == 0);
@@ -358,7 +379,7 @@ void dill_epilogue(void) {
         if(dill_list_oneitem(&ctx->r->bundle)) {
             struct dill_bundle *b = dill_cont(ctx->r->bundle.next,
                 struct dill_bundle, crs);
-            if(b->waiter) dill_trigger(b->waiter, 0);
+            dill_bundle_unblock(b);
         }
         dill_list_erase(&ctx->r->bundle);
         dill_cr_close(&ctx->r->vfs);
-- 
2.43.0


From 66bc136abad8de35fc28c7562559c4db3386fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 05/90] fix: growing the handle table lost the free handles, so
 that numbers were reissued at once

---
 handle.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/handle.c b/handle.c
index 3d658ca..48cac3b 100644
--- a/handle.c
+++ b/handle.c
@@ -88,7 +88,8 @@ int dill_hmake(struct dill_hvfs *vfs) {
         for(i = ctx->nhandles; i != sz - 1; ++i)
             hndls[i].next = i + 1;
         hndls[sz - 1].next = -1;
-        ctx->first = ctx->nhandles;
+        if(ctx->first == -1) ctx->first = ctx->nhandles;
+        else hndls[ctx->last].next = ctx->nhandles;
         ctx->last = sz - 1; 
         /* Adjust the array. */
         ctx->handles = hndls;
-- 
2.43.0


From e24ff9691e07661305b98ea01842ee9a34b2c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 06/90] fix: hclose used freed memory when the handle table
 grew while the object was being closed

---
 handle.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/handle.c b/handle.c
index 48cac3b..1189893 100644
--- a/handle.c
+++ b/handle.c
@@ -156,6 +156,9 @@ int dill_hclose(int h) {
     hndl->vfs->close(hndl->vfs);
     /* Restore the previous state. */
     dill_no_blocking(old);
+    /* The close function may have run other coroutines. If they have made the
+       handle array grow the pointer has to be recomputed. */
+    hndl = &ctx->handles[h];
     /* Mark the cache as invalid. */
     hndl->ptr = NULL;
     /* Return a handle to the shared pool. */
-- 
2.43.0


From 2edbbd5d7d185bd21adcf4bf48256490ad9a27a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 07/90] fix: fdclean accessed memory out of bounds when the
 number was not a valid file descriptor

---
 epoll.c.inc  | 2 ++
 kqueue.c.inc | 2 ++
 poll.c.inc   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/epoll.c.inc b/epoll.c.inc
index c925125..11d0dfe 100644
--- a/epoll.c.inc
+++ b/epoll.c.inc
@@ -175,6 +175,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    /* Nothing is ever known about numbers that can't be waited for. */
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     /* We cannot clean an fd that someone is waiting for. */
diff --git a/kqueue.c.inc b/kqueue.c.inc
index 92a0674..f1236e0 100644
--- a/kqueue.c.inc
+++ b/kqueue.c.inc
@@ -172,6 +172,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    /* Nothing is ever known about numbers that can't be waited for. */
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     /* We cannot clean an fd that someone is waiting for. */
diff --git a/poll.c.inc b/poll.c.inc
index a575799..7f2d344 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -166,6 +166,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    /* Nothing is ever known about numbers that can't be waited for. */
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     if(dill_slow(fdi->in || fdi->out)) {errno = EBUSY; return -1;}
-- 
2.43.0


From 56d56d33b8989992f99fd1f6e0e83d408424eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 08/90] fix: poll(): stale and unwanted events crashed the
 scheduler

---
 poll.c.inc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/poll.c.inc b/poll.c.inc
index 7f2d344..1afed7c 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -132,6 +132,7 @@ int dill_pollset_in(struct dill_fdclause *fdcl, int id, int fd) {
         fdi->idx = ctx->pollset_size;
         ++ctx->pollset_size;
         ctx->pollset[fdi->idx].fd = fd;
+        ctx->pollset[fdi->idx].events = 0;
     }
     if(dill_slow(fdi->in)) {errno = EBUSY; return -1;}
     ctx->pollset[fdi->idx].events |= POLLIN;
@@ -155,6 +156,7 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
         fdi->idx = ctx->pollset_size;
         ++ctx->pollset_size;
         ctx->pollset[fdi->idx].fd = fd;
+        ctx->pollset[fdi->idx].events = 0;
     }
     if(dill_slow(fdi->out)) {errno = EBUSY; return -1;}
     ctx->pollset[fdi->idx].events |= POLLOUT;
@@ -193,6 +195,7 @@ int dill_pollset_poll(int timeout) {
     if(numevs < 0 && errno == EINTR) return -1;
     dill_assert(numevs >= 0);
     /* Fire file descriptor events as needed. */
+    int fired = 0;
     int i;
     for(i = 0; i != ctx->pollset_size; ++i) {
         struct pollfd *pfd = &ctx->pollset[i];
@@ -202,11 +205,13 @@ int dill_pollset_poll(int timeout) {
               pfd->revents & (POLLIN | POLLERR | POLLHUP | POLLNVAL)) {
             pfd->events &= ~POLLIN;
             dill_trigger(&fdi->in->cl, 0);
+            fired = 1;
         }
         if(fdi->out && 
               pfd->revents & (POLLOUT | POLLERR | POLLHUP | POLLNVAL)) {
             pfd->events &= ~POLLOUT;
             dill_trigger(&fdi->out->cl, 0);
+            fired = 1;
         }
         /* If nobody is polling for the fd remove it from the pollset. */
         if(!pfd->events) {
@@ -224,6 +229,7 @@ int dill_pollset_poll(int timeout) {
             --i;
         }
     }
-    return numevs > 0;
+    /* Events on descriptors that nobody is waiting for any more don't count. */
+    return fired;
 }
 
-- 
2.43.0


From 2e4dbd06ccccf5a599b56bc3dd34c60fc539513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 09/90] fix: brecvl ignored errors when skipping bytes of a
 large message

---
 fd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fd.c b/fd.c
index 92e9388..67bde4e 100644
--- a/fd.c
+++ b/fd.c
@@ -328,6 +328,7 @@ int dill_fd_recv(int s, struct dill_fd_rxbuf *rxbuf, struct dill_iolist *first,
                 /* Skip specified number of bytes. */
                 dill_assert(it == begin);
                 int rc = dill_fd_skip(s, it->iol_len, deadline);
+                if(dill_slow(rc < 0)) return -1;
                 goto next;
             }
             if(it == end || !it->iol_next->iol_base || !it->iol_next->iol_len) {
-- 
2.43.0


From 17ad220e64a41c8cb60b4eeee8a34e788e54912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 10/90] fix: tcp_close and ipc_close missed the deadline while
 the peer kept sending

---
 fd.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fd.c b/fd.c
index 67bde4e..12c9315 100644
--- a/fd.c
+++ b/fd.c
@@ -250,7 +250,16 @@ static int dill_fd_recv_(int s, struct dill_iolist *first,
 /* Skip len bytes. If len is negative skip until error occurs. */
 static int dill_fd_skip(int s, ssize_t len, int64_t deadline) {
     uint8_t buf[512];
+    int64_t limit = 0;
+    if(len < 0 && deadline >= 0) {
+        limit = dill_now();
+        if(limit < deadline) limit = deadline;
+    }
     while(len) {
+        /* If there's always data to read, we would never get to waiting
+           for more and thus to checking the deadline. */
+        if(dill_slow(len < 0 && deadline >= 0 && dill_now() > limit)) {
+            errno = ETIMEDOUT; return -1;}
         size_t to_recv = len < 0 || len > sizeof(buf) ? sizeof(buf) : len;
         struct dill_iolist iol = {buf, to_recv, NULL, 0};
         int rc = dill_fd_recv_(s, &iol, &iol, deadline);
-- 
2.43.0


From 464f2af9f3328d69fef63b75772953ab173bf768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 11/90] fix: bsendl and brecvl failed with EMSGSIZE or overflew
 the stack if the list was long

---
 fd.c | 62 +++++++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/fd.c b/fd.c
index 12c9315..9b4e88a 100644
--- a/fd.c
+++ b/fd.c
@@ -34,6 +34,7 @@
 
 #define DILL_FD_CACHESIZE 32
 #define DILL_FD_BUFSIZE 1984
+#define DILL_FD_MAXIOV 128
 
 #if defined MSG_NOSIGNAL
 #define FD_NOSIGNAL MSG_NOSIGNAL
@@ -148,16 +149,21 @@ int dill_fd_accept(int s, struct sockaddr *addr, socklen_t *addrlen,
     return as;
 }
 
-int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
+/* Fills in at most DILL_FD_MAXIOV iovecs (kernel refuses long arrays and
+   coroutine's stack is small) and moves to the first unused iolist item. */
+static size_t dill_fd_iov(struct dill_iolist **first, struct iovec *iov) {
+    size_t niov = 0;
+    while(*first && niov < DILL_FD_MAXIOV) {
+        iov[niov].iov_base = (*first)->iol_base;
+        iov[niov].iov_len = (*first)->iol_len;
+        niov++;
+        *first = (*first)->iol_next;
+    }
+    return niov;
+}
+
+static int dill_fd_sendiov(int s, struct iovec *iov, size_t niov,
       int64_t deadline) {
-    /* Make a local iovec array. */
-    /* TODO: This is dangerous, it may cause stack overflow.
-       There should probably be a on-heap per-socket buffer for that. */
-    size_t niov;
-    int rc = dill_iolcheck(first, last, &niov, NULL);
-    if(dill_slow(rc < 0)) return -1;
-    struct iovec iov[niov];
-    dill_ioltoiov(first, iov);
     /* Message header will act as an iterator in the following loop. */
     struct msghdr hdr;
     memset(&hdr, 0, sizeof(hdr));
@@ -201,17 +207,21 @@ int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
     }
 }
 
-/* Same as dill_fd_recv() but with no rx buffering. */
-static int dill_fd_recv_(int s, struct dill_iolist *first,
-      struct dill_iolist *last, int64_t deadline) {
-    /* Make a local iovec array. */
-    /* TODO: This is dangerous, it may cause stack overflow.
-       There should probably be a on-heap per-socket buffer for that. */
-    size_t niov;
-    int rc = dill_iolcheck(first, last, &niov, NULL);
+int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
+      int64_t deadline) {
+    int rc = dill_iolcheck(first, last, NULL, NULL);
     if(dill_slow(rc < 0)) return -1;
-    struct iovec iov[niov];
-    dill_ioltoiov(first, iov);
+    struct iovec iov[DILL_FD_MAXIOV];
+    while(first) {
+        size_t niov = dill_fd_iov(&first, iov);
+        rc = dill_fd_sendiov(s, iov, niov, deadline);
+        if(dill_slow(rc < 0)) return -1;
+    }
+    return 0;
+}
+
+static int dill_fd_recviov(int s, struct iovec *iov, size_t niov,
+      int64_t deadline) {
     /* Message header will act as an iterator in the following loop. */
     struct msghdr hdr;
     memset(&hdr, 0, sizeof(hdr));
@@ -247,6 +257,20 @@ static int dill_fd_recv_(int s, struct dill_iolist *first,
     }
 }
 
+/* Same as dill_fd_recv() but with no rx buffering. */
+static int dill_fd_recv_(int s, struct dill_iolist *first,
+      struct dill_iolist *last, int64_t deadline) {
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
+    struct iovec iov[DILL_FD_MAXIOV];
+    while(first) {
+        size_t niov = dill_fd_iov(&first, iov);
+        rc = dill_fd_recviov(s, iov, niov, deadline);
+        if(dill_slow(rc < 0)) return -1;
+    }
+    return 0;
+}
+
 /* Skip len bytes. If len is negative skip until error occurs. */
 static int dill_fd_skip(int s, ssize_t len, int64_t deadline) {
     uint8_t buf[512];
-- 
2.43.0


From 2eef30048df01176cbd8a59448d03ef82cd6b2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 12/90] fix: malformed iolist was left marked when refused

---
 iol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iol.c b/iol.c
index c1d4d12..a69d0ac 100644
--- a/iol.c
+++ b/iol.c
@@ -51,7 +51,7 @@ int dill_iolcheck(struct iolist *first, struct iolist *last,
     return 0;
 error:;
     struct iolist *it2;
-    for(it2 = first; it2 != it; it2 = it2->iol_next) it->iol_rsvd = 0;
+    for(it2 = first; nbf; it2 = it2->iol_next, nbf--) it2->iol_rsvd = 0;
     errno = EINVAL;
     return -1;
 }
-- 
2.43.0


From f29f73128ebf09a44476c0bb63255e611108441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 13/90] fix: bsendl, brecvl, msendl and mrecvl now refuse
 malformed iolists up front

---
 bsock.c | 10 ++++++----
 msock.c | 12 ++++++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/bsock.c b/bsock.c
index e659a0d..386b7eb 100644
--- a/bsock.c
+++ b/bsock.c
@@ -27,6 +27,7 @@
 
 #define DILL_DISABLE_RAW_NAMES
 #include "libdillimpl.h"
+#include "iol.h"
 #include "utils.h"
 
 dill_unique_id(dill_bsock_type);
@@ -49,8 +50,9 @@ int dill_bsendl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_bsock_vfs *b = dill_hquery(s, dill_bsock_type);
     if(dill_slow(!b)) return -1;
-    if(dill_slow(!first || !last || last->iol_next)) {
-        errno = EINVAL; return -1;}
+    if(dill_slow(!first)) {errno = EINVAL; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     return b->bsendl(b, first, last, deadline);
 }
 
@@ -58,8 +60,8 @@ int dill_brecvl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_bsock_vfs *b = dill_hquery(s, dill_bsock_type);
     if(dill_slow(!b)) return -1;
-    if(dill_slow((first && !last) || (!first && last) || last->iol_next)) {
-        errno = EINVAL; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     return b->brecvl(b, first, last, deadline);
 }
 
diff --git a/msock.c b/msock.c
index c493bba..6f70af4 100644
--- a/msock.c
+++ b/msock.c
@@ -27,6 +27,7 @@
 
 #define DILL_DISABLE_RAW_NAMES
 #include "libdillimpl.h"
+#include "iol.h"
 #include "utils.h"
 
 dill_unique_id(dill_msock_type);
@@ -49,8 +50,9 @@ int dill_msendl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
     if(dill_slow(!m)) return -1;
-    if(dill_slow(!first || !last || last->iol_next)) {
-        errno = EINVAL; return -1;}
+    if(dill_slow(!first)) {errno = EINVAL; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     return m->msendl(m, first, last, deadline);
 }
 
@@ -58,10 +60,8 @@ ssize_t dill_mrecvl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
     if(dill_slow(!m)) return -1;
-    if(dill_slow((last && last->iol_next) ||
-          (!first && last) ||
-          (first && !last))) {
-        errno = EINVAL; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     return m->mrecvl(m, first, last, deadline);
 }
 
-- 
2.43.0


From bd7f50888c004bf2a1fdc89d6d45acde938697c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 14/90] fix: tcp_close and ipc_close left the handle behind,
 pointing to freed memory

---
 ipc.c | 4 ++--
 tcp.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ipc.c b/ipc.c
index 06d64ab..510b233 100644
--- a/ipc.c
+++ b/ipc.c
@@ -321,10 +321,10 @@ int dill_ipc_close(int s, int64_t deadline) {
     int rc = dill_ipc_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
-    dill_ipc_hclose(&self->hvfs);
+    dill_hclose(s);
     return 0;
 error:
-    dill_ipc_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
diff --git a/tcp.c b/tcp.c
index cdc72c9..e9edc6f 100644
--- a/tcp.c
+++ b/tcp.c
@@ -233,10 +233,10 @@ int dill_tcp_close(int s, int64_t deadline) {
     int rc = dill_tcp_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
-    dill_tcp_hclose(&self->hvfs);
+    dill_hclose(s);
     return 0;
 error:
-    dill_tcp_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
-- 
2.43.0


From d6b860b11c294d1758de532825dddda642a5054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 15/90] fix: tcp_fromfd, ipc_fromfd and listener variants
 leaked the descriptor when out of memory

---
 ipc.c | 12 ++++++++----
 tcp.c | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/ipc.c b/ipc.c
index 510b233..eeb53b9 100644
--- a/ipc.c
+++ b/ipc.c
@@ -106,12 +106,14 @@ int dill_ipc_fromfd_mem(int fd, struct dill_ipc_storage *mem) {
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_ipc_makeconn(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
@@ -399,12 +401,14 @@ int dill_ipc_listener_fromfd_mem(int fd,
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_ipc_makelistener(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
diff --git a/tcp.c b/tcp.c
index e9edc6f..79e6eb0 100644
--- a/tcp.c
+++ b/tcp.c
@@ -100,12 +100,14 @@ int dill_tcp_fromfd_mem(int fd, struct dill_tcp_storage *mem) {
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_tcp_makeconn(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
@@ -311,12 +313,14 @@ int dill_tcp_listener_fromfd_mem(int fd,
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_tcp_makelistener(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
-- 
2.43.0


From 9ca8dc1cbadccb4ec20a0f7777ad41458fc857a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 16/90] fix: ipc_sendfd and ipc_recvfd crashed the process when
 the peer closed the connection

---
 fd.c  |  6 ------
 fd.h  |  6 ++++++
 ipc.c | 38 +++++++++++++++++++++++---------------
 3 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/fd.c b/fd.c
index 9b4e88a..a9fc29b 100644
--- a/fd.c
+++ b/fd.c
@@ -36,12 +36,6 @@
 #define DILL_FD_BUFSIZE 1984
 #define DILL_FD_MAXIOV 128
 
-#if defined MSG_NOSIGNAL
-#define FD_NOSIGNAL MSG_NOSIGNAL
-#else
-#define FD_NOSIGNAL 0
-#endif
-
 int dill_ctx_fd_init(struct dill_ctx_fd *ctx) {
     ctx->count = 0;
     dill_slist_init(&ctx->cache);
diff --git a/fd.h b/fd.h
index 58f65ea..bcef31b 100644
--- a/fd.h
+++ b/fd.h
@@ -41,6 +41,12 @@ struct dill_ctx_fd {
 int dill_ctx_fd_init(struct dill_ctx_fd *ctx);
 void dill_ctx_fd_term(struct dill_ctx_fd *ctx);
 
+#if defined MSG_NOSIGNAL
+#define FD_NOSIGNAL MSG_NOSIGNAL
+#else
+#define FD_NOSIGNAL 0
+#endif
+
 struct dill_fd_rxbuf {
     size_t len;
     size_t pos;
diff --git a/ipc.c b/ipc.c
index eeb53b9..4afb6d5 100644
--- a/ipc.c
+++ b/ipc.c
@@ -234,15 +234,19 @@ int dill_ipc_sendfd(int s, int fd, int64_t deadline) {
     cmsg->cmsg_len = CMSG_LEN(sizeof(fd));
     *((int*)CMSG_DATA(cmsg)) = fd;
     msg.msg_controllen = cmsg->cmsg_len;
-    int rc = dill_fdout(self->fd, deadline);
-    if(dill_slow(rc < 0)) return -1;
-    ssize_t sz = sendmsg(self->fd, &msg, 0);
-    if(dill_slow(sz == 0)) {self->outdone = 1; errno = EPIPE; return -1;}
-    if(dill_slow(sz < 0)) {
-       if(errno == ECONNRESET) {self->outerr = 1; return -1;}
-       dill_assert(0);
+    while(1) {
+        self->sbusy = 1;
+        int rc = dill_fdout(self->fd, deadline);
+        self->sbusy = 0;
+        if(dill_slow(rc < 0)) return -1;
+        ssize_t sz = sendmsg(self->fd, &msg, FD_NOSIGNAL);
+        if(dill_fast(sz > 0)) return 0;
+        dill_assert(sz != 0);
+        if(errno == EWOULDBLOCK || errno == EAGAIN) continue;
+        if(errno == EPIPE || errno == ECONNRESET) {
+            self->outerr = 1; errno = ECONNRESET;}
+        return -1;
     }
-    return 0;
 }
 
 int dill_ipc_recvfd(int s, int64_t deadline) {
@@ -263,13 +267,17 @@ int dill_ipc_recvfd(int s, int64_t deadline) {
     unsigned char control[1024];
     msg.msg_control = control;
     msg.msg_controllen = sizeof(control);
-    int rc = dill_fdin(self->fd, deadline);
-    if(dill_slow(rc < 0)) return -1;
-    ssize_t sz = recvmsg(self->fd, &msg, 0);
-    if(dill_slow(sz == 0)) {self->indone = 1; errno = EPIPE; return -1;}
-    if(dill_slow(sz < 0)) {
-       if(errno == ECONNRESET) {self->outerr = 1; return -1;}
-       dill_assert(0);
+    while(1) {
+        self->rbusy = 1;
+        int rc = dill_fdin(self->fd, deadline);
+        self->rbusy = 0;
+        if(dill_slow(rc < 0)) return -1;
+        ssize_t sz = recvmsg(self->fd, &msg, 0);
+        if(dill_fast(sz > 0)) break;
+        if(dill_slow(sz == 0)) {self->indone = 1; errno = EPIPE; return -1;}
+        if(errno == EWOULDBLOCK || errno == EAGAIN) continue;
+        self->inerr = 1;
+        return -1;
     }
     /* Loop over the auxiliary data to find the embedded file descriptor. */
     int fd = -1;
-- 
2.43.0


From 39ca08e79997830bc086db98f5cbaf86b6ee84ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 17/90] fix: ipc_pair leaked memory, ipc_listen_mem and
 ipc_connect crashed on NULL arguments

---
 ipc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipc.c b/ipc.c
index 4afb6d5..7e238e6 100644
--- a/ipc.c
+++ b/ipc.c
@@ -425,6 +425,7 @@ error1:
 int dill_ipc_listen_mem(const char *addr, int backlog,
       struct dill_ipc_listener_storage *mem) {
     int err;
+    if(dill_slow(!mem)) {err = EINVAL; goto error1;}
     /* Create a UNIX address out of the address string. */
     struct sockaddr_un su;
     int rc = dill_ipc_resolve(addr, &su);
@@ -571,6 +572,7 @@ int dill_ipc_pair(int s[2]) {
     return 0;
 error6:
     rc = dill_hclose(s[0]);
+    free(conn1);
     goto error2;
 error5:
     free(conn1);
@@ -591,6 +593,7 @@ error1:
 
 static int dill_ipc_resolve(const char *addr, struct sockaddr_un *su) {
     dill_assert(su);
+    if(dill_slow(!addr)) {errno = EINVAL; return -1;}
     if(strlen(addr) >= sizeof(su->sun_path)) {errno = ENAMETOOLONG; return -1;}
     su->sun_family = AF_UNIX;
     strncpy(su->sun_path, addr, sizeof(su->sun_path));
-- 
2.43.0


From 0dd41e924cb6ef2baa160ba98c2badd3a3ebb732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 18/90] fix: bsendl waited after all data was sent if the list
 ended with an empty buffer

---
 fd.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fd.c b/fd.c
index a9fc29b..be72040 100644
--- a/fd.c
+++ b/fd.c
@@ -195,6 +195,12 @@ static int dill_fd_sendiov(int s, struct iovec *iov, size_t niov,
             hdr.msg_iovlen--;
             if(!hdr.msg_iovlen) return 0;
         }
+        /* Empty buffers at the end of the list are not worth waiting for. */
+        while(hdr.msg_iovlen && !hdr.msg_iov[0].iov_len) {
+            hdr.msg_iov++;
+            hdr.msg_iovlen--;
+        }
+        if(!hdr.msg_iovlen) return 0;
         /* Wait till more data can be sent. */
         int rc = dill_fdout(s, deadline);
         if(dill_slow(rc < 0)) return -1;
-- 
2.43.0


From 0f30583574d23c27b192c8dbfb2cf9e29b0a714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:25 +0000
Subject: [PATCH 19/90] fix: PREFIX passed a list that doesn't end with its
 last item when the message was shorter than the list

---
 prefix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prefix.c b/prefix.c
index 1746872..8095097 100644
--- a/prefix.c
+++ b/prefix.c
@@ -180,7 +180,7 @@ static ssize_t dill_prefix_mrecvl(struct dill_msock_vfs *mvfs,
     struct dill_iolist *old_next = it->iol_next;
     it->iol_len = rmn;
     it->iol_next = NULL;
-    rc = dill_brecvl(self->u, first, last, deadline);
+    rc = dill_brecvl(self->u, first, it, deadline);
     /* Get iolist to its original state. */
     it->iol_len = old_len;
     it->iol_next = old_next;
-- 
2.43.0


From c3b9b53794a1cd837d37ba6d43123e1191002729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:25 +0000
Subject: [PATCH 20/90] fix: PREFIX sent a truncated size if the message was
 too long for the header

---
 prefix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prefix.c b/prefix.c
index 8095097..9928973 100644
--- a/prefix.c
+++ b/prefix.c
@@ -140,6 +140,8 @@ static int dill_prefix_msendl(struct dill_msock_vfs *mvfs,
         szbuf[self->bigendian ? (self->hdrlen - i - 1) : i] = sz & 0xff;
         sz >>= 8;
     }
+    /* The size doesn't fit into the header. */
+    if(dill_slow(sz)) {errno = EMSGSIZE; return -1;}
     struct dill_iolist hdr = {szbuf, sizeof(szbuf), first, 0};
     int rc = dill_bsendl(self->u, &hdr, last, deadline);
     if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
-- 
2.43.0


From fe98a5ea5a14c7dd4d2448e123da3f55fb9f9da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 21/90] fix: SUFFIX lost the part of the message that didn't
 fit into the first buffer and crashed when dropping one

---
 suffix.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/suffix.c b/suffix.c
index 1dce9e8..ce8e602 100644
--- a/suffix.c
+++ b/suffix.c
@@ -156,21 +156,22 @@ static ssize_t dill_suffix_mrecvl(struct dill_msock_vfs *mvfs,
     iol.iol_base = self->buf + self->suffixlen - 1;
     iol.iol_len = 1;
     size_t sz = 0;
-    struct dill_iolist it = *first;
+    struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
+    if(first) it = *first;
     while(1) {
         /* Check for suffix. */
         if(memcmp(self->buf, self->suffix, self->suffixlen) == 0) break;
         /* Ignore empty iolist items. */
-        while(first->iol_len == 0) {
+        while(it.iol_len == 0) {
             if(!it.iol_next) {self->inerr = 1; errno = EMSGSIZE; return -1;}
             it = *it.iol_next;
         }
         /* Move one character to the user's iolist. */
-        if(it.iol_base && it.iol_len > 0) {
+        if(it.iol_base) {
             ((uint8_t*)it.iol_base)[0] = self->buf[0];
             it.iol_base = ((uint8_t*)it.iol_base) + 1;
-            it.iol_len--;
         }
+        it.iol_len--;
         /* Read new character into the temporary buffer. */
         memmove(self->buf, self->buf + 1, self->suffixlen - 1);
         rc = self->uvfs->brecvl(self->uvfs, &iol, &iol, deadline);
-- 
2.43.0


From 95f66cd60481e1b4af950840671d857f0eea6b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 22/90] fix: term_attach overran its storage if the terminator
 was longer than 32 bytes

---
 term.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/term.c b/term.c
index 5c91677..a34523e 100644
--- a/term.c
+++ b/term.c
@@ -67,7 +67,7 @@ static void *dill_term_hquery(struct dill_hvfs *hvfs, const void *type) {
 int dill_term_attach_mem(int s, const void *buf, size_t len,
       struct dill_term_storage *mem) {
     int err;
-    if(dill_slow(!mem && len > DILL_MAX_TERMINATOR_LENGTH)) {
+    if(dill_slow(!mem || len > DILL_MAX_TERMINATOR_LENGTH)) {
         err = EINVAL; goto error;}
     if(dill_slow(len > 0 && !buf)) {err = EINVAL; goto error;}
     /* Take ownership of the underlying socket. */
-- 
2.43.0


From 3f6c0bef9202cfad8d0427d2fa100ae998170d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 23/90] fix: TERM delivered garbage or overran the buffer if
 the message or the buffer was shorter than the terminator

---
 term.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/term.c b/term.c
index a34523e..c8248ed 100644
--- a/term.c
+++ b/term.c
@@ -174,11 +174,16 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
         }
         return sz;
     }
+    /* If there's no list the message is dropped. */
+    struct dill_iolist drop = {NULL, SIZE_MAX, NULL, 0};
+    if(!first) first = last = &drop;
     struct dill_iolist trimmed = {0};
     int rc = dill_ioltrim(first, self->len, &trimmed);
     uint8_t buf[self->len];
     struct dill_iolist iol = {buf, self->len, rc < 0 ? NULL : &trimmed, 0}; 
-    ssize_t sz = dill_mrecvl(self->u, &iol, rc < 0 ? &iol : last, deadline);
+    if(rc < 0) last = &iol;
+    else if(!trimmed.iol_next) last = &trimmed;
+    ssize_t sz = dill_mrecvl(self->u, &iol, last, deadline);
     if(dill_slow(sz < 0)) return -1;
     if(dill_slow(sz == self->len &&
           dill_slow(memcmp(self->buf, buf, self->len) == 0))) {
@@ -186,7 +191,8 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
         errno = EPIPE;
         return -1;
     }
-    dill_iolto(buf, self->len, first);
+    rc = dill_iolto(buf, sz < self->len ? sz : self->len, first);
+    if(dill_slow(rc < 0)) {errno = EMSGSIZE; return -1;}
     return sz;
 }
 
-- 
2.43.0


From 53a40777f8d6205ec8b674f973d7b7a5f41bdec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 24/90] fix: TERM sent and received messages even after the
 terminal message

---
 term.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/term.c b/term.c
index c8248ed..36148de 100644
--- a/term.c
+++ b/term.c
@@ -157,6 +157,7 @@ error:;
 static int dill_term_msendl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_term_sock *self = dill_cont(mvfs, struct dill_term_sock, mvfs);
+    if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     /* TODO: Check that it's not the terminal message. */
     return dill_msendl(self->u, first, last, deadline);
 }
@@ -164,6 +165,7 @@ static int dill_term_msendl(struct dill_msock_vfs *mvfs,
 static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_term_sock *self = dill_cont(mvfs, struct dill_term_sock, mvfs);
+    if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(self->len == 0) {
         ssize_t sz = dill_mrecvl(self->u, first, last, deadline);
         if(dill_slow(sz < 0)) return -1;
-- 
2.43.0


From d9e6a5cd6f21b643ff0f2069981178c8154e2adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 25/90] fix: prefix_detach, suffix_detach and term_detach left
 the handle behind, pointing to freed memory

---
 prefix.c | 4 +++-
 suffix.c | 4 +++-
 term.c   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/prefix.c b/prefix.c
index 9928973..cd589d3 100644
--- a/prefix.c
+++ b/prefix.c
@@ -116,8 +116,10 @@ int dill_prefix_detach(int s) {
     struct dill_prefix_sock *self = dill_hquery(s, dill_prefix_type);
     if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
+    /* Close the socket, but keep the underlying one. */
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    dill_hclose(s);
     return u;
 error:
     if(s >= 0) dill_hclose(s);
diff --git a/suffix.c b/suffix.c
index ce8e602..f2003e6 100644
--- a/suffix.c
+++ b/suffix.c
@@ -120,8 +120,10 @@ int dill_suffix_detach(int s, int64_t deadline) {
     struct dill_suffix_sock *self = dill_hquery(s, dill_suffix_type);
     if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
+    /* Close the socket, but keep the underlying one. */
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    dill_hclose(s);
     return u;
 error:
     if(s >= 0) dill_hclose(s);
diff --git a/term.c b/term.c
index 36148de..045d9d9 100644
--- a/term.c
+++ b/term.c
@@ -144,8 +144,10 @@ int dill_term_detach(int s, int64_t deadline) {
             }
         }
     }
+    /* Close the socket, but keep the underlying one. */
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    dill_hclose(s);
     return u;
 error:;
     int rc = dill_hclose(s);
-- 
2.43.0


From 4431738716855fe1d79263ce62f8633b9465661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 26/90] fix: term_detach succeeded without the peer's terminal
 message

If the underlying socket reported end of stream (EPIPE) the peers have not
agreed on their position in the message stream.
---
 term.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/term.c b/term.c
index 045d9d9..c802d1f 100644
--- a/term.c
+++ b/term.c
@@ -138,7 +138,7 @@ int dill_term_detach(int s, int64_t deadline) {
             struct dill_iolist iol = {NULL, SIZE_MAX, NULL, 0};
             ssize_t sz = dill_term_mrecvl(&self->mvfs, &iol, &iol, deadline);
             if(sz < 0) {
-                if(errno == EPIPE) break;
+                if(self->indone) break;
                 err = errno;
                 goto error;
             }
-- 
2.43.0


From bd7dc3d3b67a248be8a9967699e1ad520cd2cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 27/90] fix: http_detach left the handle behind, pointing to
 freed memory

---
 http.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/http.c b/http.c
index 8dcb106..303d56c 100644
--- a/http.c
+++ b/http.c
@@ -117,7 +117,9 @@ int dill_http_detach(int s, int64_t deadline) {
     u = dill_suffix_detach(u, deadline);
     if(dill_slow(u < 0)) {err = errno; goto error;}
 error:
-    if(!obj->mem) free(obj);
+    /* The underlying socket is either detached or closed by now. */
+    obj->u = -1;
+    dill_hclose(s);
     errno = err;
     return u;
 }
-- 
2.43.0


From bb76dd9bf2f8de8b8302d3e0fa60c140dc72d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 28/90] fix: http_attach to a socket that's not a bytestream
 fails with EPROTO

As documented, and as the other protocols do.
---
 http.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http.c b/http.c
index 303d56c..cbc20bd 100644
--- a/http.c
+++ b/http.c
@@ -62,7 +62,8 @@ int dill_http_attach_mem(int s, struct dill_http_storage *mem) {
     struct dill_http_sock *obj = (struct dill_http_sock*)mem;
     if(dill_slow(!mem)) {err = EINVAL; goto error;}
     /* Check whether underlying socket is a bytestream. */
-    if(dill_slow(!dill_hquery(s, dill_bsock_type))) {err = errno; goto error;}
+    if(dill_slow(!dill_hquery(s, dill_bsock_type))) {
+        err = errno == ENOTSUP ? EPROTO : errno; goto error;}
     /* Take the ownership of the underlying socket. */
     s = dill_hown(s);
     if(dill_slow(s < 0)) {err = errno; goto error;}
-- 
2.43.0


From 4301cf9a3d4720b63184c06d01602192febbbbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 29/90] fix: http_recvrequest and http_recvstatus accepted any
 protocol version

Only a string that neither had the right length nor the right content was
refused.
---
 http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http.c b/http.c
index cbc20bd..900ba7b 100644
--- a/http.c
+++ b/http.c
@@ -180,7 +180,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     /* Protocol. */
     start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
-    if(dill_slow(pos - start != 8 &&
+    if(dill_slow(pos - start != 8 ||
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -229,7 +229,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
     size_t start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start != 8 &&
+    if(dill_slow(pos - start != 8 ||
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
-- 
2.43.0


From 8c8470b13db81009c5be0950735aed28ec902468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 30/90] fix: HTTP receive functions overran buffers of zero
 length

---
 http.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/http.c b/http.c
index 900ba7b..90d647d 100644
--- a/http.c
+++ b/http.c
@@ -165,7 +165,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     size_t start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > commandlen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= commandlen)) {errno = EMSGSIZE; return -1;}
     memcpy(command, obj->rxbuf + start, pos - start);
     command[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -173,7 +173,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > resourcelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= resourcelen)) {errno = EMSGSIZE; return -1;}
     memcpy(resource, obj->rxbuf + start, pos - start);
     resource[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -247,7 +247,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
         (obj->rxbuf[start + 2] - '0');
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Reason. */
-    if(sz - pos > reasonlen - 1) {errno = EMSGSIZE; return -1;}
+    if(sz - pos >= reasonlen) {errno = EMSGSIZE; return -1;}
     memcpy(reason, obj->rxbuf + pos, sz - pos);
     reason[sz - pos] = 0;
     return status;
@@ -297,7 +297,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
           obj->rxbuf[pos] != ':')
         ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > namelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= namelen)) {errno = EMSGSIZE; return -1;}
     memcpy(name, obj->rxbuf + start, pos - start);
     name[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -307,7 +307,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     /* Value. */
     start = pos;
     pos = dill_rstrip(obj->rxbuf + sz, ' ') - obj->rxbuf;
-    if(dill_slow(pos - start > valuelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= valuelen)) {errno = EMSGSIZE; return -1;}
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
-- 
2.43.0


From 9db0fd76e69c502550e561795a21acdb12c7182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 31/90] fix: HTTP lines containing zero bytes were silently
 truncated when received

Neither NUL nor bare CR or LF are allowed in a line (RFC 7230).
---
 http.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/http.c b/http.c
index 90d647d..01eece3 100644
--- a/http.c
+++ b/http.c
@@ -57,6 +57,19 @@ static void *dill_http_hquery(struct dill_hvfs *hvfs, const void *type) {
     return NULL;
 }
 
+/* Receives one line into rxbuf. Bytes that no HTTP line may contain are
+   refused. */
+static ssize_t dill_http_recvline(struct dill_http_sock *obj,
+      int64_t deadline) {
+    ssize_t sz = dill_mrecv(obj->u, obj->rxbuf, sizeof(obj->rxbuf) - 1,
+        deadline);
+    if(dill_slow(sz < 0)) return -1;
+    if(dill_slow(memchr(obj->rxbuf, 0, sz) || memchr(obj->rxbuf, '\r', sz) ||
+          memchr(obj->rxbuf, '\n', sz))) {errno = EPROTO; return -1;}
+    obj->rxbuf[sz] = 0;
+    return sz;
+}
+
 int dill_http_attach_mem(int s, struct dill_http_storage *mem) {
     int err;
     struct dill_http_sock *obj = (struct dill_http_sock*)mem;
@@ -155,10 +168,8 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
       char *resource, size_t resourcelen, int64_t deadline) {
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
-    ssize_t sz = dill_mrecv(obj->u, obj->rxbuf, sizeof(obj->rxbuf) - 1,
-        deadline);
+    ssize_t sz = dill_http_recvline(obj, deadline);
     if(dill_slow(sz < 0)) return -1;
-    obj->rxbuf[sz] = 0;
     size_t pos = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Command. */
@@ -219,10 +230,8 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
       int64_t deadline) {
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
-    ssize_t sz = dill_mrecv(obj->u, obj->rxbuf, sizeof(obj->rxbuf) - 1,
-        deadline);
+    ssize_t sz = dill_http_recvline(obj, deadline);
     if(dill_slow(sz < 0)) return -1;
-    obj->rxbuf[sz] = 0;
     size_t pos = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Protocol. */
@@ -284,10 +293,8 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
       char *value, size_t valuelen, int64_t deadline) {
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
-    ssize_t sz = dill_mrecv(obj->u, obj->rxbuf, sizeof(obj->rxbuf) - 1,
-        deadline);
+    ssize_t sz = dill_http_recvline(obj, deadline);
     if(dill_slow(sz < 0)) return -1;
-    obj->rxbuf[sz] = 0;
     size_t pos = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Name. */
-- 
2.43.0


From daa94ff6f329c490115d57e22391fd4ee4215bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 32/90] fix: http_recvfield kept trailing blanks and accepted
 empty names

---
 http.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/http.c b/http.c
index 01eece3..243374f 100644
--- a/http.c
+++ b/http.c
@@ -57,6 +57,8 @@ static void *dill_http_hquery(struct dill_hvfs *hvfs, const void *type) {
     return NULL;
 }
 
+static int dill_http_isblank(char c) {return c == ' ' || c == '\t';}
+
 /* Receives one line into rxbuf. Bytes that no HTTP line may contain are
    refused. */
 static ssize_t dill_http_recvline(struct dill_http_sock *obj,
@@ -303,22 +305,22 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
           obj->rxbuf[pos] != ' ' &&
           obj->rxbuf[pos] != ':')
         ++pos;
-    if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
+    if(dill_slow(obj->rxbuf[pos] == 0 || pos == start)) {
+        errno = EPROTO; return -1;}
     if(dill_slow(pos - start >= namelen)) {errno = EMSGSIZE; return -1;}
     memcpy(name, obj->rxbuf + start, pos - start);
     name[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] != ':')) {errno = EPROTO; return -1;}
     ++pos;
-    while(obj->rxbuf[pos] == ' ') ++pos;
+    while(dill_http_isblank(obj->rxbuf[pos])) ++pos;
     /* Value. */
     start = pos;
-    pos = dill_rstrip(obj->rxbuf + sz, ' ') - obj->rxbuf;
+    pos = sz;
+    while(pos > start && dill_http_isblank(obj->rxbuf[pos - 1])) --pos;
     if(dill_slow(pos - start >= valuelen)) {errno = EMSGSIZE; return -1;}
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
-    while(obj->rxbuf[pos] == ' ') ++pos;
-    if(dill_slow(obj->rxbuf[pos] != 0)) {errno = EPROTO; return -1;}
     return 0;
 }
 
-- 
2.43.0


From 94dbb487a334c35ce25818940cde373e2aee3d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 33/90] fix: HTTP send functions wrote control characters and
 empty tokens, aborted on blank values

A CR in any argument, or a LF in the reason or value, allowed to inject
additional header lines; a value made of spaces failed an assertion.
---
 http.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/http.c b/http.c
index 243374f..7928ebb 100644
--- a/http.c
+++ b/http.c
@@ -59,6 +59,21 @@ static void *dill_http_hquery(struct dill_hvfs *hvfs, const void *type) {
 
 static int dill_http_isblank(char c) {return c == ' ' || c == '\t';}
 
+/* Non-empty, without blanks and control characters. */
+static int dill_http_istoken(const char *s) {
+    if(!s || !*s) return 0;
+    for(; *s; ++s) if((unsigned char)*s <= ' ' || *s == 0x7f) return 0;
+    return 1;
+}
+
+/* No control characters except for tabs. */
+static int dill_http_istext(const char *s) {
+    if(!s) return 0;
+    for(; *s; ++s)
+        if(((unsigned char)*s < ' ' && *s != '\t') || *s == 0x7f) return 0;
+    return 1;
+}
+
 /* Receives one line into rxbuf. Bytes that no HTTP line may contain are
    refused. */
 static ssize_t dill_http_recvline(struct dill_http_sock *obj,
@@ -144,8 +159,8 @@ int dill_http_sendrequest(int s, const char *command, const char *resource,
       int64_t deadline) {
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
-    if (strpbrk(command, " \t\n") != NULL) {errno = EINVAL; return -1;}
-    if (strpbrk(resource, " \t\n") != NULL) {errno = EINVAL; return -1;}
+    if(dill_slow(!dill_http_istoken(command) ||
+          !dill_http_istoken(resource))) {errno = EINVAL; return -1;}
     struct dill_iolist iol[4];
     iol[0].iol_base = (void*)command;
     iol[0].iol_len = strlen(command);
@@ -205,6 +220,7 @@ int dill_http_sendstatus(int s, int status, const char *reason, int64_t deadline
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
     if(dill_slow(status < 100 || status > 599)) {errno = EINVAL; return -1;}
+    if(dill_slow(!dill_http_istext(reason))) {errno = EINVAL; return -1;}
     char buf[4];
     buf[0] = (status / 100) + '0';
     status %= 100;
@@ -269,9 +285,15 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
     /* Check whether name contains only valid characters. */
-    if (strpbrk(name, "(),/:;<=>?@[\\]{}\" \t\n") != NULL) {
+    if (!dill_http_istoken(name) ||
+          strpbrk(name, "(),/:;<=>?@[\\]{}\"") != NULL) {
         errno = EINVAL; return -1;}
-    if (strlen(value) == 0) {errno = EPROTO; return -1;}
+    if(dill_slow(!dill_http_istext(value))) {errno = EINVAL; return -1;}
+    const char *start = value;
+    while(dill_http_isblank(*start)) ++start;
+    const char *end = start + strlen(start);
+    while(end > start && dill_http_isblank(end[-1])) --end;
+    if(dill_slow(start == end)) {errno = EPROTO; return -1;}
     struct dill_iolist iol[3];
     iol[0].iol_base = (void*)name;
     iol[0].iol_len = strlen(name);
@@ -281,9 +303,6 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     iol[1].iol_len = 2;
     iol[1].iol_next = &iol[2];
     iol[1].iol_rsvd = 0;
-    const char *start = dill_lstrip(value, ' ');
-    const char *end = dill_rstrip(start, ' ');
-    dill_assert(start < end);
     iol[2].iol_base = (void*)start;
     iol[2].iol_len = end - start;
     iol[2].iol_next = NULL;
-- 
2.43.0


From 6e238e6e8b674ca493524807756266baecf1beed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 34/90] fix: http_recvfield accepted control characters in
 names

---
 http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http.c b/http.c
index 7928ebb..5aa7e6f 100644
--- a/http.c
+++ b/http.c
@@ -324,11 +324,11 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
           obj->rxbuf[pos] != ' ' &&
           obj->rxbuf[pos] != ':')
         ++pos;
-    if(dill_slow(obj->rxbuf[pos] == 0 || pos == start)) {
-        errno = EPROTO; return -1;}
+    if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
     if(dill_slow(pos - start >= namelen)) {errno = EMSGSIZE; return -1;}
     memcpy(name, obj->rxbuf + start, pos - start);
     name[pos - start] = 0;
+    if(dill_slow(!dill_http_istoken(name))) {errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] != ':')) {errno = EPROTO; return -1;}
     ++pos;
-- 
2.43.0


From 0bdf7d75fec6742b099d171388fd0100ead46e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 35/90] fix: WebSocket client overran the header buffer sending
 more than 64 kB

Two bytes of header, eight of length and four of mask are fourteen.
---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 013a516..4f9b9e6 100644
--- a/ws.c
+++ b/ws.c
@@ -324,7 +324,7 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
     size_t len;
     int rc = dill_iolcheck(first, last, NULL, &len);
     if(dill_slow(rc < 0)) return -1;
-    uint8_t buf[12];
+    uint8_t buf[14];
     size_t sz;
     buf[0] = 0x80 | type;
     if(len > 0xffff) {
-- 
2.43.0


From 79f5c046effb5a7495372fc32d0a66324cad0f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 36/90] fix: ws_attach_client leaked the socket if the server
 refused

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 4f9b9e6..c98363c 100644
--- a/ws.c
+++ b/ws.c
@@ -119,7 +119,7 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     char reason[256];
     rc = dill_http_recvstatus(s, reason, sizeof(reason), deadline);
     if(dill_slow(rc < 0)) {err = errno; goto error;}
-    if(dill_slow(rc != 101)) {errno = EPROTO; return -1;}
+    if(dill_slow(rc != 101)) {err = EPROTO; goto error;}
     int has_upgrade = 0;
     int has_connection = 0;
     int has_key = 0;
-- 
2.43.0


From 4b021f2df34b40a9420a85541a20408038965cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 37/90] fix: ws_attach_server accepted requests without Host,
 leaving the output unset

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index c98363c..73537e2 100644
--- a/ws.c
+++ b/ws.c
@@ -271,7 +271,8 @@ int dill_ws_attach_server_mem(int s, int flags,
            continue;
         }
     }
-    if(dill_slow(!has_upgrade || !has_connection || !has_key || !has_version)) {
+    if(dill_slow(!has_host || !has_upgrade || !has_connection || !has_key ||
+          !has_version)) {
         err = EPROTO; goto error;}
 
     /* Send HTTP response back to the client. */
-- 
2.43.0


From 32469cf0a04b8cbe6d25010b6f365499d863c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 38/90] fix: attaching WebSocket to a socket that's not a
 bytestream fails with EPROTO

As documented.
---
 ws.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 73537e2..970acb8 100644
--- a/ws.c
+++ b/ws.c
@@ -69,7 +69,8 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
       const char *host, struct dill_ws_storage *mem, int64_t deadline) {
     int err;
     if(dill_slow(!mem)) {err = EINVAL; goto error;}
-    if(dill_slow(!dill_hquery(s, dill_bsock_type))) {err = errno; goto error;}
+    if(dill_slow(!dill_hquery(s, dill_bsock_type))) {
+        err = errno == ENOTSUP ? EPROTO : errno; goto error;}
     struct dill_ws_sock *self = (struct dill_ws_sock*)mem;
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
@@ -191,7 +192,8 @@ int dill_ws_attach_server_mem(int s, int flags,
       struct dill_ws_storage *mem, int64_t deadline) {
     int err;
     if(dill_slow(!mem)) {err = EINVAL; goto error;}
-    if(dill_slow(!dill_hquery(s, dill_bsock_type))) {err = errno; goto error;}
+    if(dill_slow(!dill_hquery(s, dill_bsock_type))) {
+        err = errno == ENOTSUP ? EPROTO : errno; goto error;}
     struct dill_ws_sock *self = (struct dill_ws_sock*)mem;
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-- 
2.43.0


From 75d0296685f52331424906a87a56f359405a6e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 39/90] fix: ws_sendl wrote a frame header for a NULL list
 before failing

---
 ws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws.c b/ws.c
index 970acb8..08d1244 100644
--- a/ws.c
+++ b/ws.c
@@ -324,6 +324,7 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
+    if(dill_slow(!first)) {errno = EINVAL; return -1;}
     size_t len;
     int rc = dill_iolcheck(first, last, NULL, &len);
     if(dill_slow(rc < 0)) return -1;
-- 
2.43.0


From 42faa7055ade30010a4611b0efdb05dc1d45a888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 40/90] fix: ws_done sent malformed close frames

Messages that make the frame longer than 125 bytes, or without a status.
---
 ws.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ws.c b/ws.c
index 08d1244..ab99135 100644
--- a/ws.c
+++ b/ws.c
@@ -529,6 +529,10 @@ int dill_ws_done(int s, int status, const void *buf, size_t len,
       int64_t deadline) {
     if(dill_slow((status != 0 && (status < 1000 || status > 4999)) ||
         (!buf && len > 0))) {errno = EINVAL; return -1;}
+    /* Control frames are limited to 125 bytes, including the status, and there
+       can be no message without a status. */
+    if(dill_slow(len > 123 || (!status && len > 0))) {
+        errno = EINVAL; return -1;}
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
-- 
2.43.0


From 885544744905113ed49f2d88f132650afe7fef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 41/90] fix: WebSocket receiving of fragmented, masked and
 dropped messages

Each fragment overwrote the previous one, the mask was restarted in each
buffer, messages received without a list, or with NULL buffers on the
server, crashed. Continuation frames without a message and messages within
a message were accepted, a close frame within a message was mistaken for
data, and an incomplete or invalid one was taken for a proper one. After an
error the rest of the broken message was parsed as frames.
---
 ws.c | 77 ++++++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 52 insertions(+), 25 deletions(-)

diff --git a/ws.c b/ws.c
index ab99135..17eb971 100644
--- a/ws.c
+++ b/ws.c
@@ -41,6 +41,7 @@ struct dill_ws_sock {
     int flags;
     unsigned int indone : 1;
     unsigned int outdone: 1;
+    unsigned int inerr : 1;
     unsigned int server : 1;
     unsigned int mem : 1;
     uint16_t status;
@@ -83,6 +84,7 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     self->flags = flags;
     self->indone = 0;
     self->outdone = 0;
+    self->inerr = 0;
     self->server = 0;
     self->mem = 1;
     self->status = 0;
@@ -206,6 +208,7 @@ int dill_ws_attach_server_mem(int s, int flags,
     self->flags = flags;
     self->indone = 0;
     self->outdone = 0;
+    self->inerr = 0;
     self->server = 1;
     self->mem = 1;
     self->status = 0;
@@ -380,99 +383,123 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
+    if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
     int rc = dill_iolcheck(first, last, NULL, NULL);
     if(dill_slow(rc < 0)) return -1;
     size_t res = 0;
-    /* Message may consist of multiple frames. Read them one by one. */
-    struct dill_iolist it;
+    int infragment = 0;
+    uint8_t status[2];
+    /* Message may consist of multiple frames. Read them one by one.
+       If there's no list the message is dropped. */
+    struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
     if(first) it = *first;
+    int opcode;
     while(1) {
         struct dill_iolist iol_msg;
         uint8_t hdr1[2];
         rc = dill_brecv(self->u, hdr1, sizeof(hdr1), deadline);
-        if(dill_slow(rc < 0)) return -1;
-        if(hdr1[0] & 0x70) {errno = EPROTO; return -1;}
-        int opcode = hdr1[0] & 0x0f;
+        if(dill_slow(rc < 0)) goto error;
+        if(hdr1[0] & 0x70) goto eproto;
+        opcode = hdr1[0] & 0x0f;
         /* TODO: Other opcodes. */
         switch(opcode) {
         case 0:
+            if(dill_slow(!infragment)) goto eproto;
             break;
         case 1:
+            if(dill_slow(infragment)) goto eproto;
             if(flags) *flags = DILL_WS_TEXT;
             break;
         case 2:
+            if(dill_slow(infragment)) goto eproto;
             if(flags) *flags = DILL_WS_BINARY;
             break;
         case 8:
-            it.iol_base = &self->status;
-            it.iol_len = 2;
+            /* What was received of an unfinished message is discarded. */
+            res = 0;
+            it.iol_base = status;
+            it.iol_len = sizeof(status);
             it.iol_next = &iol_msg;
             it.iol_rsvd = 0;
             iol_msg.iol_base = self->msg;
             iol_msg.iol_len = sizeof(self->msg);
             iol_msg.iol_next = NULL;
             iol_msg.iol_rsvd = 0;
-            self->indone = 1;
             break;
         default:
-            errno = EPROTO;
-            return -1;
+            goto eproto;
         }
-        if(!self->server ^ !(hdr1[1] & 0x80)) {errno = EPROTO; return -1;}
+        infragment = 1;
+        if(!self->server ^ !(hdr1[1] & 0x80)) goto eproto;
         size_t sz = hdr1[1] & 0x7f;
         if(sz == 126) {
             uint8_t hdr2[2];
             rc = dill_brecv(self->u, hdr2, sizeof(hdr2), deadline);
-            if(dill_slow(rc < 0)) return -1;
+            if(dill_slow(rc < 0)) goto error;
             sz = dill_gets(hdr2);
         }
         else if(sz == 127) {
             uint8_t hdr2[8];
             rc = dill_brecv(self->u, hdr2, sizeof(hdr2), deadline);
-            if(dill_slow(rc < 0)) return -1;
+            if(dill_slow(rc < 0)) goto error;
             sz = dill_getll(hdr2);
+            /* The most significant bit must be zero. */
+            if(dill_slow(hdr2[0] & 0x80)) goto eproto;
         }
         res += sz;
         /* Control frames cannot be fragmented or longer than 125 bytes. */
-        if(dill_slow(opcode >= 8 && (sz > 125 || !(hdr1[0] & 0x80)))) {
-            errno = EPROTO; return -1;}
+        if(dill_slow(opcode >= 8 && (sz > 125 || !(hdr1[0] & 0x80))))
+            goto eproto;
         uint8_t mask[4];
         if(self->server) {
             rc = dill_brecv(self->u, mask, sizeof(mask), deadline);
-            if(dill_slow(rc < 0)) return -1;
+            if(dill_slow(rc < 0)) goto error;
         }
+        size_t pos = 0;
         /* Frame may be read into multiple iolist elements. */
         while(1) {
             size_t toread = sz < it.iol_len ? sz : it.iol_len;
             if(toread > 0) {
                 rc = dill_brecv(self->u, it.iol_base, toread, deadline);
-                if(dill_slow(rc < 0)) return -1;
-                if(self->server) {
+                if(dill_slow(rc < 0)) goto error;
+                if(self->server && it.iol_base) {
                     size_t i;
                     for(i = 0; i != toread; ++i)
-                        ((uint8_t*)it.iol_base)[i] ^= mask[i % 4];
+                        ((uint8_t*)it.iol_base)[i] ^= mask[(pos + i) % 4];
                 }
+                /* The next frame continues where this one ended. */
+                pos += toread;
+                if(it.iol_base)
+                    it.iol_base = ((uint8_t*)it.iol_base) + toread;
+                it.iol_len -= toread;
             }
             sz -= toread;
             if(sz == 0) break;
-            if(dill_slow(!it.iol_next)) {errno = EMSGSIZE; return -1;}
+            if(dill_slow(!it.iol_next)) {errno = EMSGSIZE; goto error;}
             it = *it.iol_next;
         }
         if(hdr1[0] & 0x80) break;
     }
-    if(dill_slow(self->indone)) {
-        if(dill_slow(res == 1)) {errno = EPROTO; return -1;}
+    if(dill_slow(opcode == 8)) {
+        if(dill_slow(res == 1)) goto eproto;
         if(res >= 2) {
-           self->status = dill_gets((uint8_t*)&self->status);
-           if(dill_slow(self->status < 1000 || self->status > 4999)) {
-               errno = EPROTO; return -1;}
+           uint16_t st = dill_gets(status);
+           if(dill_slow(st < 1000 || st > 4999)) goto eproto;
+           self->status = st;
            self->msglen = (uint8_t)res - 2;
         }
         else self->msglen = 0;
+        self->indone = 1;
         errno = EPIPE;
         return -1;
     }
     return res;
+eproto:
+    errno = EPROTO;
+error:
+    /* The position in the stream of frames is lost. */
+    self->inerr = 1;
+    return -1;
 }
 
 int dill_ws_send(int s, int flags, const void *buf, size_t len,
-- 
2.43.0


From 5cd901ffed8be592f9931e9a47bb511805eb0823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 42/90] fix: ws_detach left the handle behind, and the socket
 open on failure

As documented, the socket is closed even in the case of error. End of the
underlying stream is not a terminal handshake.
---
 ws.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/ws.c b/ws.c
index 17eb971..cc6a5fb 100644
--- a/ws.c
+++ b/ws.c
@@ -578,28 +578,38 @@ int dill_ws_detach(int s, int status, const void *buf, size_t len,
       int64_t deadline) {
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
     if(dill_slow(!self)) return -1;
+    int err;
     if(!self->outdone) {
         int rc = dill_ws_done(s, status, buf, len, deadline);
-        if(dill_slow(rc < 0)) return -1;
+        if(dill_slow(rc < 0)) {err = errno; goto error;}
     }
     while(1) {
         struct dill_iolist iol = {NULL, SIZE_MAX, NULL, 0};
         ssize_t sz = dill_ws_recvl_base(&self->mvfs, NULL, &iol, &iol,
             deadline);
         if(sz < 0) {
-             if(errno == EPIPE) break;
-             return -1;
+             if(self->indone) break;
+             err = errno;
+             goto error;
         }
     }
+    /* Close the socket, but keep the underlying one. */
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    dill_hclose(s);
     return u;
+error:
+    dill_hclose(s);
+    errno = err;
+    return -1;
 }
 
 static void dill_ws_hclose(struct dill_hvfs *hvfs) {
     struct dill_ws_sock *self = (struct dill_ws_sock*)hvfs;
-    int rc = dill_hclose(self->u);
-    dill_assert(rc == 0);
+    if(dill_fast(self->u >= 0)) {
+        int rc = dill_hclose(self->u);
+        dill_assert(rc == 0);
+    }
     if(!self->mem) free(self);
 }
 
-- 
2.43.0


From 14b184b59b197baace7a9aa8ee606bba8e2ac08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 43/90] fix: base64 decoding read out of bounds on bytes above
 0x7f

---
 utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils.c b/utils.c
index eb3582d..a663381 100644
--- a/utils.c
+++ b/utils.c
@@ -166,11 +166,11 @@ int dill_base64_decode(const char *in, size_t in_len, uint8_t *out,
         0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF};
 
     for(io = 0, ii = 0, v = 0, rem = 0; ii < in_len; ii++) {
-        if(isspace(in[ii]))
+        if(isspace((unsigned char)in[ii]))
             continue;
         if(in[ii] == '=')
             break;
-        ch = DECODEMAP[(int)(in[ii])];
+        ch = DECODEMAP[(unsigned char)in[ii]];
         /*  Discard invalid characters as per RFC 2045. */
         if(ch == 0xFF)
             break; 
-- 
2.43.0


From 2cfcbce3bfa1df12d319a9d56461410b23f12a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 44/90] fix: SOCKS5 client aborted if the proxy chose a method
 that was not offered

---
 socks5.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/socks5.c b/socks5.c
index a919801..aac908c 100644
--- a/socks5.c
+++ b/socks5.c
@@ -103,8 +103,8 @@ static int s5_client_auth(int s, const char *username, const char *password,
             // proxy accepted NO AUTH REQ'D, so we're done
             return 0;
         case S5METH_USERPASS:
-            dill_assert(!!username);
-            dill_assert(!!password);
+            // the proxy must not choose a method that was not offered
+            if(dill_slow(!username || !password)) {errno = EPROTO; return -1;}
             // USER/PASS AUTH - per RFC 1929
             // max USER, PASS is 255 bytes (plus 3 bytes for VER, ULEN, PLEN)
             uint8_t upauth[513];
@@ -128,9 +128,8 @@ static int s5_client_auth(int s, const char *username, const char *password,
             errno = EACCES; return -1;
         default:
             // something is fishy as the proxy accepted something not requested
-            dill_assert(0);
+            errno = EPROTO; return -1;
     }
-    return -1;
 }
 
 int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
-- 
2.43.0


From 6f2ec48266c895bc98a4eb2ce032c5dc73e6e954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 45/90] fix: SOCKS5 client wrote one byte past the buffer for
 the longest credentials

---
 socks5.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/socks5.c b/socks5.c
index aac908c..b1921bd 100644
--- a/socks5.c
+++ b/socks5.c
@@ -107,7 +107,8 @@ static int s5_client_auth(int s, const char *username, const char *password,
             if(dill_slow(!username || !password)) {errno = EPROTO; return -1;}
             // USER/PASS AUTH - per RFC 1929
             // max USER, PASS is 255 bytes (plus 3 bytes for VER, ULEN, PLEN)
-            uint8_t upauth[513];
+            // (plus 1 for terminating null)
+            uint8_t upauth[514];
             // previously range checked, safe to cast to uint8_t
             uint8_t ulen = (uint8_t)strlen(username);
             uint8_t plen = (uint8_t)strlen(password);
-- 
2.43.0


From e1b81aa668a116dec0aa1560468c614c8d894426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 46/90] fix: SOCKS5 client sent requests for a host with an
 empty name

---
 socks5.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/socks5.c b/socks5.c
index b1921bd..6eb76f6 100644
--- a/socks5.c
+++ b/socks5.c
@@ -358,7 +358,8 @@ static int s5_client_connectbyname(int s, const char *hostname, int port, int64_
     if(dill_slow(!dill_hquery(s, dill_bsock_type))) return -1;
     // validate input
     if(dill_slow(!hostname)) {errno = EINVAL; return -1;}
-    if(dill_slow(strlen(hostname) > 255)) {errno = EINVAL; return -1;}
+    if(dill_slow(strlen(hostname) == 0 || strlen(hostname) > 255)) {
+        errno = EINVAL; return -1;}
     if((port <= 0) || (port>65535)) {errno = EINVAL; return -1;}
     // largest possible connect request = 255 chars for name + 7 bytes for
     // VER, CMD, RSV, ATYP, ALEN, PORT[2]
-- 
2.43.0


From 5ff0ffa03b8949b290e0815e7bffea08a1d6b834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 47/90] fix: socks5_proxy_auth did not set errno when the
 client was refused

---
 socks5.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/socks5.c b/socks5.c
index 6eb76f6..32d456e 100644
--- a/socks5.c
+++ b/socks5.c
@@ -203,6 +203,7 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
         resp[1] = S5AUTH_FAIL;
         err = dill_bsend(s, (void *)resp, 2, deadline);
         if(dill_slow(err)) return -1;
+        errno = EACCES;
         return -1;
     }
     // no compatible AUTH (auth fail)
@@ -210,6 +211,7 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
     resp[1] = S5METH_NOMETHOD;
     err = dill_bsend(s, (void *)resp, 2, deadline);
     if(dill_slow(err)) return -1;
+    errno = EACCES;
     return -1;
 accept_noauth:
     // accept NOAUTH, no further auth req'd
-- 
2.43.0


From fc8d7cc6ea1c0e10f1a1e5a10a27381556424f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 48/90] fix: SOCKS5 proxy took credentials and names with
 embedded NULs for shorter ones

---
 socks5.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/socks5.c b/socks5.c
index 32d456e..f8cb710 100644
--- a/socks5.c
+++ b/socks5.c
@@ -193,8 +193,10 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
         authr[3+ulen+plen] = 0x00;
         char *uname = (char *)&authr[2];
         char *passwd = (char *)&authr[3+ulen];
+        // credentials with embedded nulls would be truncated, refuse them
         // attempt to determine source address
-        if((*auth_fn)(uname, passwd)) {
+        if(!memchr(uname, 0, ulen) && !memchr(passwd, 0, plen) &&
+              (*auth_fn)(uname, passwd)) {
             // auth accepted based on uname, passwd, ipaddr
             goto pwauth_success;
         }
@@ -313,6 +315,9 @@ static int s5_recv_command_request_response(int s, uint8_t *conn, int64_t deadli
             // Read string + 2 bytes for port
             err = dill_brecv(s, conn + 5, conn[4] + 2, deadline);
             if(dill_slow(err)) return -1;
+            // name with embedded nulls would be truncated
+            if(dill_slow(memchr(conn + 5, 0, conn[4]))) {
+                errno = EPROTO; return -1;}
             break;
         default:
             errno = EPROTO;
-- 
2.43.0


From 1932bd2eaa2e756c42643ae127fbc3c118475af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 49/90] fix: udp_open reports that the local address can't be
 bound

---
 udp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udp.c b/udp.c
index c3bda63..bc7b22c 100644
--- a/udp.c
+++ b/udp.c
@@ -82,7 +82,7 @@ int dill_udp_open_mem(struct dill_ipaddr *local,
     /* Start listening. */
     if(local) {
         rc = bind(s, dill_ipaddr_sockaddr(local), dill_ipaddr_len(local));
-        if(s < 0) {err = errno; goto error2;}
+        if(dill_slow(rc < 0)) {err = errno; goto error2;}
         /* Get the ephemeral port number. */
         if(dill_ipaddr_port(local) == 0) {
             struct dill_ipaddr baddr;
-- 
2.43.0


From e1475ccef1339f885c4221980c551fc9fec79026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 50/90] fix: udp_send and udp_recv refuse handles other than
 UDP sockets

---
 udp.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/udp.c b/udp.c
index bc7b22c..a483829 100644
--- a/udp.c
+++ b/udp.c
@@ -200,32 +200,32 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
 
 int dill_udp_send(int s, const struct dill_ipaddr *addr,
       const void *buf, size_t len) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
     struct dill_iolist iol = {(void*)buf, len, NULL, 0};
-    return dill_udp_sendl_(m, addr, &iol, &iol);
+    return dill_udp_sendl_(&obj->mvfs, addr, &iol, &iol);
 }
 
 ssize_t dill_udp_recv(int s, struct dill_ipaddr *addr, void *buf, size_t len,
       int64_t deadline) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
     struct dill_iolist iol = {(void*)buf, len, NULL, 0};
-    return dill_udp_recvl_(m, addr, &iol, &iol, deadline);
+    return dill_udp_recvl_(&obj->mvfs, addr, &iol, &iol, deadline);
 }
 
 int dill_udp_sendl(int s, const struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
-    return dill_udp_sendl_(m, addr, first, last);
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
+    return dill_udp_sendl_(&obj->mvfs, addr, first, last);
 }
 
 ssize_t dill_udp_recvl(int s, struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
-    return dill_udp_recvl_(m, addr, first, last, deadline);
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
+    return dill_udp_recvl_(&obj->mvfs, addr, first, last, deadline);
 }
 
 static int dill_udp_msendl(struct dill_msock_vfs *mvfs,
-- 
2.43.0


From 1f6aa3a9b0d30e3e3913cecd3911f4778ca97021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 51/90] fix: a UDP socket can send while another coroutine is
 receiving

---
 udp.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/udp.c b/udp.c
index a483829..593312c 100644
--- a/udp.c
+++ b/udp.c
@@ -133,7 +133,6 @@ static int dill_udp_sendl_(struct dill_msock_vfs *mvfs,
       const struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last) {
     struct dill_udp_sock *obj = dill_cont(mvfs, struct dill_udp_sock, mvfs);
-    if(dill_slow(obj->busy)) {errno = EBUSY; return -1;}
     /* If no destination IP address is provided, fall back to the stored one. */
     const struct dill_ipaddr *dstaddr = addr;
     if(!dstaddr) {
-- 
2.43.0


From 7723c3cfdee7991c4f7fc6f92eeb2ea75ce8e56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 52/90] fix: udp_recv reports EMSGSIZE instead of truncating
 the message

---
 udp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udp.c b/udp.c
index 593312c..3afce5b 100644
--- a/udp.c
+++ b/udp.c
@@ -186,6 +186,9 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
                packets coming from different addresses. */
             if(obj->hasremote && !dill_ipaddr_equal(&raddr, &obj->remote, 0))
                 continue;
+            /* The message doesn't fit into the buffer. */
+            if(dill_slow(hdr.msg_flags & MSG_TRUNC)) {
+                errno = EMSGSIZE; return -1;}
             if(addr) *addr = raddr;
             return sz;
         }
-- 
2.43.0


From 26a042e59a91bb7c0f2b24fb75ae2771ec02773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 53/90] fix: udp_recvl can skip bytes and drop messages

---
 udp.c | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/udp.c b/udp.c
index 3afce5b..1d0b8df 100644
--- a/udp.c
+++ b/udp.c
@@ -33,6 +33,9 @@
 #include "iol.h"
 #include "utils.h"
 
+/* No UDP message is larger than this. */
+#define DILL_UDP_MAXSIZE 65536
+
 dill_unique_id(dill_udp_type);
 
 static void *dill_udp_hquery(struct dill_hvfs *hvfs, const void *type);
@@ -175,12 +178,29 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
     size_t niov;
     int rc = dill_iolcheck(first, last, &niov, NULL);
     if(dill_slow(rc < 0)) return -1;
-    struct iovec iov[niov];
+    struct iovec iov[niov + 1];
     dill_ioltoiov(first, iov);
+    /* Bytes to be skipped (or the entire message, if there's no list) are
+       stored into a helper buffer. */
+    void *skip = NULL;
+    if(!first) {
+        iov[0].iov_base = NULL;
+        iov[0].iov_len = DILL_UDP_MAXSIZE;
+        niov = 1;
+    }
+    size_t i;
+    for(i = 0; i != niov; ++i) {
+        if(dill_fast(iov[i].iov_base || !iov[i].iov_len)) continue;
+        if(!skip) skip = malloc(DILL_UDP_MAXSIZE);
+        if(dill_slow(!skip)) {errno = ENOMEM; return -1;}
+        iov[i].iov_base = skip;
+        if(iov[i].iov_len > DILL_UDP_MAXSIZE) iov[i].iov_len = DILL_UDP_MAXSIZE;
+    }
     hdr.msg_iov = (struct iovec*)iov;
     hdr.msg_iovlen = niov;
+    ssize_t sz;
     while(1) {
-        ssize_t sz = recvmsg(obj->fd, &hdr, 0);
+        sz = recvmsg(obj->fd, &hdr, 0);
         if(sz >= 0) {
             /* If remote IP address is specified we'll silently drop all
                packets coming from different addresses. */
@@ -188,16 +208,22 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
                 continue;
             /* The message doesn't fit into the buffer. */
             if(dill_slow(hdr.msg_flags & MSG_TRUNC)) {
-                errno = EMSGSIZE; return -1;}
+                errno = EMSGSIZE; sz = -1; break;}
             if(addr) *addr = raddr;
-            return sz;
+            break;
         }
-        if(errno != EAGAIN && errno != EWOULDBLOCK) return -1;
+        if(errno != EAGAIN && errno != EWOULDBLOCK) break;
         obj->busy = 1;
         rc = dill_fdin(obj->fd, deadline);
         obj->busy = 0;
-        if(dill_slow(rc < 0)) return -1;
+        if(dill_slow(rc < 0)) break;
+    }
+    if(dill_slow(skip)) {
+        int err = errno;
+        free(skip);
+        errno = err;
     }
+    return sz;
 }
 
 int dill_udp_send(int s, const struct dill_ipaddr *addr,
-- 
2.43.0


From fb9cfa208ad151e405835f6f85ae82b5914e97cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 54/90] fix: ws_attach_server aborted if the handle was invalid

---
 ws.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ws.c b/ws.c
index cc6a5fb..5382ec8 100644
--- a/ws.c
+++ b/ws.c
@@ -297,10 +297,7 @@ int dill_ws_attach_server_mem(int s, int flags,
     if(dill_slow(h < 0)) {err = errno; goto error;}
     return h;
 error:
-    if(s >= 0) {
-        int rc = dill_hclose(s);
-        dill_assert(rc == 0);
-    }
+    if(s >= 0) dill_hclose(s);
     errno = err;
     return -1;
 }
-- 
2.43.0


From 2f3e57b5f5b3e2436c034db4d815e35a52befd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 55/90] fix: ipaddr_local reports invalid modes and ports

---
 ipaddr.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ipaddr.c b/ipaddr.c
index 005777d..a62af17 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -179,7 +179,22 @@ const char *dill_ipaddr_str(const struct dill_ipaddr *addr, char *ipstr) {
 
 int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
       int mode) {
-    if(mode == 0) mode = DILL_IPADDR_PREF_IPV4;
+    /* Check the arguments. */
+    if(dill_slow(!addr || port < 0 || port > 0xffff)) {
+        errno = EINVAL; return -1;}
+    switch(mode) {
+    case 0:
+        mode = DILL_IPADDR_PREF_IPV4;
+        break;
+    case DILL_IPADDR_IPV4:
+    case DILL_IPADDR_IPV6:
+    case DILL_IPADDR_PREF_IPV4:
+    case DILL_IPADDR_PREF_IPV6:
+        break;
+    default:
+        errno = EINVAL;
+        return -1;
+    }
     memset(addr, 0, sizeof(struct dill_ipaddr));
     if(!name) 
         return dill_ipaddr_ipany(addr, port, mode);
-- 
2.43.0


From 122ac08ec8fc84140d543b728626010b51159ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 56/90] fix: ipaddr_local aborted on interfaces with several
 addresses of a family

---
 ipaddr.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index a62af17..c17c743 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -207,8 +207,7 @@ int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
     /* Address is not a literal. It must be an interface name then. */
     struct ifaddrs *ifaces = NULL;
     rc = getifaddrs (&ifaces);
-    dill_assert (rc == 0);
-    dill_assert (ifaces);
+    if(dill_slow(rc < 0)) return -1;
     /*  Find first IPv4 and first IPv6 address. */
     struct ifaddrs *ipv4 = NULL;
     struct ifaddrs *ipv6 = NULL;
@@ -220,12 +219,10 @@ int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
             continue;
         switch(it->ifa_addr->sa_family) {
         case AF_INET:
-            dill_assert(!ipv4);
-            ipv4 = it;
+            if(!ipv4) ipv4 = it;
             break;
         case AF_INET6:
-            dill_assert(!ipv6);
-            ipv6 = it;
+            if(!ipv6) ipv6 = it;
             break;
         }
         if(ipv4 && ipv6)
-- 
2.43.0


From 38e04e2fb53841e4d1f8a6bfe6996281e924b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 57/90] fix: ipaddr_remotes reports invalid ports

---
 ipaddr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipaddr.c b/ipaddr.c
index c17c743..0b95287 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -279,7 +279,8 @@ int dill_ipaddr_remote(struct dill_ipaddr *addr, const char *name, int port,
 int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
       const char *name, int port, int mode, int64_t deadline) {
     /* Check the arguments. */
-    if(dill_slow(!addrs || naddrs <= 0 || !name)) {errno = EINVAL; return -1;}
+    if(dill_slow(!addrs || naddrs <= 0 || !name ||
+          port < 0 || port > 0xffff)) {errno = EINVAL; return -1;}
     switch(mode) {
     case 0:
         mode = DILL_IPADDR_PREF_IPV4;
-- 
2.43.0


From 39aadc7f862f48dd270832896f5e38562cb6c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 58/90] fix: ipaddr_remotes looked up literals of the other
 family in DNS

---
 ipaddr.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 0b95287..49b67c6 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -294,9 +294,10 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
         errno = EINVAL;
         return -1;
     }
-    /* Name may be a IP address literal. */
+    /* Name may be a IP address literal, possibly of the family that was not
+       asked for. */
     memset(addrs, 0, sizeof(struct dill_ipaddr));
-    int rc = dill_ipaddr_literal(addrs, name, port, mode);
+    int rc = dill_ipaddr_literal(addrs, name, port, DILL_IPADDR_PREF_IPV4);
     if(rc == 0) {
         if(dill_slow(mode == DILL_IPADDR_IPV6 &&
               dill_ipaddr_family(addrs) == AF_INET)) return 0;
-- 
2.43.0


From 210a3053e9142e322528f6ab848c4028aa3df7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 59/90] fix: happyeyeballs_connect waited for the deadline when
 all attempts had failed

---
 happyeyeballs.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index 9fedfb3..3802e74 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -54,9 +54,9 @@ static dill_coroutine void dill_happyeyeballs_dnsquery(const char *name,
 }
 
 static dill_coroutine void dill_happyeyeballs_attempt(struct dill_ipaddr addr,
-      int ch) {
+      int ch, int *err) {
     int conn = dill_tcp_connect(&addr, -1);
-    if(dill_slow(conn < 0)) return;
+    if(dill_slow(conn < 0)) {*err = errno; return;}
     int rc = dill_chsend(ch, &conn, sizeof(int), -1);
     if(dill_slow(rc < 0 && errno == ECANCELED)) {
         rc = dill_hclose(conn);
@@ -95,6 +95,8 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     dill_assert(rc == 0);
     /* RFC says to wait for 50ms for IPv6 result irrespective of whether
        IPv4 address arrives. */
+    int nended = 0;
+    int err = EADDRNOTAVAIL;
     struct dill_ipaddr addr;
     struct dill_chclause cls[2] = {
         {DILL_CHRECV, chipv6[0], &addr, sizeof(struct dill_ipaddr)},
@@ -118,10 +120,14 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
         if(dill_slow(idx < 0 && errno == ECANCELED)) goto cancel;
         dill_assert(idx >= 0 && errno == 0);
 use_address:
-        /* Ignore 0.0.0.0 addresses. */
-        if(dill_ipaddr_equal(&addr, &nulladdr, 0)) continue;
+        /* 0.0.0.0 address marks the end of results of one of the queries. */
+        if(dill_ipaddr_equal(&addr, &nulladdr, 0)) {
+            if(++nended == 2) break;
+            continue;
+        }
         /* Launch the connect attempt. */
-        rc = dill_bundle_go(bndl, dill_happyeyeballs_attempt(addr, ch));
+        rc = dill_bundle_go(bndl, dill_happyeyeballs_attempt(addr, ch,
+            &err));
         if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
         dill_assert(rc == 0);
         /* Alternate between IPv4 and IPv6 addresses. */
@@ -135,6 +141,13 @@ use_address:
         if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
         dill_assert(rc == 0);
     }
+    /* There are no more addresses to try. If all the attempts have failed,
+       report the error. If one of them has succeeded, nobody is listening
+       any more and this coroutine is about to be canceled. */
+    rc = dill_bundle_wait(bndl, -1);
+    if(dill_slow(rc < 0)) goto cancel;
+    int res = -err;
+    dill_chsend(ch, &res, sizeof(int), -1);
 cancel:
     rc = dill_hclose(bndl);
     dill_assert(rc == 0);
@@ -161,6 +174,8 @@ int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
     int conn;
     rc = dill_chrecv(chconns[0], &conn, sizeof(int), deadline);
     if(dill_slow(rc < 0)) {err = errno; goto exit3;}
+    /* Negative number means that all the attempts have failed. */
+    if(dill_slow(conn < 0)) {err = -conn; goto exit3;}
     res = conn;
 exit3:
     rc = dill_hclose(coord);
-- 
2.43.0


From 6fe0fa9ccfe871bdce767b50dbfb96e3497a8fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 60/90] fix: happyeyeballs_connect reports ports that are too
 large

---
 happyeyeballs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index 3802e74..b44070c 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -164,7 +164,8 @@ cancel:
 int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
     int res = -1;
     int err = 0;
-    if(dill_slow(!name || port <= 0)) {err = EINVAL; goto exit1;}
+    if(dill_slow(!name || port <= 0 || port > 0xffff)) {
+        err = EINVAL; goto exit1;}
     int chconns[2];
     struct dill_chstorage chconns_storage;
     int rc = dill_chmake_mem(&chconns_storage, chconns);
-- 
2.43.0


From 903d6e063d42f8581b705954e6079024b08865c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 61/90] fix: happyeyeballs_connect waits 300ms after each
 attempt

---
 happyeyeballs.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index b44070c..27b5adc 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -106,16 +106,13 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
         dill_now() + 50);
     if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
     int idx;
-    int64_t nw;
     if(dill_fast(rc == 0)) {
         idx = 0;
-        nw = dill_now();
         goto use_address;
     }
     dill_assert(errno == ETIMEDOUT);
     /* From now we can use any address. */
     while(1) {
-        nw = dill_now();
         idx = dill_choose(cls, 2, -1);
         if(dill_slow(idx < 0 && errno == ECANCELED)) goto cancel;
         dill_assert(idx >= 0 && errno == 0);
@@ -137,7 +134,7 @@ use_address:
             cls[1].ch = tmp;
         }
         /* Wait for 300ms before launching next connection attempt. */
-        rc = dill_msleep(nw + 300);
+        rc = dill_msleep(dill_now() + 300);
         if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
         dill_assert(rc == 0);
     }
-- 
2.43.0


From 8d86dbde0c8f122254fe8828b3e095bcd77b098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 62/90] fix: happyeyeballs_connect aborted when out of memory

---
 happyeyeballs.c | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index 27b5adc..ccde52a 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -56,7 +56,10 @@ static dill_coroutine void dill_happyeyeballs_dnsquery(const char *name,
 static dill_coroutine void dill_happyeyeballs_attempt(struct dill_ipaddr addr,
       int ch, int *err) {
     int conn = dill_tcp_connect(&addr, -1);
-    if(dill_slow(conn < 0)) {*err = errno; return;}
+    if(dill_slow(conn < 0)) {
+        if(errno != ECANCELED) *err = errno;
+        return;
+    }
     int rc = dill_chsend(ch, &conn, sizeof(int), -1);
     if(dill_slow(rc < 0 && errno == ECANCELED)) {
         rc = dill_hclose(conn);
@@ -68,6 +71,7 @@ static dill_coroutine void dill_happyeyeballs_attempt(struct dill_ipaddr addr,
 
 static dill_coroutine void dill_happyeyeballs_coordinator(
       const char *name, int port, int ch) {
+    int err = EADDRNOTAVAIL;
     struct dill_ipaddr nulladdr;
     int rc = dill_ipaddr_local(&nulladdr, "0.0.0.0", 0, DILL_IPADDR_IPV4);
     dill_assert(rc == 0);
@@ -77,26 +81,23 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     int chipv6[2];
     struct dill_chstorage chipv6_storage;
     rc = dill_chmake_mem(&chipv6_storage, chipv6);
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto error1;}
     int chipv4[2];
     struct dill_chstorage chipv4_storage;
     rc = dill_chmake_mem(&chipv4_storage, chipv4);
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     struct dill_bundle_storage bndl_storage;
     int bndl = dill_bundle_mem(&bndl_storage);
-    dill_assert(bndl >= 0);
+    if(dill_slow(bndl < 0)) {err = errno; goto error3;}
     rc = dill_bundle_go(bndl, dill_happyeyeballs_dnsquery(name, port,
         DILL_IPADDR_IPV6, chipv6[1]));
-    if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto error4;}
     rc = dill_bundle_go(bndl, dill_happyeyeballs_dnsquery(name, port,
         DILL_IPADDR_IPV4, chipv4[1]));
-    if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto error4;}
     /* RFC says to wait for 50ms for IPv6 result irrespective of whether
        IPv4 address arrives. */
     int nended = 0;
-    int err = EADDRNOTAVAIL;
     struct dill_ipaddr addr;
     struct dill_chclause cls[2] = {
         {DILL_CHRECV, chipv6[0], &addr, sizeof(struct dill_ipaddr)},
@@ -104,7 +105,7 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     };
     rc = dill_chrecv(chipv6[0], &addr, sizeof(struct dill_ipaddr),
         dill_now() + 50);
-    if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
+    if(dill_slow(rc < 0 && errno == ECANCELED)) {err = errno; goto error4;}
     int idx;
     if(dill_fast(rc == 0)) {
         idx = 0;
@@ -114,7 +115,7 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     /* From now we can use any address. */
     while(1) {
         idx = dill_choose(cls, 2, -1);
-        if(dill_slow(idx < 0 && errno == ECANCELED)) goto cancel;
+        if(dill_slow(idx < 0 && errno == ECANCELED)) {err = errno; goto error4;}
         dill_assert(idx >= 0 && errno == 0);
 use_address:
         /* 0.0.0.0 address marks the end of results of one of the queries. */
@@ -125,8 +126,7 @@ use_address:
         /* Launch the connect attempt. */
         rc = dill_bundle_go(bndl, dill_happyeyeballs_attempt(addr, ch,
             &err));
-        if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-        dill_assert(rc == 0);
+        if(dill_slow(rc < 0)) {err = errno; goto error4;}
         /* Alternate between IPv4 and IPv6 addresses. */
         if(idx == 0) {
             int tmp = cls[0].ch;
@@ -135,27 +135,31 @@ use_address:
         }
         /* Wait for 300ms before launching next connection attempt. */
         rc = dill_msleep(dill_now() + 300);
-        if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
+        if(dill_slow(rc < 0 && errno == ECANCELED)) {err = errno; goto error4;}
         dill_assert(rc == 0);
     }
     /* There are no more addresses to try. If all the attempts have failed,
        report the error. If one of them has succeeded, nobody is listening
        any more and this coroutine is about to be canceled. */
     rc = dill_bundle_wait(bndl, -1);
-    if(dill_slow(rc < 0)) goto cancel;
-    int res = -err;
-    dill_chsend(ch, &res, sizeof(int), -1);
-cancel:
+    if(dill_slow(rc < 0)) err = errno;
+error4:
     rc = dill_hclose(bndl);
     dill_assert(rc == 0);
+error3:
     rc = dill_hclose(chipv4[0]);
     dill_assert(rc == 0);
     rc = dill_hclose(chipv4[1]);
     dill_assert(rc == 0);
+error2:
     rc = dill_hclose(chipv6[0]);
     dill_assert(rc == 0);
     rc = dill_hclose(chipv6[1]);
     dill_assert(rc == 0);
+error1:;
+    /* Fails if the coroutine is canceled. */
+    int res = -err;
+    dill_chsend(ch, &res, sizeof(int), -1);
 }
 
 int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
-- 
2.43.0


From 03ddb9d274b8c7e90c426fabd52d0b50ba333c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 63/90] fix: ipc_recvfd leaked descriptors if the peer sent
 more than one

---
 ipc.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ipc.c b/ipc.c
index 7e238e6..ab3121e 100644
--- a/ipc.c
+++ b/ipc.c
@@ -279,13 +279,20 @@ int dill_ipc_recvfd(int s, int64_t deadline) {
         self->inerr = 1;
         return -1;
     }
-    /* Loop over the auxiliary data to find the embedded file descriptor. */
+    /* Loop over the auxiliary data to find the embedded file descriptor.
+       If the peer has sent more of them close the rest so that they don't
+       leak. */
     int fd = -1;
     struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg);
     while(cmsg) {
         if (cmsg->cmsg_level == SOL_SOCKET && cmsg->cmsg_type  == SCM_RIGHTS) {
-            fd = *(int*)CMSG_DATA(cmsg);
-            break;
+            size_t i, n = (cmsg->cmsg_len - CMSG_LEN(0)) / sizeof(int);
+            for(i = 0; i != n; ++i) {
+                int f;
+                memcpy(&f, CMSG_DATA(cmsg) + i * sizeof(int), sizeof(f));
+                if(fd < 0) fd = f;
+                else close(f);
+            }
         }
         cmsg = CMSG_NXTHDR(&msg, cmsg);
     }
-- 
2.43.0


From eff815f934c1aa1367462f149068901a68dc622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 64/90] fix: go_mem accepted blocks too small to hold a
 coroutine

---
 cr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cr.c b/cr.c
index 19cb6a9..2a9cf8d 100644
--- a/cr.c
+++ b/cr.c
@@ -271,6 +271,8 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     int new_bundle = bndl < 0;
     if(new_bundle) {
         if(*ptr) {
+            if(dill_slow(len < sizeof(struct dill_bundle_storage))) {
+                err = ENOMEM; goto error1;}
             bndl = dill_bundle_mem(*ptr);
             *ptr = ((uint8_t*)*ptr) + sizeof(struct dill_bundle_storage);
             len -= sizeof(struct dill_bundle_storage);
@@ -295,7 +297,8 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
         uintptr_t top = (uintptr_t)*ptr;
         top += len;
         top &= ~(uintptr_t)15;
-        stacksz = top - (uintptr_t)*ptr;
+        /* Aligning may have moved the top below the start of the block. */
+        stacksz = top > (uintptr_t)*ptr ? top - (uintptr_t)*ptr : 0;
         cr = (struct dill_cr*)top;
         if(dill_slow(stacksz < sizeof(struct dill_cr))) {
             err = ENOMEM; goto error2;}
-- 
2.43.0


From 90f8a1697c490ec4a63eb44be709b432a0f993fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 65/90] fix: floating-point variables were lost across go() in
 optimized code

---
 libdill.h | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/libdill.h b/libdill.h
index 7063aa0..01f4b7c 100644
--- a/libdill.h
+++ b/libdill.h
@@ -143,6 +143,28 @@ DILL_EXPORT __attribute__((noinline)) void dill_epilogue(void);
 
 /* Stack-switching on X86-64. */
 #if defined(__x86_64__) && !defined DILL_ARCH_FALLBACK
+/* All the floating point and vector registers are caller-saved. Their content
+   is lost by the time dill_setjmp returns for the second time. */
+#if !defined _SOFT_FLOAT
+#define dill_x87clobbers__ , "st", "st(1)", "st(2)", "st(3)", "st(4)",\
+    "st(5)", "st(6)", "st(7)"
+#else
+#define dill_x87clobbers__
+#endif
+#if defined __SSE__
+#define dill_sseclobbers__ , "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5",\
+    "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13",\
+    "xmm14", "xmm15"
+#else
+#define dill_sseclobbers__
+#endif
+#if defined __AVX512F__
+#define dill_avx512clobbers__ , "xmm16", "xmm17", "xmm18", "xmm19", "xmm20",\
+    "xmm21", "xmm22", "xmm23", "xmm24", "xmm25", "xmm26", "xmm27", "xmm28",\
+    "xmm29", "xmm30", "xmm31", "k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"
+#else
+#define dill_avx512clobbers__
+#endif
 #define dill_setjmp(ctx) __extension__ ({\
     int ret;\
     asm("lea     LJMPRET%=(%%rip), %%rcx\n\t"\
@@ -158,7 +180,8 @@ DILL_EXPORT __attribute__((noinline)) void dill_epilogue(void);
         "LJMPRET%=:\n\t"\
         : "=a" (ret)\
         : "d" (ctx)\
-        : "memory", "rcx", "rsi", "rdi", "r8", "r9", "r10", "r11", "cc");\
+        : "memory", "rcx", "rsi", "rdi", "r8", "r9", "r10", "r11", "cc"\
+          dill_x87clobbers__ dill_sseclobbers__ dill_avx512clobbers__);\
     ret;\
 })
 #define dill_longjmp(ctx) \
-- 
2.43.0


From ec6cae66c3d7b0ba3ba1bfd6931cd5f30a7345d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 66/90] fix: dangling pointers to options and iterators in the
 DNS resolver

---
 dns/dns.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dns/dns.h b/dns/dns.h
index dc88ab5..2687e62 100644
--- a/dns/dns.h
+++ b/dns/dns.h
@@ -149,9 +149,9 @@ extern int dns_debug;
 #define DNS_PRAGMA_QUIET _Pragma("GCC diagnostic ignored \"-Woverride-init\"")
 #define DNS_PRAGMA_POP _Pragma("GCC diagnostic pop")
 
-/* GCC parses the _Pragma operator less elegantly than clang. */
-#define dns_quietinit(...) \
-	__extension__ ({ DNS_PRAGMA_PUSH DNS_PRAGMA_QUIET __VA_ARGS__; DNS_PRAGMA_POP })
+/* GCC accepts _Pragma inside of an expression only if wrapped into a statement
+ * expression, which would end the lifetime of the compound literal. */
+#define dns_quietinit(...) __VA_ARGS__
 #else
 #define DNS_PRAGMA_PUSH
 #define DNS_PRAGMA_QUIET
-- 
2.43.0


From 58b56b17c8e56084fd3498ee0b6d371b10653b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 67/90] fix: threads resolving their first name at the same
 time used a half-loaded configuration

---
 ipaddr.c | 50 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 49b67c6..648a47a 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -41,6 +41,10 @@
 #include <string.h>
 #include <unistd.h>
 
+#if defined DILL_THREADS
+#include <pthread.h>
+#endif
+
 #include "dns/dns.h"
 
 #define DILL_DISABLE_RAW_NAMES
@@ -55,6 +59,38 @@ static struct dns_resolv_conf *dill_dns_conf = NULL;
 static struct dns_hosts *dill_dns_hosts = NULL;
 static struct dns_hints *dill_dns_hints = NULL;
 
+#if defined DILL_THREADS
+/* The configuration is shared by all the threads. */
+static pthread_mutex_t dill_dns_mutex = PTHREAD_MUTEX_INITIALIZER;
+#endif
+
+/* Loads DNS config files, unless they are already cached. */
+static int dill_dns_init(void) {
+    int rc;
+    int err = 0;
+#if defined DILL_THREADS
+    rc = pthread_mutex_lock(&dill_dns_mutex);
+    dill_assert(rc == 0);
+#endif
+    if(dill_slow(!dill_dns_conf)) {
+        /* TODO: Maybe re-read the configuration once in a while? */
+        dill_dns_conf = dns_resconf_local(&rc);
+        if(dill_dns_conf) {
+            dill_dns_hosts = dns_hosts_local(&rc);
+            dill_assert(dill_dns_hosts);
+            dill_dns_hints = dns_hints_local(dill_dns_conf, &rc);
+            dill_assert(dill_dns_hints);
+        }
+        else err = ENOENT;
+    }
+#if defined DILL_THREADS
+    rc = pthread_mutex_unlock(&dill_dns_mutex);
+    dill_assert(rc == 0);
+#endif
+    if(dill_slow(err)) {errno = err; return -1;}
+    return 0;
+}
+
 static int dill_ipaddr_ipany(struct dill_ipaddr *addr, int port, int mode)
 {
     if(dill_slow(port < 0 || port > 0xffff)) {errno = EINVAL; return -1;}
@@ -332,18 +368,8 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     }
     /* We are going to do a DNS query here so load DNS config files,
        unless they are already chached. */
-    if(dill_slow(!dill_dns_conf)) {
-        /* TODO: Maybe re-read the configuration once in a while? */
-        dill_dns_conf = dns_resconf_local(&rc);
-        if(!dill_dns_conf) {
-            errno = ENOENT;
-            return -1;
-        }
-        dill_dns_hosts = dns_hosts_local(&rc);
-        dill_assert(dill_dns_hosts);
-        dill_dns_hints = dns_hints_local(dill_dns_conf, &rc);
-        dill_assert(dill_dns_hints);
-    }
+    rc = dill_dns_init();
+    if(dill_slow(rc < 0)) return -1;
     /* Launch the actual DNS query. */
     struct dns_resolver *resolver = dns_res_open(dill_dns_conf,
         dill_dns_hosts, dill_dns_hints, NULL, dns_opts(), &rc);
-- 
2.43.0


From 957a619b7c9c8323cbc986361072797d18dade88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 68/90] fix: threads using random numbers for the first time
 leaked a descriptor, lack of descriptors aborted

---
 utils.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/utils.c b/utils.c
index a663381..b4b3135 100644
--- a/utils.c
+++ b/utils.c
@@ -24,6 +24,7 @@
 */
 
 #include <ctype.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <string.h>
 #include <sys/param.h>
@@ -32,6 +33,10 @@
 #include <sys/types.h>
 #include <unistd.h>
 
+#if defined DILL_THREADS
+#include <pthread.h>
+#endif
+
 #include "utils.h"
 
 void dill_print_size(char x) {
@@ -110,12 +115,22 @@ const char *dill_rstrip(const char *string, char delim) {
 }
 
 int dill_random(uint8_t *buf, size_t len) {
+    /* The descriptor is shared by all the threads. */
     static int fd = -1;
-    if(dill_slow(fd < 0)) {
-        fd = open("/dev/urandom", O_RDONLY);
-        dill_assert(fd >= 0);
-    }
-    ssize_t sz = read(fd, buf, len);
+#if defined DILL_THREADS
+    static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
+    int rc = pthread_mutex_lock(&mutex);
+    dill_assert(rc == 0);
+#endif
+    if(dill_slow(fd < 0)) fd = open("/dev/urandom", O_RDONLY);
+    int err = errno;
+    int rfd = fd;
+#if defined DILL_THREADS
+    rc = pthread_mutex_unlock(&mutex);
+    dill_assert(rc == 0);
+#endif
+    if(dill_slow(rfd < 0)) {errno = err; return -1;}
+    ssize_t sz = read(rfd, buf, len);
     if(dill_slow(sz < 0)) return -1;
     dill_assert(sz == len);
     return 0;
-- 
2.43.0


From 03e01c99bf13b105d83c909731cad91b0d0f70c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 69/90] fix: dns: a search domain that is the root does not
 make a malformed name

---
 dns/dns.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index 064440a..2043d60 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -4846,6 +4846,10 @@ size_t dns_resconf_search(void *dst, size_t lim, const void *qname, size_t qlen,
 
 		/* FALL THROUGH */
 	case 1:
+		/* The root domain stands for the name itself. */
+		while (srchi < lengthof(resconf->search) && 0 == strcmp(resconf->search[srchi], "."))
+			srchi++;
+
 		if (srchi < lengthof(resconf->search) && (slen = strlen(resconf->search[srchi]))) {
 			len	= dns__printstring(dst, lim, 0, qname, qlen);
 			len	= dns_d_anchor(dst, lim, dst, len);
-- 
2.43.0


From 46ae8998cc7aa40e8b2dcc7dd600384b16582982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 70/90] fix: dns: recursion is desired for the target of an
 alias, too

---
 dns/dns.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index 2043d60..795d2c1 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -6987,6 +6987,8 @@ exec:
 		if (!(F[1].query = dns_p_make(DNS_P_QBUFSIZ, &error)))
 			goto error;
 
+		dns_header(F[1].query)->rd	= !R->resconf->options.recurse;
+
 		if ((error = dns_p_push(F[1].query, DNS_S_QD, host, strlen(host), dns_rr_type(12, F->query), DNS_C_IN, 0, 0)))
 			goto error;
 
-- 
2.43.0


From 1b41be9becfd1f8989f44686f4537d540223fe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:33 +0000
Subject: [PATCH 71/90] fix: ipaddr: failure to load the DNS configuration is
 an error rather than an abort

---
 ipaddr.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 648a47a..31c7f88 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -64,6 +64,11 @@ static struct dns_hints *dill_dns_hints = NULL;
 static pthread_mutex_t dill_dns_mutex = PTHREAD_MUTEX_INITIALIZER;
 #endif
 
+/* Converts an error from the DNS library to an errno. */
+static int dill_dns_errno(int err) {
+    return err >= DNS_EBASE && err <= DNS_ELAST ? EINVAL : err;
+}
+
 /* Loads DNS config files, unless they are already cached. */
 static int dill_dns_init(void) {
     int rc;
@@ -74,14 +79,26 @@ static int dill_dns_init(void) {
 #endif
     if(dill_slow(!dill_dns_conf)) {
         /* TODO: Maybe re-read the configuration once in a while? */
-        dill_dns_conf = dns_resconf_local(&rc);
-        if(dill_dns_conf) {
-            dill_dns_hosts = dns_hosts_local(&rc);
-            dill_assert(dill_dns_hosts);
-            dill_dns_hints = dns_hints_local(dill_dns_conf, &rc);
-            dill_assert(dill_dns_hints);
+        struct dns_hosts *hosts = NULL;
+        struct dns_hints *hints = NULL;
+        struct dns_resolv_conf *conf = dns_resconf_local(&err);
+        if(dill_fast(conf)) {
+            hosts = dns_hosts_local(&err);
+            /* There may be no hosts file at all. */
+            if(!hosts && err == ENOENT) hosts = dns_hosts_open(&err);
+        }
+        if(dill_fast(hosts)) hints = dns_hints_local(conf, &err);
+        if(dill_fast(hints)) {
+            err = 0;
+            dill_dns_conf = conf;
+            dill_dns_hosts = hosts;
+            dill_dns_hints = hints;
+        }
+        else {
+            err = dill_dns_errno(err);
+            dns_hosts_close(hosts);
+            dns_resconf_close(conf);
         }
-        else err = ENOENT;
     }
 #if defined DILL_THREADS
     rc = pthread_mutex_unlock(&dill_dns_mutex);
-- 
2.43.0


From af0dc312f088fba605558373caa1ce9ba5c03f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:45 +0000
Subject: [PATCH 72/90] fix: ipaddr: errors of the DNS query are returned
 rather than crashing

---
 ipaddr.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 31c7f88..29a0f5f 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -390,12 +390,7 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     /* Launch the actual DNS query. */
     struct dns_resolver *resolver = dns_res_open(dill_dns_conf,
         dill_dns_hosts, dill_dns_hints, NULL, dns_opts(), &rc);
-    if(!resolver) {
-        if(errno == ENFILE || errno == EMFILE) {
-            return -1;
-        }
-        dill_assert(resolver);
-    }
+    if(dill_slow(!resolver)) {errno = dill_dns_errno(rc); return -1;}
     dill_assert(port >= 0 && port <= 0xffff);
     char portstr[8];
     snprintf(portstr, sizeof(portstr), "%d", port);
@@ -405,8 +400,8 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     struct dns_addrinfo *ai = dns_ai_open(name, portstr,
         mode == DILL_IPADDR_IPV4 ? DNS_T_A : DNS_T_AAAA, &hints,
         resolver, &rc);
-    dill_assert(ai);
     dns_res_close(resolver);
+    if(dill_slow(!ai)) {errno = dill_dns_errno(rc); return -1;}
     /* Wait for the results. */
     int nresults = 0;
     struct addrinfo *it = NULL;
@@ -431,6 +426,11 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
             continue;
         }
         if(rc == ENOENT || (rc >= DNS_EBASE && rc <= DNS_ELAST)) break;
+        if(dill_slow(rc != 0)) {
+            dns_ai_close(ai);
+            errno = rc;
+            return -1;
+        }
         if(naddrs && mode == DILL_IPADDR_IPV4 && it->ai_family == AF_INET) {
             struct sockaddr_in *inaddr = (struct sockaddr_in*)addrs;
             memcpy(inaddr, it->ai_addr, sizeof (struct sockaddr_in));
-- 
2.43.0


From a0a459586126cb0d21e1e5564abc9a9460323bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 73/90] fix: ipaddr: a lost answer of the name server is asked
 for again

---
 ipaddr.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 29a0f5f..a914f03 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -411,15 +411,20 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
             int fd = dns_ai_pollfd(ai);
             int events = dns_ai_events(ai);
             dill_assert(fd >= 0);
+            /* Once the resolver has waited for an answer long enough, it has to
+               be given the chance to ask again or to ask another server. */
+            int64_t retry = dill_now() + dns_ai_timeout(ai) * 1000;
+            int last = deadline >= 0 && deadline <= retry;
             int rc = (events & DNS_POLLOUT) ?
-                dill_fdout(fd, deadline) : dill_fdin(fd, deadline);
+                dill_fdout(fd, last ? deadline : retry) :
+                dill_fdin(fd, last ? deadline : retry);
             /* There's no guarantee that the file descriptor will be reused
                in next iteration. We have to clean the fdwait cache here
                to be on the safe side. */
             int err = errno;
             dill_fdclean(fd);
             errno = err;
-            if(dill_slow(rc < 0)) {
+            if(dill_slow(rc < 0 && (last || err != ETIMEDOUT))) {
                 dns_ai_close(ai);
                 return -1;
             }
-- 
2.43.0


From 80b16e5b87d7d7356021396b40571c7e9975c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:21 +0000
Subject: [PATCH 74/90] fix: dns: an answer that has arrived is not discarded
 because of the timeout

---
 dns/dns.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dns/dns.c b/dns/dns.c
index 795d2c1..d769c83 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -6918,11 +6918,12 @@ exec:
 
 		F->state++;
 	case DNS_R_QUERY_A:
-		if (dns_so_elapsed(&R->so) >= dns_resconf_timeout(R->resconf))
-			dgoto(R->sp, DNS_R_FOREACH_A);
+		if ((error = dns_so_check(&R->so))) {
+			if (error == DNS_EAGAIN && dns_so_elapsed(&R->so) >= dns_resconf_timeout(R->resconf))
+				dgoto(R->sp, DNS_R_FOREACH_A);
 
-		if ((error = dns_so_check(&R->so)))
 			goto error;
+		}
 
 		if (!dns_p_setptr(&F->answer, dns_so_fetch(&R->so, &error)))
 			goto error;
-- 
2.43.0


From e6b4583dbac66748f551a33f706539f1cc3be15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 75/90] fix: dns: a loop of compression pointers with labels on
 it does not hang the process

---
 dns/dns.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dns/dns.c b/dns/dns.c
index d769c83..be60d02 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -1838,7 +1838,8 @@ size_t dns_d_expand(void *dst, size_t lim, unsigned short src, struct dns_packet
 
 			dstp++;
 
-			nptrs	= 0;
+			/* NOTE: nptrs isn't reset. The pointers may form a loop
+			 * that has labels on it. */
 
 			continue;
 		case 0x01:	/* RESERVED */
-- 
2.43.0


From 1517e21090e21abb2ada2f528b867b9b761fff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 76/90] fix: dns: overlong words in the configuration files are
 not read past their end

---
 dns/dns.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dns/dns.c b/dns/dns.c
index be60d02..79043e3 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -3712,7 +3712,7 @@ int dns_hosts_loadfile(struct dns_hosts *hosts, FILE *fp) {
 				if (!wp)
 					break;
 
-				dns_d_anchor(ent.host, sizeof ent.host, word, wp);
+				dns_d_anchor(ent.host, sizeof ent.host, word, strlen(word));
 
 				if ((error = dns_hosts_insert(hosts, ent.af, &ent.addr, ent.host, (wc > 2))))
 					return error;
@@ -4140,7 +4140,7 @@ skip:
 
 				break;
 			} else {
-				dns__printchar(words[wc], sizeof words[wc], wp, ch);
+				dns__printchar(words[wc], sizeof words[wc] - 1, wp, ch);
 				wp++;
 			}
 		}
-- 
2.43.0


From 6dabdccd39db78100cd41db5b6c19865030d95f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 77/90] fix: dns: no question is sent about a name with an
 empty or overlong label

---
 dns/dns.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index 79043e3..bed3b41 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -1686,6 +1686,10 @@ size_t dns_d_comp(void *dst_, size_t lim, const void *src_, size_t len, struct d
 		ch	= src.b[src.x];
 
 		if (ch == '.') {
+			/* No empty labels but the root and no overlong ones. */
+			if ((src.x == src.p && len > 1) || src.x - src.p > DNS_D_MAXLABEL)
+				goto illegal;
+
 			if (dst.p < lim)
 				dst.b[dst.p]	= (0x3f & (src.x - src.p));
 
@@ -1701,6 +1705,9 @@ size_t dns_d_comp(void *dst_, size_t lim, const void *src_, size_t len, struct d
 	} /* while() */
 
 	if (src.x > src.p) {
+		if (src.x - src.p > DNS_D_MAXLABEL)
+			goto illegal;
+
 		if (dst.p < lim)
 			dst.b[dst.p]	= (0x3f & (src.x - src.p));
 
@@ -1714,6 +1721,9 @@ size_t dns_d_comp(void *dst_, size_t lim, const void *src_, size_t len, struct d
 		dst.p++;
 	}
 
+	if (dst.p > DNS_D_MAXNAME)
+		goto illegal;
+
 #if 1
 	if (dst.p < lim) {
 		struct { unsigned char label[DNS_D_MAXLABEL + 1]; size_t len; unsigned short p, x, y; } a, b;
@@ -1755,6 +1765,10 @@ size_t dns_d_comp(void *dst_, size_t lim, const void *src_, size_t len, struct d
 		*error = DNS_EILLEGAL;
 
 	return dst.p;
+illegal:
+	*error = DNS_EILLEGAL;
+
+	return 0;
 } /* dns_d_comp() */
 
 
-- 
2.43.0


From 6a5936e53567c84234d80bd0c4b56a3197ddcf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 78/90] fix: dns: a search domain too long for the name is
 skipped rather than read past the end of the buffer

---
 dns/dns.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/dns/dns.c b/dns/dns.c
index bed3b41..14a6d55 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -6732,6 +6732,9 @@ exec:
  * not Valgrind's forte. Neither can I spot anything in the assembly, but
  * that's not my forte.
  */
+				if (len >= sizeof host)
+					continue;
+
 #if __OpenBSD__ && __GNUC__
 				struct dns_packet *query	= __builtin_alloca(DNS_P_QBUFSIZ);
 
@@ -6740,8 +6743,12 @@ exec:
 				struct dns_packet *query	= dns_p_new(DNS_P_QBUFSIZ);
 #endif
 
-				if ((error = dns_p_push(query, DNS_S_QD, host, len, R->qtype, R->qclass, 0, 0)))
+				if ((error = dns_p_push(query, DNS_S_QD, host, len, R->qtype, R->qclass, 0, 0))) {
+					if (error == DNS_EILLEGAL)
+						continue;
+
 					goto error;
+				}
 
 				if (!dns_p_setptr(&F->answer, dns_hosts_query(R->hosts, query, &error)))
 					goto error;
@@ -6814,6 +6821,10 @@ exec:
 		if (!(len = dns_resconf_search(host, sizeof host, R->qname, R->qlen, R->resconf, &R->search)))
 			dgoto(R->sp, DNS_R_SWITCH);
 
+		/* The name may be too long for some of the search domains. */
+		if (len >= sizeof host)
+			dgoto(R->sp, DNS_R_SEARCH);
+
 		if (!(P = dns_p_make(DNS_P_QBUFSIZ, &error)))
 			goto error;
 
@@ -6821,8 +6832,12 @@ exec:
 
 		dns_p_setptr(&F->query, P);
 
-		if ((error = dns_p_push(F->query, DNS_S_QD, host, len, R->qtype, R->qclass, 0, 0)))
+		if ((error = dns_p_push(F->query, DNS_S_QD, host, len, R->qtype, R->qclass, 0, 0))) {
+			if (error == DNS_EILLEGAL)
+				dgoto(R->sp, DNS_R_SEARCH);
+
 			goto error;
+		}
 
 		F->state++;
 	case DNS_R_HINTS:
-- 
2.43.0


From af2c17622036f14e497f4e68e44fa51886e9357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 79/90] fix: dns: the rest of a partially sent question was
 sent from a wrong position

---
 dns/dns.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dns/dns.c b/dns/dns.c
index 14a6d55..92c7d7a 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -5919,7 +5919,7 @@ static int dns_so_tcp_send(struct dns_socket *so) {
 	so->query->data[-2] = 0xff & (so->query->end >> 8);
 	so->query->data[-1] = 0xff & (so->query->end >> 0);
 
-	qsrc = &so->query->data[-2] + so->qout;
+	qsrc = &so->query->data[-2];
 	qend = so->query->end + 2;
 
 	while (so->qout < qend) {
-- 
2.43.0


From 9a24578f738609c8d640fec7b502afe26873cea1 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 80/90] fix: tls: a failed handshake was reported as success,
 failure afterwards freed the BIO twice

---
 tls.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/tls.c b/tls.c
index 958b10e..5bd39c2 100644
--- a/tls.c
+++ b/tls.c
@@ -96,7 +96,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
 	  SSL_set_bio(ssl, bio, bio);
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-    if(dill_slow(s < 0)) {err = errno; goto error1;}
+    if(dill_slow(s < 0)) {err = errno; goto error3;}
     /* Create the object. */
     struct dill_tls_sock *self = (struct dill_tls_sock*)mem;
     self->hvfs.query = dill_tls_hquery;
@@ -117,15 +117,14 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
         ERR_clear_error();
         int rc = SSL_connect(ssl);
         if(dill_tls_followup(self, rc)) break;
-        if(dill_slow(errno != 0)) {err = errno; goto error4;}
     }
+    if(dill_slow(errno != 0)) {err = errno; goto error3;}
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-    if(dill_slow(h < 0)) {err = errno; goto error4;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
-error4:
-    BIO_vfree(bio);
 error3:
+    /* This deallocates the BIO as well. */
     SSL_free(ssl);
 error2:
     SSL_CTX_free(ctx);
@@ -182,7 +181,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
 	  SSL_set_bio(ssl, bio, bio);
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-    if(dill_slow(s < 0)) {err = errno; goto error1;}
+    if(dill_slow(s < 0)) {err = errno; goto error3;}
     /* Create the object. */
     struct dill_tls_sock *self = (struct dill_tls_sock*)mem;
     self->hvfs.query = dill_tls_hquery;
@@ -203,15 +202,14 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
         ERR_clear_error();
         rc = SSL_accept(ssl);
         if(dill_tls_followup(self, rc)) break;
-        if(dill_slow(errno != 0)) {err = errno; goto error4;}
     }
+    if(dill_slow(errno != 0)) {err = errno; goto error3;}
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-    if(dill_slow(h < 0)) {err = errno; goto error4;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
-error4:
-    BIO_vfree(bio);
 error3:
+    /* This deallocates the BIO as well. */
     SSL_free(ssl);
 error2:
     SSL_CTX_free(ctx);
-- 
2.43.0


From ee2474129333154e8021842353acc648ed4d8ee5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 81/90] fix: tls: tls_detach left the handle behind, pointing
 to deallocated memory

---
 tls.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tls.c b/tls.c
index 5bd39c2..9a797ec 100644
--- a/tls.c
+++ b/tls.c
@@ -257,7 +257,7 @@ int dill_tls_done(int s, int64_t deadline) {
 int dill_tls_detach(int s, int64_t deadline) {
     int err;
     struct dill_tls_sock *self = dill_hquery(s, dill_tls_type);
-    if(dill_slow(!self)) return -1;
+    if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
     /* Start terminal TLS handshake. */
     if(!self->outdone) {
@@ -275,10 +275,10 @@ int dill_tls_detach(int s, int64_t deadline) {
     }
     int u = self->u;
     self->u = -1;
-    dill_tls_hclose(&self->hvfs);
+    dill_hclose(s);
     return u;
 error:
-    dill_tls_hclose(&self->hvfs);
+    if(s >= 0) dill_hclose(s);
     errno = err;
     return -1;
 }
-- 
2.43.0


From f33094dea0c5b96871c6abb764ff72c8a8784068 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:34:06 +0000
Subject: [PATCH 82/90] fix: tls: errors of the underlying socket aborted,
 missing terminal handshake was reported as clean end

---
 tls.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/tls.c b/tls.c
index 9a797ec..6fefc58 100644
--- a/tls.c
+++ b/tls.c
@@ -43,6 +43,8 @@ struct dill_tls_sock {
     SSL_CTX *ctx;
     SSL *ssl;
     int u;
+    /* The last error of the underlying socket. */
+    int err;
     int64_t deadline;
     unsigned int indone : 1;
     unsigned int outdone: 1;
@@ -106,6 +108,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
+    self->err = 0;
     self->deadline = -1;
     self->indone = 0;
     self->outdone = 0;
@@ -191,6 +194,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
+    self->err = 0;
     self->deadline = -1;
     self->indone = 0;
     self->outdone = 0;
@@ -389,9 +393,9 @@ static int dill_tls_followup(struct dill_tls_sock *self, int rc) {
         errno = EPIPE;
         return 1;
     case SSL_ERROR_SYSCALL:
-        /* Error from our custom BIO. */
-        dill_assert(rc == -1);
-        if(errno == 0) return 0;
+        /* Error from our custom BIO. OpenSSL may have overwritten errno
+           in the meantime. */
+        errno = self->err ? self->err : ECONNRESET;
         return 1;
     case SSL_ERROR_SSL:        
         dill_tls_process_errors();
@@ -434,14 +438,19 @@ static int dill_tls_cbio_destroy(BIO *bio) {
 static int dill_tls_cbio_write(BIO *bio, const char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
     int rc = dill_bsend(self->u, buf, len, self->deadline);
-    if(dill_slow(rc < 0)) return -1;
+    if(dill_slow(rc < 0)) {self->err = errno; return -1;}
     return len;
 }
 
 static int dill_tls_cbio_read(BIO *bio, char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
     int rc = dill_brecv(self->u, buf, len, self->deadline);
-    if(dill_slow(rc < 0)) return -1;
+    if(dill_slow(rc < 0)) {
+        /* If the underlying socket is closed without the terminal handshake
+           of TLS the stream may have been truncated by an attacker. */
+        self->err = errno == EPIPE ? ECONNRESET : errno;
+        return -1;
+    }
     return len;
 }
 
@@ -453,7 +462,9 @@ static long dill_tls_cbio_ctrl(BIO *bio, int cmd, long larg, void *parg) {
     case BIO_CTRL_POP:
         return 0;
     default:
-        dill_assert(0);
+        /* Not supported. OpenSSL 3 asks, for example, whether the failure to
+           read was caused by the end of the stream. */
+        return 0;
     }
 }
 
-- 
2.43.0


From b1e5aba576940301e7cb192d7ae5e0b6a98b01e6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:34:06 +0000
Subject: [PATCH 83/90] fix: tls: attaching, done and detaching ignored the
 deadline

---
 tls.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tls.c b/tls.c
index 6fefc58..39297f6 100644
--- a/tls.c
+++ b/tls.c
@@ -109,7 +109,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     self->ssl = ssl;
     self->u = s;
     self->err = 0;
-    self->deadline = -1;
+    self->deadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -195,7 +195,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     self->ssl = ssl;
     self->u = s;
     self->err = 0;
-    self->deadline = -1;
+    self->deadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -246,6 +246,7 @@ int dill_tls_done(int s, int64_t deadline) {
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
+    self->deadline = deadline;
     while(1) {
         ERR_clear_error();
         int rc = SSL_shutdown(self->ssl);
@@ -270,6 +271,7 @@ int dill_tls_detach(int s, int64_t deadline) {
     }
     /* Wait for the handshake acknowledgement from the peer. */
     if(!self->indone) {
+        self->deadline = deadline;
         while(1) {
             ERR_clear_error();
             int rc = SSL_shutdown(self->ssl);
-- 
2.43.0


From 3ef3f18f5903035ecefcd5bc71eaabb8a1269db1 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:34:27 +0000
Subject: [PATCH 84/90] fix: tls: tls_detach failed if the peer had sent data
 that were not received

---
 tls.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tls.c b/tls.c
index 39297f6..b51a068 100644
--- a/tls.c
+++ b/tls.c
@@ -273,10 +273,13 @@ int dill_tls_detach(int s, int64_t deadline) {
     if(!self->indone) {
         self->deadline = deadline;
         while(1) {
+            /* Data that were not received by the user are dropped. */
+            uint8_t buf[512];
             ERR_clear_error();
-            int rc = SSL_shutdown(self->ssl);
-            if(rc == 1) break;
-            if(dill_tls_followup(self, rc)) {err = errno; goto error;}
+            int rc = SSL_read(self->ssl, buf, sizeof(buf));
+            if(!dill_tls_followup(self, rc)) continue;
+            if(errno == EPIPE) break;
+            if(dill_slow(errno != 0)) {err = errno; goto error;}
         }
     }
     int u = self->u;
-- 
2.43.0


From 17f3680889179ac8126cbfcc82fa552888e4cb9e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:34:27 +0000
Subject: [PATCH 85/90] fix: tls: empty buffers, skipping of data and buffers
 over 2GB did not work

---
 tls.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tls.c b/tls.c
index b51a068..8a1eb2b 100644
--- a/tls.c
+++ b/tls.c
@@ -23,6 +23,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <openssl/bio.h>
 #include <openssl/err.h>
 #include <openssl/ssl.h>
@@ -304,7 +305,7 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
         size_t len = it->iol_len;
         while(len > 0) {
             ERR_clear_error();
-            int rc = SSL_write(self->ssl, base, len);
+            int rc = SSL_write(self->ssl, base, len > INT_MAX ? INT_MAX : len);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     self->outerr = 1;
@@ -330,17 +331,20 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
     while(1) {
         uint8_t *base = it->iol_base;
         size_t len = it->iol_len;
-        while(1) {
+        while(len > 0) {
+            /* If there's no buffer the data are to be skipped. */
+            uint8_t skip[512];
+            size_t max = base ? INT_MAX : sizeof(skip);
             ERR_clear_error();
-            int rc = SSL_read(self->ssl, base, len);
+            int rc = SSL_read(self->ssl, base ? base : skip,
+                len > max ? max : len);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     if(errno == EPIPE) self->indone = 1;
                     else self->inerr = 1;
                     return -1;
                 }
-                if(rc == len) break;
-                base += rc;
+                if(base) base += rc;
                 len -= rc;
             }
         }
-- 
2.43.0


From cf3b984d722953a604f9a33ac5c0eb35302bafc7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:34:52 +0000
Subject: [PATCH 86/90] fix: tls: the deadline of sending was used for
 receiving in another coroutine and vice versa

---
 tls.c | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/tls.c b/tls.c
index 8a1eb2b..5144831 100644
--- a/tls.c
+++ b/tls.c
@@ -41,12 +41,15 @@ dill_unique_id(dill_tls_type);
 struct dill_tls_sock {
     struct dill_hvfs hvfs;
     struct dill_bsock_vfs bvfs;
-    SSL_CTX *ctx;
     SSL *ssl;
     int u;
     /* The last error of the underlying socket. */
     int err;
-    int64_t deadline;
+    /* Deadlines for reading from and writing to the underlying socket. They
+       differ if one coroutine is sending while another one is receiving. */
+    int64_t rdeadline;
+    int64_t wdeadline;
+    unsigned int sending : 1;
     unsigned int indone : 1;
     unsigned int outdone: 1;
     unsigned int inerr : 1;
@@ -106,11 +109,12 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     self->hvfs.close = dill_tls_hclose;
     self->bvfs.bsendl = dill_tls_bsendl;
     self->bvfs.brecvl = dill_tls_brecvl;
-    self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
     self->err = 0;
-    self->deadline = deadline;
+    self->rdeadline = deadline;
+    self->wdeadline = deadline;
+    self->sending = 0;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -192,11 +196,12 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     self->hvfs.close = dill_tls_hclose;
     self->bvfs.bsendl = dill_tls_bsendl;
     self->bvfs.brecvl = dill_tls_brecvl;
-    self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
     self->err = 0;
-    self->deadline = deadline;
+    self->rdeadline = deadline;
+    self->wdeadline = deadline;
+    self->sending = 0;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -247,10 +252,12 @@ int dill_tls_done(int s, int64_t deadline) {
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
-    self->deadline = deadline;
+    self->wdeadline = deadline;
+    self->sending = 1;
     while(1) {
         ERR_clear_error();
         int rc = SSL_shutdown(self->ssl);
+        self->sending = 0;
         if(rc == 0) {self->outdone = 1; return 0;}
         if(rc == 1) {self->outdone = 1; self->indone = 1; return 0;}
         if(dill_tls_followup(self, rc)) break;
@@ -272,7 +279,8 @@ int dill_tls_detach(int s, int64_t deadline) {
     }
     /* Wait for the handshake acknowledgement from the peer. */
     if(!self->indone) {
-        self->deadline = deadline;
+        self->rdeadline = deadline;
+        self->wdeadline = deadline;
         while(1) {
             /* Data that were not received by the user are dropped. */
             uint8_t buf[512];
@@ -298,7 +306,8 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
     struct dill_tls_sock *self = dill_cont(bvfs, struct dill_tls_sock, bvfs);
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
-    self->deadline = deadline;
+    self->wdeadline = deadline;
+    self->sending = 1;
     struct dill_iolist *it = first;
     while(1) {
         uint8_t *base = it->iol_base;
@@ -309,6 +318,7 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     self->outerr = 1;
+                    self->sending = 0;
                     return -1;
                 }
                 base += rc;
@@ -318,6 +328,7 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
         if(it == last) break;
         it = it->iol_next;
     }
+    self->sending = 0;
     return 0;
 }
 
@@ -326,7 +337,9 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
     struct dill_tls_sock *self = dill_cont(bvfs, struct dill_tls_sock, bvfs);
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
-    self->deadline = deadline;
+    self->rdeadline = deadline;
+    /* Alerts may be sent to the peer while receiving. */
+    if(!self->sending) self->wdeadline = deadline;
     struct dill_iolist *it = first;
     while(1) {
         uint8_t *base = it->iol_base;
@@ -356,8 +369,9 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
 
 static void dill_tls_hclose(struct dill_hvfs *hvfs) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)hvfs;
+    SSL_CTX *ctx = SSL_get_SSL_CTX(self->ssl);
     SSL_free(self->ssl);
-    SSL_CTX_free(self->ctx);
+    SSL_CTX_free(ctx);
     if(dill_fast(self->u >= 0)) {
         int rc = dill_hclose(self->u);
         dill_assert(rc == 0);
@@ -446,14 +460,14 @@ static int dill_tls_cbio_destroy(BIO *bio) {
 
 static int dill_tls_cbio_write(BIO *bio, const char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
-    int rc = dill_bsend(self->u, buf, len, self->deadline);
+    int rc = dill_bsend(self->u, buf, len, self->wdeadline);
     if(dill_slow(rc < 0)) {self->err = errno; return -1;}
     return len;
 }
 
 static int dill_tls_cbio_read(BIO *bio, char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
-    int rc = dill_brecv(self->u, buf, len, self->deadline);
+    int rc = dill_brecv(self->u, buf, len, self->rdeadline);
     if(dill_slow(rc < 0)) {
         /* If the underlying socket is closed without the terminal handshake
            of TLS the stream may have been truncated by an attacker. */
-- 
2.43.0


From 9c0c87e777bf6280e33859be87343aa20685568e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 87/90] fix: tls: threads using TLS for the first time at the
 same time initialized it twice

---
 tls.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tls.c b/tls.c
index 5144831..878d44e 100644
--- a/tls.c
+++ b/tls.c
@@ -29,6 +29,9 @@
 #include <openssl/ssl.h>
 #include <stdint.h>
 #include <stdlib.h>
+#if defined DILL_THREADS
+#include <pthread.h>
+#endif
 
 #define DILL_DISABLE_RAW_NAMES
 #include "libdillimpl.h"
@@ -499,6 +502,11 @@ static void dill_tls_term(void) {
 
 static void dill_tls_init(void) {
     static int init = 0;
+#if defined DILL_THREADS
+    static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
+    int rc = pthread_mutex_lock(&mutex);
+    dill_assert(rc == 0);
+#endif
     if(dill_slow(!init)) {
         SSL_library_init();
         SSL_load_error_strings();
@@ -521,4 +529,8 @@ static void dill_tls_init(void) {
         dill_assert(rc == 0);
         init = 1;
     }
+#if defined DILL_THREADS
+    rc = pthread_mutex_unlock(&mutex);
+    dill_assert(rc == 0);
+#endif
 }
-- 
2.43.0


From c29a4036a02a208cd4b83c1263dace4cc1af9746 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:03:50 +0000
Subject: [PATCH 88/90] fix: variables of the creator passed to a coroutine by
 pointer were optimized away in optimized code

---
 libdill.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libdill.h b/libdill.h
index 01f4b7c..f9b5542 100644
--- a/libdill.h
+++ b/libdill.h
@@ -126,7 +126,19 @@ DILL_EXPORT int dill_hclose(int h);
 /*  Coroutines                                                                */
 /******************************************************************************/
 
+/* A coroutine is still running when go() returns. Compilers don't know that:
+   what they find out about the function by looking into it, such as that it
+   doesn't store its arguments, must not be used at the place of the call. */
+#if defined __has_attribute
+#if __has_attribute(noipa)
+#define dill_coroutine __attribute__((noinline,noipa))
+#elif __has_attribute(optnone)
+#define dill_coroutine __attribute__((noinline,optnone))
+#endif
+#endif
+#if !defined dill_coroutine
 #define dill_coroutine __attribute__((noinline))
+#endif
 
 DILL_EXPORT extern volatile void *dill_unoptimisable;
 
-- 
2.43.0


From 524aa7fb955f1738aa97225d7fc74658a8fe10d3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:05:48 +0000
Subject: [PATCH 89/90] fix: EBUSY from a TLS socket used by two coroutines
 instead of errors of OpenSSL

---
 tls.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tls.c b/tls.c
index 878d44e..278e320 100644
--- a/tls.c
+++ b/tls.c
@@ -53,6 +53,7 @@ struct dill_tls_sock {
     int64_t rdeadline;
     int64_t wdeadline;
     unsigned int sending : 1;
+    unsigned int receiving : 1;
     unsigned int indone : 1;
     unsigned int outdone: 1;
     unsigned int inerr : 1;
@@ -118,6 +119,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     self->rdeadline = deadline;
     self->wdeadline = deadline;
     self->sending = 0;
+    self->receiving = 0;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -205,6 +207,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     self->rdeadline = deadline;
     self->wdeadline = deadline;
     self->sending = 0;
+    self->receiving = 0;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -255,6 +258,7 @@ int dill_tls_done(int s, int64_t deadline) {
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
+    if(dill_slow(self->sending)) {errno = EBUSY; return -1;}
     self->wdeadline = deadline;
     self->sending = 1;
     while(1) {
@@ -309,6 +313,8 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
     struct dill_tls_sock *self = dill_cont(bvfs, struct dill_tls_sock, bvfs);
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
+    /* OpenSSL can't do two writes at once. Same applies to reads. */
+    if(dill_slow(self->sending)) {errno = EBUSY; return -1;}
     self->wdeadline = deadline;
     self->sending = 1;
     struct dill_iolist *it = first;
@@ -340,7 +346,9 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
     struct dill_tls_sock *self = dill_cont(bvfs, struct dill_tls_sock, bvfs);
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
+    if(dill_slow(self->receiving)) {errno = EBUSY; return -1;}
     self->rdeadline = deadline;
+    self->receiving = 1;
     /* Alerts may be sent to the peer while receiving. */
     if(!self->sending) self->wdeadline = deadline;
     struct dill_iolist *it = first;
@@ -358,6 +366,7 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
                 if(dill_slow(errno != 0)) {
                     if(errno == EPIPE) self->indone = 1;
                     else self->inerr = 1;
+                    self->receiving = 0;
                     return -1;
                 }
                 if(base) base += rc;
@@ -367,6 +376,7 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
         if(it == last) break;
         it = it->iol_next;
     }
+    self->receiving = 0;
     return 0;
 }
 
-- 
2.43.0


From 02de516b9da9275c71eccc3a6e9fd26cca6b6bd2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:05:48 +0000
Subject: [PATCH 90/90] fix: a call that fails with EBUSY broke PREFIX, SUFFIX
 and WebSocket sockets

---
 prefix.c | 12 ++++++++++--
 suffix.c | 12 ++++++++++--
 ws.c     |  6 +++++-
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/prefix.c b/prefix.c
index cd589d3..0cc85c4 100644
--- a/prefix.c
+++ b/prefix.c
@@ -146,7 +146,11 @@ static int dill_prefix_msendl(struct dill_msock_vfs *mvfs,
     if(dill_slow(sz)) {errno = EMSGSIZE; return -1;}
     struct dill_iolist hdr = {szbuf, sizeof(szbuf), first, 0};
     int rc = dill_bsendl(self->u, &hdr, last, deadline);
-    if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
+    if(dill_slow(rc < 0)) {
+        /* If somebody else is sending nothing was written. */
+        if(errno != EBUSY) self->outerr = 1;
+        return -1;
+    }
     return 0;
 }
 
@@ -157,7 +161,11 @@ static ssize_t dill_prefix_mrecvl(struct dill_msock_vfs *mvfs,
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
     uint8_t szbuf[self->hdrlen];
     int rc = dill_brecv(self->u, szbuf, self->hdrlen, deadline);
-    if(dill_slow(rc < 0)) {self->inerr = 1; return -1;}
+    if(dill_slow(rc < 0)) {
+        /* If somebody else is receiving nothing was read. */
+        if(errno != EBUSY) self->inerr = 1;
+        return -1;
+    }
     uint64_t sz = 0;
     int i;
     for(i = 0; i != self->hdrlen; ++i) {
diff --git a/suffix.c b/suffix.c
index f2003e6..4f35839 100644
--- a/suffix.c
+++ b/suffix.c
@@ -141,7 +141,11 @@ static int dill_suffix_msendl(struct dill_msock_vfs *mvfs,
     last->iol_next = &iol;
     int rc = self->uvfs->bsendl(self->uvfs, first, &iol, deadline);
     last->iol_next = NULL;
-    if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
+    if(dill_slow(rc < 0)) {
+        /* If somebody else is sending nothing was written. */
+        if(errno != EBUSY) self->outerr = 1;
+        return -1;
+    }
     return 0;
 }
 
@@ -153,7 +157,11 @@ static ssize_t dill_suffix_mrecvl(struct dill_msock_vfs *mvfs,
     /* First fill in the temporary buffer. */
     struct dill_iolist iol = {self->buf, self->suffixlen, NULL, 0};
     int rc = self->uvfs->brecvl(self->uvfs, &iol, &iol, deadline);
-    if(dill_slow(rc < 0)) {self->inerr = 1; return -1;}
+    if(dill_slow(rc < 0)) {
+        /* If somebody else is receiving nothing was read. */
+        if(errno != EBUSY) self->inerr = 1;
+        return -1;
+    }
     /* Read the input, character by character. */
     iol.iol_base = self->buf + self->suffixlen - 1;
     iol.iol_len = 1;
diff --git a/ws.c b/ws.c
index 5382ec8..5bf90f1 100644
--- a/ws.c
+++ b/ws.c
@@ -395,7 +395,11 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         struct dill_iolist iol_msg;
         uint8_t hdr1[2];
         rc = dill_brecv(self->u, hdr1, sizeof(hdr1), deadline);
-        if(dill_slow(rc < 0)) goto error;
+        if(dill_slow(rc < 0)) {
+            /* If somebody else is receiving nothing was read. */
+            if(errno == EBUSY) return -1;
+            goto error;
+        }
         if(hdr1[0] & 0x70) goto eproto;
         opcode = hdr1[0] & 0x0f;
         /* TODO: Other opcodes. */
-- 
2.43.0

