From 416da5905e28f740bf862277e5423fac5fa7b31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 01/33] fix: kfiber_rwlock_wunlock wakes readers after
 releasing the lock

Waking a reader switches to it at once; holding the non-recursive mutex
meanwhile deadlocks as soon as the reader releases its lock.
---
 include/kfiber_sync.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/kfiber_sync.h b/include/kfiber_sync.h
index 5ee8ea5..d220af4 100644
--- a/include/kfiber_sync.h
+++ b/include/kfiber_sync.h
@@ -195,13 +195,11 @@ INLINE int kfiber_rwlock_wunlock(kfiber_rwlock* mutex) {
 	if (mutex->reader) {
 		kfiber_waiter* waiter = mutex->reader;
 		mutex->reader = NULL;
-		while (waiter) {
+		for (kfiber_waiter* next = waiter; next; next = next->next) {
 			mutex->cnt++;
-			kfiber_waiter* next = waiter->next;
-			kfiber_wakeup_waiter(waiter, 0);
-			waiter = next;
 		}
 		kmutex_unlock(&mutex->lock);
+		kfiber_wakeup_all_waiter(waiter, 0);
 		return 0;
 	}
 	return __kfiber_rwlock_try_wakeup_writer(mutex);
-- 
2.43.0


From 4b35c864876759499602ad6579ef4b441aed38ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 02/33] fix: kfiber_mutex_lock2 counts its holder/waiter and is
 callable from the event loop

unlock lowers count for every release, so an acquisition through the
callback variant must raise it; the assertion could never hold, as the
event loop always runs on its main fiber.
---
 src/kfiber_sync.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 0ab8567..88ba40a 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -10,8 +10,9 @@
 //mutext
 kev_result kfiber_mutex_lock2(kfiber_mutex* mutex, KOPAQUE data, result_callback notice, void* arg)
 {
-	kassert(kfiber_self2() == NULL);
+	kassert(kfiber_is_main());
 	kmutex_lock(&mutex->lock);
+	mutex->count++;
 	if (mutex->worker < mutex->limit) {
 		mutex->worker++;
 		kmutex_unlock(&mutex->lock);
-- 
2.43.0


From abfc69ae353de1becfacab00619ea205e3d2e47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 03/33] fix: kasync_worker_add undoes the thread count when no
 thread starts

worker-- moved the pointer past the object, so the count stayed raised and
a reference beyond the object was dropped.
---
 src/kasync_worker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kasync_worker.c b/src/kasync_worker.c
index 23b4767..1e0dd8b 100644
--- a/src/kasync_worker.c
+++ b/src/kasync_worker.c
@@ -109,7 +109,7 @@ static void kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bo
 	worker->worker++;
 	kasync_worker_refs(worker);
 	if (!kthread_pool_start(kasync_worker_worker_thread,worker)) {
-		worker--;
+		worker->worker--;
 		kasync_worker_release(worker);
 	}
 	return;
-- 
2.43.0


From 9f7b6a878c5842eb815c0d5bdc08154928b3d11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 04/33] fix: kcond_wait re-checks the event and keeps a
 manual-reset event set

A waiter returned from pthread_cond_wait without looking at the event, so a
spurious wakeup or an event taken by somebody else released it; and the
fast paths cleared the event of a manual-reset condition.
---
 include/ksync.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/ksync.h b/include/ksync.h
index c34a859..f4acf90 100644
--- a/include/ksync.h
+++ b/include/ksync.h
@@ -55,12 +55,9 @@ INLINE void kcond_wait(kcond *cond)
 	WaitForSingleObject(cond, INFINITE);
 #else
 	kmutex_lock(&cond->mutex);
-	if (cond->ev) {
-		cond->ev = false;
-		kmutex_unlock(&cond->mutex);
-		return;
+	while (!cond->ev) {
+		pthread_cond_wait(&cond->cond, &cond->mutex);
 	}
-	pthread_cond_wait(&cond->cond, &cond->mutex);
 	if (cond->auto_reset) {
 		cond->ev = false;
 	}
@@ -73,7 +70,9 @@ INLINE bool kcond_try_wait(kcond* cond, int msec) {
 #else
 	kmutex_lock(&cond->mutex);
 	if (cond->ev) {
-		cond->ev = false;
+		if (cond->auto_reset) {
+			cond->ev = false;
+		}
 		kmutex_unlock(&cond->mutex);
 		return true;
 	}
-- 
2.43.0


From 1d8201c16749642e7435ad9656757c1826aee75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 05/33] fix: a direct read at the end of the file must not
 abort

---
 include/kasync_file.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/kasync_file.h b/include/kasync_file.h
index 3146bbb..ac92314 100644
--- a/include/kasync_file.h
+++ b/include/kasync_file.h
@@ -75,10 +75,13 @@ INLINE int kasync_file_adjust_result(kasync_file *fp,int got)
 	if (!fp->st.direct_io) {
 		return got;
 	}	
-	assert(got>fp->st.direct_io_offset);
-	if (got < fp->st.direct_io_offset) {
+	if (got < 0) {
 		return -1;
 	}
+	if (got <= fp->st.direct_io_offset) {
+		//end of file
+		return 0;
+	}
 	got -= fp->st.direct_io_offset;
 	return KGL_MIN(got,fp->st.direct_io_orig_length);
 }
-- 
2.43.0


From 5866aab4f4d76f1ce1319a27564e43e3a8bcf1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 06/33] fix: kfiber_file_safe_read reports a failed start as an
 error, not as end of file

---
 src/kfiber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index 84f1c20..a5e6f2d 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -686,7 +686,7 @@ int kfiber_file_safe_read(kfiber_file * fp, char* buf, int length) {
 	kfiber* ret_fiber = NULL;
 	int ret = 0;
 	if (kfiber_create2(selector, kfiber_file_safe_read_func, &param, 0, 0, &ret_fiber) != 0) {
-		return false;
+		return -1;
 	}
 	assert(ret_fiber);
 	kfiber_join(ret_fiber, &ret);
-- 
2.43.0


From b330ec525181740f8f867a8b54f6ad326ee8ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 07/33] fix: room for a unix peer address in the listener,
 which accepted connections copy in full

---
 include/kserver.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/kserver.h b/include/kserver.h
index b704511..d159c73 100644
--- a/include/kserver.h
+++ b/include/kserver.h
@@ -68,7 +68,12 @@ struct kserver_selectable_s{
 #ifdef ACCEPT_SOCKET_SHUTDOWN_NO_EVENT
 	volatile int32_t hold_by_next_shutdown_refs;
 #endif
-	sockaddr_i accept_addr;
+	union {
+		sockaddr_i accept_addr;
+#ifdef KSOCKET_UNIX
+		struct sockaddr_un accept_un_addr;
+#endif
+	};
 	socklen_t addr_len;
 #ifdef _WIN32
 	char *tmp_addr_buf;
-- 
2.43.0


From 29199dbcba5e7d627620688a6a5f0802d6a631b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:20 +0000
Subject: [PATCH 08/33] fix: a connection made from a raw unix address keeps
 the address apart like any other

---
 src/kconnection.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/kconnection.c b/src/kconnection.c
index 915f9c7..7b12181 100644
--- a/src/kconnection.c
+++ b/src/kconnection.c
@@ -34,6 +34,15 @@ kconnection* kconnection_internal_new()
 kconnection* kconnection_new3(const struct sockaddr* addr, socklen_t addr_len)
 {
 	kconnection* c = kconnection_internal_new();
+#ifdef KSOCKET_UNIX
+	if (addr->sa_family == PF_UNIX) {
+		c->addr.u.sin_family = PF_UNIX;
+		c->addr.u.size = (short)sizeof(struct sockaddr_un);
+		c->addr.u.addr = (struct sockaddr *)kgl_pnalloc(c->pool, (int)c->addr.u.size);
+		memset(c->addr.u.addr, 0, c->addr.u.size);
+		memcpy(c->addr.u.addr, addr, KGL_MIN(addr_len, sizeof(struct sockaddr_un)));
+	} else
+#endif
 	kgl_memcpy(&c->addr, addr, KGL_MIN(addr_len,sizeof(sockaddr_i)));
 	return c;
 }
-- 
2.43.0


From bee2b4a1f3f8d93d8aa423b15019c335a6082173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 09/33] fix: kgl_ssl_certificate releases its reference on the
 certificate it loaded

---
 src/kgl_ssl.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index f94e225..3949cd3 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -629,14 +629,8 @@ int kgl_ssl_certificate(SSL_CTX* ctx, const kgl_ref_str_t* cert, const kgl_ref_s
 		sk_X509_pop_free(chain, X509_free);
 		return -1;
 	}
-	/*
-	 * Note that x509 is not freed here, but will be instead freed in
-	 * ngx_ssl_cleanup_ctx().  This is because we need to preserve all
-	 * certificates to be able to iterate all of them through exdata
-	 * (ngx_ssl_certificate_index, ngx_ssl_next_certificate_index),
-	 * while OpenSSL can free a certificate if it is replaced with another
-	 * certificate of the same type.
-	 */
+	/* the context holds its own reference */
+	X509_free(x509);
 
 #ifdef SSL_CTX_set0_chain
 	if (SSL_CTX_set0_chain(ctx, chain) == 0) {
-- 
2.43.0


From 9a1095bfe71ad55d7086d646f2adf09ae5bafff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 10/33] fix: a chain certificate that cannot be stored is freed

---
 src/kgl_ssl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index 3949cd3..5d1924d 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -540,6 +540,7 @@ static X509* kgl_ssl_load_certificate(const char** err, const kgl_ref_str_t* cer
 		if (sk_X509_push(*chain, temp) == 0) {
 			*err = "sk_X509_push() failed";
 			BIO_free(bio);
+			X509_free(temp);
 			X509_free(x509);
 			sk_X509_pop_free(*chain, X509_free);
 			return NULL;
-- 
2.43.0


From ac22fff3f0af99b3874a910523bc827c1758cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 11/33] fix: kgl_ssl_ctx_new_server2 accepts a key buffer that
 holds the certificate as well

---
 src/kgl_ssl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index 5d1924d..b5f8389 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -752,7 +752,7 @@ SSL_CTX* kgl_ssl_ctx_new_server2(const kgl_ref_str_t* cert_buffer, const kgl_ref
 		SSL_CTX_free(ctx);
 		return NULL;
 	}
-	kgl_ssl_session_id_context_from_buffer(ctx, cert_buffer->data);
+	kgl_ssl_session_id_context_from_buffer(ctx, cert_buffer ? cert_buffer->data : key_buffer->data);
 	return kgl_ssl_ctx_post_init(ctx, ca_path, ca_file, ssl_ctx_data);
 }
 SSL_CTX* kgl_ssl_ctx_new_server(const char* cert_file, const char* key_file, const char* ca_path, const char* ca_file, void* ssl_ctx_data) {
-- 
2.43.0


From 355bdc5635e2bd6260fd7f92d643de64b184b866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 12/33] fix: ask for the canonical name when a cname address is
 looked up

---
 src/kaddr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 69ed9f3..9f0e120 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -108,6 +108,7 @@ bool get_addr(const char *hostname, kgl_addr_type addr_type, struct addrinfo **r
 	case kgl_addr_cname:
 		f.ai_family = PF_INET;
 		f.ai_flags = AI_CANONNAME;
+		break;
 	default:
 		f.ai_family = PF_UNSPEC;
 		f.ai_flags = 0;
-- 
2.43.0


From 4bda6a45e6738b44e9ed1f65ce0d9ec65556d0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 13/33] fix: do not touch a pending lookup when an address
 refresh finishes

---
 src/kaddr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 9f0e120..6760bba 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -151,6 +151,14 @@ static void update_addr_cache(kgl_addr_key *key, struct addrinfo *addr) {
 		node->data = cn;
 	} else {
 		cn = (kgl_addr_node *)node->data;
+		if (cn->prev == NULL) {
+			//flushed while refreshing, and a new lookup is pending: it is not in addr_list
+			kmutex_unlock(&addr_lock);
+			if (addr) {
+				freeaddrinfo(addr);
+			}
+			return;
+		}
 		klist_remove(cn);
 	}
 	if (cn->addr != NULL) {
-- 
2.43.0


From 5b9a96ff8a1dc387d2d09587f7211fb8872138dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 14/33] fix: hold the resolved address until every waiter has
 its own reference

---
 src/kaddr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 6760bba..504d3b7 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -238,9 +238,14 @@ static void find_addr_result(kgl_addr_node *cn, struct addrinfo *addr, bool succ
 	kgl_addr *addr2 = NULL;
 	if (addr) {
 		addr2 = kgl_addr_new(addr);
+		//once cn is cached, it can be flushed by another thread
+		kgl_addr_refs(addr2);
 	}
 	queue = update_addr_node_cache(cn, addr2);
 	addr_result(queue, addr2);
+	if (addr2) {
+		kgl_addr_release(addr2);
+	}
 }
 
 kev_result async_addr_worker(void *data, int msec)
-- 
2.43.0


From 69d43d5127e4e6a0418fe00e8c0b10e4d7a16688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 15/33] fix: refuse a unix socket path that does not fit
 instead of leaving it unterminated

---
 src/kserver.c | 9 ++++++++-
 src/ksocket.c | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/kserver.c b/src/kserver.c
index d1d2e43..aa4cba6 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -221,7 +221,14 @@ bool kserver_bind(kserver *server, const char *ip, uint16_t port, kgl_ssl_ctx *s
 #endif
 	if (*ip=='/') {
 #ifdef KSOCKET_UNIX	
-		ksocket_unix_addr(ip,&server->un_addr);
+		if (ksocket_unix_addr(ip,&server->un_addr) != 0) {
+#ifdef KSOCKET_SSL
+			if (ssl_ctx) {
+				kgl_release_ssl_ctx(ssl_ctx);
+			}
+#endif
+			return false;
+		}
 #endif
 	} else if (!ksocket_getaddr(ip, port, 0, AI_NUMERICHOST, &server->addr)) {
 #ifdef KSOCKET_SSL
diff --git a/src/ksocket.c b/src/ksocket.c
index 3231654..2903ccd 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -242,6 +242,9 @@ SOCKET ksocket_listen(const sockaddr_i* addr, int flag) {
 int ksocket_unix_addr(const char* path, struct sockaddr_un* addr) {
 	memset(addr, 0, sizeof(struct sockaddr_un));
 	addr->sun_family = AF_UNIX;
+	if (strlen(path) >= sizeof(addr->sun_path)) {
+		return -1;
+	}
 	strncpy(addr->sun_path, path, sizeof(addr->sun_path));
 	return 0;
 }
-- 
2.43.0


From 8470f0f3da91e8304d4478678acc32910e6f29ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 16/33] fix: compare addresses and integers without overflow,
 so that the order is consistent

---
 include/ksocket.h | 6 +++---
 src/krbtree.c     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ksocket.h b/include/ksocket.h
index 434bdd2..f3d64b2 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -151,7 +151,7 @@ INLINE int ksocket_addr_compare(const sockaddr_i *a, const sockaddr_i *b)
 	}
 	if (a->v4.sin_family == PF_INET)
 #endif
-	return (int)a->v4.sin_addr.s_addr - (int)b->v4.sin_addr.s_addr;
+	return (a->v4.sin_addr.s_addr > b->v4.sin_addr.s_addr) - (a->v4.sin_addr.s_addr < b->v4.sin_addr.s_addr);
 #ifdef KSOCKET_IPV6
 	return memcmp(&a->v6.sin6_addr, &b->v6.sin6_addr, sizeof(a->v6.sin6_addr));
 #endif
@@ -191,11 +191,11 @@ INLINE int ksocket_ipaddr_compare(ip_addr *a, ip_addr *b)
 		return ret;
 	}
 	if (a->sin_family == PF_INET) {
-		return (int)a->addr32[0] - (int)b->addr32[0];
+		return (a->addr32[0] > b->addr32[0]) - (a->addr32[0] < b->addr32[0]);
 	}
 	return memcmp(a->addr8, b->addr8, sizeof(a->addr8));
 #else
-	return (int)*a - (int)*b;
+	return (*a > *b) - (*a < *b);
 #endif
 }
 INLINE int ksocket_addr_len(const sockaddr_i *addr) {
diff --git a/src/krbtree.c b/src/krbtree.c
index cb7c9ea..e173962 100644
--- a/src/krbtree.c
+++ b/src/krbtree.c
@@ -33,7 +33,7 @@ int rbtree_int_cmp(const void *key1, const void *key2)
 {
 	int *k1 = (int *)key1;
 	int *k2 = (int *)key2;
-	return *k1 - *k2;
+	return (*k1 > *k2) - (*k1 < *k2);
 }
 static inline void rb_set_parent(struct krb_node *rb, struct krb_node *p)
 {
-- 
2.43.0


From 93dd604a369b215ac6f4d841db021ad00de4151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 17/33] fix: hash only the words an IPv4 address has

---
 include/ksocket.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ksocket.h b/include/ksocket.h
index f3d64b2..c30afb0 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -115,6 +115,9 @@ struct ip_addr_s {
 	}
 	unsigned get_hash()
 	{
+		if (sin_family == PF_INET) {
+			return addr32[0];
+		}
 		unsigned h = 0;
 		for (int i = 0; i < 4; i++) {
 			h ^= addr32[i];
-- 
2.43.0


From d03bc1febe6c177a650f497daf57f682b42993fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 18/33] fix: ksocket_is_block told blocking sockets from
 non-blocking ones the wrong way round

---
 include/ksocket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ksocket.h b/include/ksocket.h
index c30afb0..64f4bc1 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -270,7 +270,7 @@ INLINE bool ksocket_is_block(SOCKET sockfd) {
 	return false;
 #else
 	int flags = fcntl(sockfd, F_GETFL, 0);
-	return (flags & O_NONBLOCK) > 0;
+	return (flags & O_NONBLOCK) == 0;
 #endif
 }
 void ksocket_startup();
-- 
2.43.0


From d5c6c5f488f5ba1e7f1b0fb50528ec07e4847511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:46 +0000
Subject: [PATCH 19/33] fix: wait for a socket with poll, select cannot take
 descriptors beyond FD_SETSIZE

---
 src/ksocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ksocket.c b/src/ksocket.c
index 2903ccd..3e11e38 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -310,7 +310,7 @@ bool wait_socket_event(SOCKET sockfd, bool is_write, int tmo) {
 	if (tmo <= 0) {
 		return true;
 	}
-#ifdef HAVE_POLL
+#ifndef _WIN32
 	struct pollfd poll_list;
 	poll_list.fd = sockfd;
 	if (is_write) {
-- 
2.43.0


From e98574cccbe6f806f01a534eb465e70208667721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 20/33] fix: alignment must not carry an allocation past the
 end of a pool block

---
 src/kmalloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kmalloc.c b/src/kmalloc.c
index beb0b3e..83458fb 100644
--- a/src/kmalloc.c
+++ b/src/kmalloc.c
@@ -54,7 +54,7 @@ static INLINE void* kgl_palloc_small(kgl_pool_t* pool, size_t size, size_t align
 			m = (char*)kgl_align_ptr(m, KGL_ALIGNMENT);
 		}
 
-		if ((size_t)(p->d.end - m) >= size) {
+		if (m <= p->d.end && (size_t)(p->d.end - m) >= size) {
 			p->d.last = m + size;
 
 			return m;
-- 
2.43.0


From 8a0da20188fc1ca96d82bc577ca4fca03dd5a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 21/33] fix: an array made for no elements gets room when it
 grows

---
 src/kmalloc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kmalloc.c b/src/kmalloc.c
index 83458fb..f63e6fb 100644
--- a/src/kmalloc.c
+++ b/src/kmalloc.c
@@ -286,14 +286,15 @@ void* kgl_array_push(kgl_array_t* a) {
 		} else {
 			/* allocate a new array */
 
-			new_elt = kgl_palloc(p, 2 * size);
+			size_t nalloc = a->nalloc ? 2 * a->nalloc : 1;
+			new_elt = kgl_palloc(p, nalloc * a->size);
 			if (new_elt == NULL) {
 				return NULL;
 			}
 
 			kgl_memcpy(new_elt, a->elts, size);
 			a->elts = new_elt;
-			a->nalloc *= 2;
+			a->nalloc = nalloc;
 		}
 	}
 
-- 
2.43.0


From a8ccb541d47893ecc665b4c39ea062aca1af637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 22/33] fix: krw_insert keeps the part of the old head that was
 read out of the buffer

---
 src/kbuf.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/kbuf.c b/src/kbuf.c
index c839c5b..b707919 100644
--- a/src/kbuf.c
+++ b/src/kbuf.c
@@ -36,7 +36,17 @@ void krw_insert(krw_buffer* rw_buffer, kbuf* buf) {
 		krw_append(rw_buffer, buf);
 		return;
 	}
-	buf->next = rw_buffer->head;
+	kbuf* old = rw_buffer->head;
+	int readed = (int)(rw_buffer->read_hot - old->data);
+	if (readed > 0) {
+		/* what was read of the old head must not be read again */
+		old->used -= readed;
+		kgl_memcpy(old->data, rw_buffer->read_hot, old->used);
+		if (old == rw_buffer->write_hot_buf && rw_buffer->write_hot) {
+			rw_buffer->write_hot -= readed;
+		}
+	}
+	buf->next = old;
 	rw_buffer->head = buf;
 	rw_buffer->total_len += buf->used;
 	rw_buffer->read_hot = rw_buffer->head->data;
-- 
2.43.0


From 5cf71517f77d4ed20557021fbc17237b00ddf04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 23/33] fix: an empty chunk at the head of a buffer hid the
 data behind it

---
 src/kbuf.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kbuf.c b/src/kbuf.c
index b707919..78580b3 100644
--- a/src/kbuf.c
+++ b/src/kbuf.c
@@ -86,6 +86,14 @@ int krw_get_read_buffers(krw_buffer* rw_buffer, LPWSABUF buffer, int buffer_coun
 		return 0;
 	}
 	kassert(rw_buffer->head);
+	while (rw_buffer->head->next && rw_buffer->read_hot == rw_buffer->head->data + rw_buffer->head->used) {
+		/* nothing to read here, but there may be behind it */
+		kbuf* next = rw_buffer->head->next;
+		xfree(rw_buffer->head->data);
+		xfree(rw_buffer->head);
+		rw_buffer->head = next;
+		rw_buffer->read_hot = next->data;
+	}
 	kbuf* tmp = rw_buffer->head;
 	buffer[0].iov_base = rw_buffer->read_hot;
 	buffer[0].iov_len = (int)(rw_buffer->head->used - (rw_buffer->read_hot - rw_buffer->head->data));
-- 
2.43.0


From c27b4aa6993528426ddd0603428c0ea4231156f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:01 +0000
Subject: [PATCH 24/33] fix: forget the main fiber of a thread when it is
 freed, so that the thread can run another event loop

---
 src/kfiber.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kfiber.c b/src/kfiber.c
index a5e6f2d..b6dd27b 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -178,6 +178,7 @@ kev_result kfiber_thread_init(KOPAQUE data, void* arg, int got) {
 		//exit
 		kfiber* fiber = kfiber_main();
 		if (fiber) {
+			pthread_setspecific(kgl_main_fiber_key, NULL);
 			xfree(fiber);
 		}
 		return kev_ok;
-- 
2.43.0


From 284848ae42b6282009c9e9621c43ed3fcfeaa01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:23 +0000
Subject: [PATCH 25/33] fix: release the aio context, its event descriptor and
 the lock with the epoll selector

---
 src/kepoll_selector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 995c1d6..41245f6 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -171,6 +171,9 @@ static void epoll_selector_destroy(kselector *selector)
 	kepoll_selector *es = (kepoll_selector *)selector->ctx;
 	close(es->kdpfd);
 	close(es->notice_st.st.fd);
+	kmutex_destroy(&es->notice_st.lock);
+	io_destroy(es->aio_st.aio_ctx);
+	close(es->aio_st.st.fd);
 	xfree(es);
 }
 
-- 
2.43.0


From ec7ace87925f392e81619a41c7b91c06df3d522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 26/33] fix: loops added by selector_manager_grow take over the
 configured timeouts

---
 src/kselector_manager.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 34e34fb..cab2242 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <string.h>
 #include "kselector_manager.h"
 #include "kselector.h"
 #include "klib.h"
@@ -259,6 +260,7 @@ bool selector_manager_grow(int  new_size) {
 	for (int i = kgl_selector_count; i < new_size; i++) {
 		kgl_selectors[i] = kselector_new(NULL);
 		kgl_selectors[i]->sid = i;
+		memcpy(kgl_selectors[i]->timeout, kgl_selectors[0]->timeout, sizeof(kgl_selectors[i]->timeout));
 		kselector_start(kgl_selectors[i]);
 	}
 	kgl_selector_count = new_size;
-- 
2.43.0


From e8eff4e2923e7299cbb1a45db9fc9015d2a16722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 27/33] fix: a UDP socket that has received nothing has no
 receive address

---
 src/kudp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kudp.c b/src/kudp.c
index 9502dcf..c7b83ac 100644
--- a/src/kudp.c
+++ b/src/kudp.c
@@ -83,7 +83,7 @@ kconnection* kudp_new2(int flags, kselector* st)
 #else
 		setsockopt(uc->st.fd, IPPROTO_IP, IP_PKTINFO, (const char*)&n, sizeof(int));
 #endif
-		uc->udp = xmemory_new(kudp_extend);
+		uc->udp = (kudp_extend*)xmemory_newz(sizeof(kudp_extend));
 	}
 	selectable_bind(&uc->st, st);
 	return uc;
-- 
2.43.0


From ec42544b5fffc39bc70dec76660658d227acab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 28/33] fix: ask for the receive address of IPv6 datagrams too

---
 src/kudp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kudp.c b/src/kudp.c
index c7b83ac..f3cfd63 100644
--- a/src/kudp.c
+++ b/src/kudp.c
@@ -82,6 +82,11 @@ kconnection* kudp_new2(int flags, kselector* st)
 		setsockopt(uc->st.fd, IPPROTO_IP, IP_SENDSRCADDR, (const char*)&n, sizeof(int));
 #else
 		setsockopt(uc->st.fd, IPPROTO_IP, IP_PKTINFO, (const char*)&n, sizeof(int));
+#endif
+#ifdef IPV6_RECVPKTINFO
+		if (domain == PF_INET6) {
+			setsockopt(uc->st.fd, IPPROTO_IPV6, IPV6_RECVPKTINFO, (const char*)&n, sizeof(int));
+		}
 #endif
 		uc->udp = (kudp_extend*)xmemory_newz(sizeof(kudp_extend));
 	}
-- 
2.43.0


From 7dc6c5f7f211f54f4566eeb9e92588581dc38d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:38 +0000
Subject: [PATCH 29/33] fix: release every exit callback and every joiner of a
 fiber's own handles

---
 src/kfiber.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index b6dd27b..e2e38d2 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -334,7 +334,7 @@ int kfiber_exit_callback(KOPAQUE data, result_callback notice, void* arg) {
 	kfiber* fiber = kfiber_self2();
 	CHECK_FIBER(fiber);
 	if (fiber->close_cond == NULL) {
-		fiber->close_cond = kfiber_cond_init(true);
+		fiber->close_cond = kfiber_cond_init(false);
 	}
 	return fiber->close_cond->f->wait_callback(fiber->close_cond, data, notice, arg);
 }
@@ -343,9 +343,9 @@ kfiber* kfiber_ref_self(bool thread_safe) {
 	assert(fiber && !kfiber_is_main_fiber(fiber));
 	if (fiber->close_cond == NULL) {
 		if (thread_safe) {
-			fiber->close_cond = kfiber_cond_init_ts(true);
+			fiber->close_cond = kfiber_cond_init_ts(false);
 		} else {
-			fiber->close_cond = kfiber_cond_init(true);
+			fiber->close_cond = kfiber_cond_init(false);
 		}
 	}
 	katom_inc((void*)&fiber->base.ref);
-- 
2.43.0


From 80e40942184b86c914dc5940c00e0366bafec4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:05 +0000
Subject: [PATCH 30/33] fix: kfiber_net_listen reports a failed listen

---
 src/kfiber.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index e2e38d2..f1ed29d 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -406,9 +406,10 @@ int kfiber_net_listen(kserver * server, int flag, kserver_selectable * *ss) {
 	kfiber* fiber = kfiber_self2();
 	CHECK_FIBER(fiber);
 	*ss = kserver_listen(server, flag, result_fiber_accept);
-	if (*ss) {
-		KBIT_SET(server->flags, KGL_SERVER_START);
+	if (*ss == NULL) {
+		return -1;
 	}
+	KBIT_SET(server->flags, KGL_SERVER_START);
 	return 0;
 }
 int kfiber_net_accept(kserver_selectable * ss, kconnection * *c) {
-- 
2.43.0


From d295019e865298bebe2a3a44465923c7bc119af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:05 +0000
Subject: [PATCH 31/33] fix: kfiber_net_accept reports an accept that gave no
 connection

---
 src/kfiber.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index f1ed29d..33f9822 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -424,9 +424,10 @@ int kfiber_net_accept(kserver_selectable * ss, kconnection * *c) {
 	//printf("accept filber=[%p] ss=[%p]\n", fiber, ss);
 	__kfiber_wait(fiber, (void*)ss->st.data);
 	*c = accept_result_new_connection(ss, fiber->retval);
-	if (*c) {
-		selectable_bind(&(*c)->st, ss->st.base.selector);
+	if (*c == NULL) {
+		return -1;
 	}
+	selectable_bind(&(*c)->st, ss->st.base.selector);
 	return 0;
 }
 int kfiber_net_getaddr(const char* hostname, kgl_addr * *addr) {
-- 
2.43.0


From 92f5fc17c57eed992298c3eb31080aa79619de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:49 +0000
Subject: [PATCH 32/33] fix: a read that goes on after a time-out uses the
 caller's buffers

---
 include/kfiber.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kfiber.h b/include/kfiber.h
index 27ba431..9b1bd6d 100644
--- a/include/kfiber.h
+++ b/include/kfiber.h
@@ -256,6 +256,8 @@ INLINE int kfiber_net_readv(kconnection * cn, kgl_iovec * buf, int bc) {
 		assert(cn->st.e[OP_READ].result == kfiber_result_callback);
 		//assert(cn->st.e[OP_READ].buffer == kfiber_buffer_callback);
 		assert(cn->st.e[OP_READ].arg == fiber);
+		/* the operation still goes on with the last call's buffers, give it ours */
+		cn->st.e[OP_READ].buffer = &iovec_buf;
 		return __kfiber_wait(fiber, cn->st.data);
 	}
 	return kfiber_wait_result(fiber, selectable_read(&cn->st, kfiber_result_callback, &iovec_buf, fiber), cn->st.data);
-- 
2.43.0


From ec5222be2304ccf5aef0a9db8c3ae5caacb42415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:19 +0000
Subject: [PATCH 33/33] fix: waiting for more TLS early data is not reported as
 the end of the stream

---
 src/kselectable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 9c3a704..d7119d1 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -84,7 +84,7 @@ static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 					continue;
 				}
 				if (n != SSL_READ_EARLY_DATA_SUCCESS) {
-					return got;
+					return (got > 0 ? got : -1);
 				}
 				got += (int)read_bytes;
 				len -= (int)read_bytes;
-- 
2.43.0

