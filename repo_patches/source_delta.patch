From ce81286c6d9f06ec54d5de89fc75664645aa30ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:03 +0000
Subject: [PATCH 01/68] fix: write database changes to disk instead of keeping
 them in memory until exit

---
 server/dbm.h     |  5 +++--
 server/icb_dbm.c | 11 +++++++++--
 server/icbdb.c   | 15 ++++++++++++++-
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/server/dbm.h b/server/dbm.h
index aaf90c5..c9d5606 100644
--- a/server/dbm.h
+++ b/server/dbm.h
@@ -17,8 +17,8 @@
  *     key[klen]  = key bytes
  *     val[vlen]  = value bytes
  *
- * Mutations are buffered in memory and flushed atomically on dbm_close()
- * (write-to-tmp + rename) so a crash never corrupts the file.
+ * Mutations are buffered in memory and flushed atomically on dbm_flush() and
+ * dbm_close() (write-to-tmp + rename) so a crash never corrupts the file.
  */
 
 #include <stddef.h>
@@ -39,6 +39,7 @@ typedef struct icb_dbm DBM;
 /* ---- public API ---- */
 DBM  *dbm_open(const char *file, int flags, int mode);
 void  dbm_close(DBM *db);
+int   dbm_flush(DBM *db);
 datum dbm_fetch(DBM *db, datum key);
 int   dbm_store(DBM *db, datum key, datum content, int flags);
 int   dbm_delete(DBM *db, datum key);
diff --git a/server/icb_dbm.c b/server/icb_dbm.c
index 0bedf2b..a718b6b 100644
--- a/server/icb_dbm.c
+++ b/server/icb_dbm.c
@@ -11,8 +11,9 @@
  *               internal buffer valid until the next fetch.
  * - dbm_store() updates the in-memory table and marks it dirty.
  * - dbm_delete() removes from memory and marks dirty.
- * - dbm_close() flushes dirty state to disk (write-to-tmp + rename for
- *               crash safety), then frees all memory.
+ * - dbm_flush() writes dirty state to disk (write-to-tmp + rename for
+ *               crash safety) and keeps the table open.
+ * - dbm_close() flushes dirty state to disk, then frees all memory.
  *
  * File format (little-endian, ".db" suffix appended to the base name):
  *   Header  = magic[4] + entry_count[4]          (8 bytes)
@@ -329,6 +330,12 @@ DBM *dbm_open(const char *file, int flags, int mode)
     return db;
 }
 
+int dbm_flush(DBM *db)
+{
+    if (!db) return -1;
+    return flush_file(db);
+}
+
 void dbm_close(DBM *db)
 {
     if (!db) return;
diff --git a/server/icbdb.c b/server/icbdb.c
index 0009b60..be37f94 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -62,11 +62,24 @@ icbdb_open (void)
 void
 icbdb_close (void)
 {
-    if (--open_count > 0 || !icbdb_multiuser)
+    if (--open_count > 0)
     {
         return;
     }
 
+    if (!icbdb_multiuser)
+    {
+        /*
+         * The database stays open, but what was changed has to reach the
+         * disk: nothing else writes it before the server exits.
+         */
+        if (db != NULL && dbm_flush (db) < 0)
+        {
+            vmdb (MSG_ERR, "User Database Flush: %s", strerror(errno));
+        }
+        return;
+    }
+
     if (db != NULL)
     {
         dbm_close (db);
-- 
2.43.0


From 22ccfda661def289f3e00ff426f4c66d48d41766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:03 +0000
Subject: [PATCH 02/68] fix: do not count a failed database open as open

---
 server/icbdb.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/icbdb.c b/server/icbdb.c
index be37f94..62b6e3a 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -53,7 +53,10 @@ icbdb_open (void)
     if (db == NULL)
     {
         if ((db = dbm_open (USERDB, O_RDWR, ICBDB_MODE)) == NULL)
+        {
             vmdb (MSG_ERR, "User Database Open: %s", strerror(errno));
+            open_count--;    /* the caller won't close what didn't open */
+        }
     }
 
     return (db != NULL);
-- 
2.43.0


From f496961c0bc2a1bf5e01b0603a15011444e9cc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:17 +0000
Subject: [PATCH 03/68] fix: cap a fetched database value at the size of the
 buffer it is copied to

---
 server/icbdb.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/icbdb.c b/server/icbdb.c
index 62b6e3a..972a31e 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -143,6 +143,9 @@ icbdb_get (const char *category, const char *attribute, icbdb_type type,
               data.dsize, data.dptr);
 
         if (value != NULL) {
+            /* a longer value can only come from a damaged file */
+            if (data.dsize > (int) sizeof (databuf) - 1)
+                data.dsize = sizeof (databuf) - 1;
             bcopy (data.dptr, databuf, data.dsize);
             databuf[data.dsize] = '\0';
 
-- 
2.43.0


From 1c1f0da24ffc0d3196cb6ee736cd515070952434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:17 +0000
Subject: [PATCH 04/68] fix: treat a failed close or rename of the database
 temporary as a failed write, and free a table that failed to load

---
 server/icb_dbm.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/server/icb_dbm.c b/server/icb_dbm.c
index a718b6b..179a1db 100644
--- a/server/icb_dbm.c
+++ b/server/icb_dbm.c
@@ -275,9 +275,17 @@ static int flush_file(struct icb_dbm *db)
     }
 
     if (fsync(fd) < 0)   goto fail;
-    close(fd);
+    if (close(fd) < 0) {
+        unlink(tmp);
+        free(tmp);
+        return -1;
+    }
 
-    if (rename(tmp, db->path) < 0) { free(tmp); return -1; }
+    if (rename(tmp, db->path) < 0) {
+        unlink(tmp);
+        free(tmp);
+        return -1;
+    }
     free(tmp);
     db->dirty = 0;
     return 0;
@@ -320,6 +328,14 @@ DBM *dbm_open(const char *file, int flags, int mode)
     if (load_file(db) < 0) {
         int save_errno = errno;
         /* Free everything we allocated */
+        for (unsigned i = 0; i < db->nbuckets; i++) {
+            entry_t *e = db->buckets[i];
+            while (e) {
+                entry_t *next = e->next;
+                entry_free(e);
+                e = next;
+            }
+        }
         free(db->buckets);
         free(db->path);
         free(db);
-- 
2.43.0


From 1a0185ac1e1d07341aa761fb80f0b0cc1cc9bc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:34 +0000
Subject: [PATCH 05/68] fix: keep packet framing and a requested disconnect
 when a packet is sent in between

---
 pktserv/pktserv.c   | 10 +++++++---
 pktserv/pktsocket.c | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index f4c657d..a024d1c 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -340,12 +340,16 @@ pollfd_state_machine(struct pollfd* pollfd)
                             g_pktserv_cb.dispatch(cbuf->fd, cbuf->rbuf->data);
                             _msgbuf_free(cbuf->rbuf);
                             cbuf->rbuf = NULL;
-                            /* ready for the next packet */
-                            cbuf->state = WANT_HEADER;
+                            /* ready for the next packet, unless the
+                             * dispatch has left us something else to do */
+                            if (cbuf->state == COMPLETE_PACKET)
+                                cbuf->state = WANT_HEADER;
                         }
                     }
                 }
-                if (!TAILQ_EMPTY(&(cbuf->wlist))) {
+                if (!TAILQ_EMPTY(&(cbuf->wlist)) &&
+                    cbuf->state != WANT_DISCONNECT &&
+                    cbuf->state != WANT_RAW_DISCONNECT) {
                     /* cycle back to want write if there's stuff left */
                     cbuf->state = WANT_WRITE;
                 }
diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index 53be7a1..e3f59f9 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -152,8 +152,10 @@ int pktsocket_read(cbuf_t *cbuf)
     ssize_t result;
     size_t remain;
 
-    /* try to read the header unless we've already done that */
-    if (cbuf->state == WANT_HEADER) {
+    /* try to read the header unless we've already done that. (the state
+     * can't tell us: a send in the middle of a packet changes it.)
+     */
+    if (cbuf->newmsg) {
 
         /* set up our packet buffer */
         if ( (cbuf->rbuf = _msgbuf_alloc(cbuf->rbuf, MAX_PKT_LEN)) == NULL) {
@@ -263,6 +265,7 @@ int pktsocket_read(cbuf_t *cbuf)
 
     if ((remain - result) == 0) {
         cbuf->state = COMPLETE_PACKET;
+        cbuf->newmsg = 1;
 
         /* nail down the end of the read string */
         *(cbuf->rbuf->pos) = '\0';
@@ -370,6 +373,7 @@ int pktsocket_write(cbuf_t* cbuf)
              cbuf->fd, cbuf->wlist_size);
     }
 
-    cbuf->state = WANT_HEADER;
+    /* carry on reading where we were */
+    cbuf->state = cbuf->newmsg ? WANT_HEADER : WANT_READ;
     return 0;
 }
-- 
2.43.0


From 26d3eaefcc462bc0ba7d03bfae50304761f9b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:35 +0000
Subject: [PATCH 06/68] fix: do not spin on, or keep forever, a client that
 cannot be written to

---
 pktserv/pktserv.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index a024d1c..4f3dd9e 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -307,18 +307,21 @@ pollfd_state_machine(struct pollfd* pollfd)
                 return;
 
             case WANT_SSL_WRITE:    /* need to retry the SSL write */
-                if (readable || writeable)
-                    pktsocket_write(cbuf);
+                if (readable || writeable) {
+                    if (pktsocket_write(cbuf) < 0)
+                        cbuf->state = WANT_DISCONNECT;
+                }
                 return;
 
             case WANT_WRITE:        /* we have pending writes. This can be a new SSL write. */
-                if (writeable) {
-                    pktsocket_write(cbuf);
-                }
-                if (readable && (cbuf->state == WANT_READ || cbuf->state == WANT_HEADER)) {
-                    /* pktsocket_write() may have set this to BLOCKED */
-                    cbuf->disp = OK;
+                if (!writeable)
+                    return;
+                if (pktsocket_write(cbuf) < 0) {
+                    cbuf->state = WANT_DISCONNECT;
+                    break;
                 }
+                if (!TAILQ_EMPTY(&(cbuf->wlist)))
+                    return;    /* would block. wait until it's writeable. */
                 break;
 
             case IDLE:              /* not doing anything. got some network data */
-- 
2.43.0


From 09afb6d505db53ced0a8971b3d0f845f0488dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:35 +0000
Subject: [PATCH 07/68] fix: report the loss of a client once, only if it was
 announced, and close it at once

---
 pktserv/pktserv.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 4f3dd9e..ec42f16 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -263,12 +263,21 @@ pollfd_state_machine(struct pollfd* pollfd)
          * transitions to WANT_DISCONNECT. Notify upper layers here so login/
          * group bookkeeping (e.g. sign-off messages) still runs.
          */
+        if (cbuf->state == LISTEN_SOCKET || cbuf->state == LISTEN_SOCKET_SSL) {
+            handle_disconnect(cbuf);
+            return;
+        }
+        /* (they only know about clients that were announced to them, and
+         * must be told once) */
         if (g_pktserv_cb.lost_client &&
-            cbuf->state != LISTEN_SOCKET &&
-            cbuf->state != LISTEN_SOCKET_SSL) {
+            cbuf->state != ACCEPTED &&
+            cbuf->state != WANT_SSL_ACCEPT &&
+            cbuf->state != WANT_RAW_DISCONNECT &&
+            cbuf->state != DISCONNECTED) {
             g_pktserv_cb.lost_client(cbuf->fd);
         }
         handle_disconnect(cbuf);
+        handle_raw_disconnect(cbuf);
         return;
     }
 
-- 
2.43.0


From 5d4616cad73a8c10aff7121f3109f17867ecac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:35 +0000
Subject: [PATCH 08/68] fix: do not process stale pollset entries after one was
 removed

---
 pktserv/pktserv.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index ec42f16..e5db697 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -407,8 +407,14 @@ handle_pollfds(void)
             g_pollset[i].fd, g_pollset[i].events, g_pollset[i].revents);
     }
 #endif
-    for (i = 0; i < pollsetsize; i++)
+    for (i = 0; i < pollsetsize; ) {
+        int fd = g_pollset[i].fd;
         pollfd_state_machine(&g_pollset[i]);
+        if (i < g_pollsetsize && g_pollset[i].fd == fd)
+            i++;
+        else
+            pollsetsize--; /* it's gone, and those behind it moved down */
+    }
 }
 
 
-- 
2.43.0


From df85520078f32092a2d14fbc93e567b7191b2c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:29 +0000
Subject: [PATCH 09/68] fix: drop a client that is to be disconnected even if
 it does not read

---
 pktserv/pktserv.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index e5db697..2529888 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -459,11 +459,15 @@ int pktserv_init(char *config, pktserv_cb_t *cb)
  * (pending data or SSL handshake/write retry).  Leaving POLLOUT set
  * on idle connections causes poll() to return immediately — spinning
  * the CPU at 100 %.
+ *
+ * Returns 1 if there's work that doesn't depend on socket readiness, so
+ * poll() must not wait.
  */
-static void
+static int
 update_pollfd_events(void)
 {
     int i;
+    int pending = 0;
     for (i = 0; i < g_pollsetsize; i++) {
         int fd = g_pollset[i].fd;
         if (fd < 0 || fd >= MAX_USERS)
@@ -481,11 +485,15 @@ update_pollfd_events(void)
             case WANT_SSL_WRITE:
             case WANT_SSL_ACCEPT:
                 /* These states need write-readiness notification. */
+                events |= POLLOUT;
+                break;
             case WANT_DISCONNECT:
             case WANT_RAW_DISCONNECT:
                 /* Disconnects should be processed promptly even if
-                 * the remote side has gone quiet. */
+                 * the remote side has gone quiet and its socket is
+                 * not writeable. */
                 events |= POLLOUT;
+                pending = 1;
                 break;
             default:
                 break;
@@ -493,6 +501,8 @@ update_pollfd_events(void)
 
         g_pollset[i].events = events;
     }
+
+    return pending;
 }
 
 /* 
@@ -509,6 +519,7 @@ pktserv_run(void)
     int ret;
     long loopcount = 0;
     int poll_timeout;
+    int pending;
 
     if (POLL_TIMEOUT < 0) 
         poll_timeout = 0;
@@ -522,16 +533,17 @@ pktserv_run(void)
     for (;;) {
         loopcount++;
 
-        update_pollfd_events();
-        ret = poll(g_pollset, g_pollsetsize, poll_timeout); // millisec
+        pending = update_pollfd_events();
+        ret = poll(g_pollset, g_pollsetsize, pending ? 0 : poll_timeout); // millisec
         if (ret < 0) {
+            pending = 0;    /* the revents weren't set */
             if (errno == EINTR)
                 ret = 0;
             else
                 vmdb(MSG_ERR, "%s: %s", __FUNCTION__, strerror(errno));
         }
 
-        if (ret > 0) {
+        if (ret > 0 || (ret == 0 && pending)) {
             handle_pollfds();
         }
 
-- 
2.43.0


From 9e7920dba31d7a4f84a01f00277b223796746366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:01 +0000
Subject: [PATCH 10/68] fix: act on SSL input that needed a retry or that was
 read from the socket together with earlier input

---
 pktserv/pktserv.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 2529888..3eb1b25 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -236,6 +236,28 @@ delete_pollfd(int fd)
 }
 
 
+/*
+ * Is there input that the SSL layer has taken from the socket already and
+ * that we're ready to read? poll() doesn't know about that.
+ */
+static int
+ssl_data_pending(cbuf_t *cbuf)
+{
+#ifdef HAVE_SSL
+    switch (cbuf->state) {
+        case IDLE:
+        case WANT_HEADER:
+        case WANT_READ:
+        case WANT_SSL_READ:
+            return (cbuf->ssl_con != NULL && SSL_pending(cbuf->ssl_con) > 0);
+        default:
+            break;
+    }
+#endif
+    return 0;
+}
+
+
 /*
  * State machine to process pollfd's.
  */
@@ -282,7 +304,7 @@ pollfd_state_machine(struct pollfd* pollfd)
     }
 
 
-    readable = pollfd->revents & POLLIN;
+    readable = (pollfd->revents & POLLIN) || ssl_data_pending(cbuf);
     writeable = pollfd->revents & POLLOUT;
     if (readable || writeable) {
         cbuf->disp = OK;
@@ -310,11 +332,6 @@ pollfd_state_machine(struct pollfd* pollfd)
                     sslsocket_accept(cbuf);
                 return;
 
-            case WANT_SSL_READ:     /* need to retry the SSL read */
-                if (readable || writeable)
-                    pktsocket_read(cbuf);
-                return;
-
             case WANT_SSL_WRITE:    /* need to retry the SSL write */
                 if (readable || writeable) {
                     if (pktsocket_write(cbuf) < 0)
@@ -341,6 +358,7 @@ pollfd_state_machine(struct pollfd* pollfd)
 
             case WANT_HEADER:       /* need to read a new packet header */
             case WANT_READ:         /* in the middle of a read. read more network data. */
+            case WANT_SSL_READ:     /* need to retry the SSL read */
                 if (readable) {
                     int ok2read = 1;
                     if (g_pktserv_cb.ok2read) {
@@ -496,6 +514,8 @@ update_pollfd_events(void)
                 pending = 1;
                 break;
             default:
+                if (ssl_data_pending(cbuf))
+                    pending = 1;
                 break;
         }
 
-- 
2.43.0


From 681162426edd2454cd681a8eb289a1a70e2781fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:01 +0000
Subject: [PATCH 11/68] fix: do not take a stale errno, or an empty packet, for
 SSL retry conditions

---
 pktserv/pktsocket.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index e3f59f9..8f09dad 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -172,8 +172,8 @@ int pktsocket_read(cbuf_t *cbuf)
 
         /* did we get an error or a partial read? */
         if (result < 0) {
-            if (errno == EWOULDBLOCK) {
-                /* incomplete read - sslsocket_read() will never return this. */
+            if (!cbuf->is_ssl && errno == EWOULDBLOCK) {
+                /* incomplete read */
                 return 0;
             }
             vmdb(MSG_ERR, "fd%d%s: Couldn't read header packet.", cbuf->fd, 
@@ -229,6 +229,12 @@ int pktsocket_read(cbuf_t *cbuf)
 
     /* read as much of the command packet as we can get */
     remain = cbuf->rbuf->len - (cbuf->rbuf->pos - cbuf->rbuf->data);
+    if (remain == 0) {
+        /* a packet without a type. nothing to read would look like EOF on a
+         * cleartext connection, and like anything at all on an SSL one. */
+        cbuf->state = WANT_DISCONNECT;
+        return -1;
+    }
     if (cbuf->is_ssl) {
         result = sslsocket_read(cbuf, cbuf->rbuf->pos, remain);
     } else {
@@ -237,8 +243,8 @@ int pktsocket_read(cbuf_t *cbuf)
 
     /* did we get an error? */
     if (result < 0) {
-        if (errno == EWOULDBLOCK) {
-            /* incomplete read - read_ssl() will never return this. */
+        if (!cbuf->is_ssl && errno == EWOULDBLOCK) {
+            /* incomplete read */
             cbuf->state = WANT_READ;
             return 0;
         }
@@ -333,8 +339,8 @@ int pktsocket_write(cbuf_t* cbuf)
 
         /* did we have an error? */
         if ( result < 0 ) {
-            if (errno == EWOULDBLOCK) {
-                /* incomplete write - write_ssl() will never return this. */
+            if (!cbuf->is_ssl && errno == EWOULDBLOCK) {
+                /* incomplete write */
                 cbuf->state = WANT_WRITE;
                 cbuf->retries++;
                 return 0;
-- 
2.43.0


From 4345f9ed31c13b428ebb2d870be2c931cb0139f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:01 +0000
Subject: [PATCH 12/68] fix: do not let one client's SSL errors end another's
 connection, and drop a client without an SSL state

---
 pktserv/sslsocket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pktserv/sslsocket.c b/pktserv/sslsocket.c
index 62d2aa2..49a5c12 100644
--- a/pktserv/sslsocket.c
+++ b/pktserv/sslsocket.c
@@ -84,11 +84,13 @@ int sslsocket_accept(cbuf_t *cbuf)
         cbuf->ssl_con = SSL_new(ctx);
         if (cbuf->ssl_con == NULL) {
             vmdb(MSG_ERR, "sslsocket_accept: fd%d: couldn't create ssl_con.", cbuf->fd);
+            cbuf->state = WANT_RAW_DISCONNECT;
             return -1;
         }
         SSL_set_fd(cbuf->ssl_con, cbuf->fd);
     }
 
+    ERR_clear_error();    /* SSL_get_error() looks at the whole thread's queue */
     result = SSL_accept(cbuf->ssl_con);
     if (result == 1) {
         vmdb(MSG_INFO,
@@ -177,6 +179,7 @@ int sslsocket_read(cbuf_t *cbuf, void *buf, size_t nbytes)
 {
     int result, ssl_error;
 
+    ERR_clear_error();    /* SSL_get_error() looks at the whole thread's queue */
     result = SSL_read(cbuf->ssl_con, buf, nbytes);
     if (result > 0) {
         /* successful write, but we need to check to see if we need to
@@ -259,6 +262,7 @@ int sslsocket_write(cbuf_t *cbuf, void *buf, size_t nbytes)
 {
     int result, ssl_error;
 
+    ERR_clear_error();    /* SSL_get_error() looks at the whole thread's queue */
     result = SSL_write(cbuf->ssl_con, buf, nbytes);
     if (result > 0) {
         /* successful write, but we need to check to see if we need to
-- 
2.43.0


From e4a392147ee7365e5a9f771d4b35236b0f41cb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:01 +0000
Subject: [PATCH 13/68] fix: do not spin while an SSL client has not begun its
 handshake

---
 pktserv/pktserv.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 3eb1b25..deb5022 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -501,10 +501,16 @@ update_pollfd_events(void)
                  * banner before the client sends anything. */
             case WANT_WRITE:
             case WANT_SSL_WRITE:
-            case WANT_SSL_ACCEPT:
                 /* These states need write-readiness notification. */
                 events |= POLLOUT;
                 break;
+            case WANT_SSL_ACCEPT:
+                /* The client speaks first; until it does we'd spin. */
+#ifdef HAVE_SSL
+                if (cbuf->ssl_con != NULL && SSL_want_write(cbuf->ssl_con))
+                    events |= POLLOUT;
+#endif
+                break;
             case WANT_DISCONNECT:
             case WANT_RAW_DISCONNECT:
                 /* Disconnects should be processed promptly even if
-- 
2.43.0


From 4eb256d5c0aa2fbbd05270d973795fa70c211316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:01 +0000
Subject: [PATCH 14/68] fix: close an accepted socket that cannot be made
 non-blocking

---
 pktserv/pktsocket.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index 8f09dad..c282ea1 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -111,6 +111,7 @@ int pktsocket_accept(cbuf_t *listen_cbuf)
     /* make the socket non-blocking */
     if (fcntl(ns, F_SETFL, FNDELAY) < 0) {
         vmdb(MSG_WARN, "pktsocket_accept::fcntl(FNDELAY) - %s", strerror(errno));
+        close(ns);
         return -1;
     }
 
-- 
2.43.0


From 24530c99f514f517d76ff026ccfb50ed9b98d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:56 +0000
Subject: [PATCH 15/68] fix: do not write behind getword()'s buffer

---
 server/strutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/strutil.c b/server/strutil.c
index a0083fd..d6c7700 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -224,7 +224,7 @@ char *getword(char *s)
 {
     static char word[64];
     char *w = word;
-    while (*s != ' ' && *s != '\t' && *s != '\0' && ((w - word) < 64))
+    while (*s != ' ' && *s != '\t' && *s != '\0' && ((w - word) < (int)sizeof(word) - 1))
         *w++ = *s++;
     *w = '\0';
     return(word);
-- 
2.43.0


From b41494b64b73b85138e003d053a436ad880795cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:56 +0000
Subject: [PATCH 16/68] fix: do not write behind the array of packet fields

---
 server/strutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/strutil.c b/server/strutil.c
index d6c7700..7593480 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -268,7 +268,7 @@ int split(char *s)
          * is all cleaned up, we just stop at the MAX_FIELDS
          * which is only slightly better.
          */
-        if ( i > MAX_FIELDS )
+        if ( i >= MAX_FIELDS )
             return (MAX_FIELDS);
 
         /* find delim or EOS */
-- 
2.43.0


From f6a1874b4a46311fb4cd03e900c8789f33c78858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:48 +0000
Subject: [PATCH 17/68] fix: end a connection whose login failed, and do not
 act on its input meanwhile

---
 server/dispatch.c |  7 +++++++
 server/ipcf.c     | 11 +++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/server/dispatch.c b/server/dispatch.c
index 346f4de..6e05d6b 100644
--- a/server/dispatch.c
+++ b/server/dispatch.c
@@ -11,6 +11,7 @@
 #include "send.h"
 #include "msgs.h"
 #include "mdb.h"
+#include "ipcf.h"
 
 /* dispatch()
  *
@@ -23,6 +24,10 @@
  */ 
 void dispatch(int n, char *pkt)
 {
+    /* somebody who's being dumped has nothing to say anymore */
+    if (n < MAX_REAL_USERS && S_kill[n] > 0)
+        return;
+
     switch(*pkt) {
 
     case ICB_M_LOGIN:
@@ -35,6 +40,8 @@ void dispatch(int n, char *pkt)
         if(loginmsg(n, ++pkt) < 0) {
             /* login failed.  dump them */
             sendexit(n);
+            /* they don't hold a nickname (or anything else) meanwhile */
+            s_lost_user(n);
             /*
              * we set S_kill since we want to make sure
              * error msgs reach them before the disconnect
diff --git a/server/ipcf.c b/server/ipcf.c
index 5c475c6..0bcbc55 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -75,13 +75,12 @@ void s_didpoll(int n)
         }
 
         for(i=0;i<MAX_REAL_USERS;i++) {
-            if ( u_tab[i].login > LOGIN_FALSE ) {
-                if (S_kill[i] > 0) {
-                    sprintf(mbuf, "[KILL] killing %d (%d)", i, S_kill[i]);
-                    mdb(MSG_INFO, mbuf);
+            if (S_kill[i] > 0) {
+                sprintf(mbuf, "[KILL] killing %d (%d)", i, S_kill[i]);
+                mdb(MSG_INFO, mbuf);
+                if ( u_tab[i].login > LOGIN_FALSE )
                     server_stats.drops++;
-                    pktserv_disconnect(i);
-                }
+                pktserv_disconnect(i);
             }
         }
 
-- 
2.43.0


From 787f0ea22c926b0a75c028ca475b77ff5859bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:48 +0000
Subject: [PATCH 18/68] fix: give up the moderatorships of a user lost before
 entering a group, and announce only the sign-off of users who signed on

---
 server/ipcf.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 0bcbc55..4345dd8 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -379,12 +379,14 @@ int s_lost_user(int n)         /* n = fd of that user */
     ucaseit(one);
     strcpy(three, u_tab[n].nickname);
     ucaseit(three);
+    ogi = find_group(t_grp);
     for (j = 0; j < MAX_USERS; j++) {
-        if ((n != j) && (u_tab[j].login > LOGIN_FALSE)) {
+        /* (nobody was told of somebody who did not complete the login) */
+        if ((n != j) && (u_tab[j].login > LOGIN_FALSE) &&
+            (u_tab[n].login >= LOGIN_COMPLETE) && (ogi >= 0)) {
             if ((nlmatch(three, *u_tab[j].n_notifies) ||
                  nlmatch(one, *u_tab[j].s_notifies)) &&
-                (g_tab[find_group(u_tab[n].group)].visibility != 
-                 SUPERSECRET)) {
+                (g_tab[ogi].visibility != SUPERSECRET)) {
                 /* ignore warning about 'one' being possibly truncated
                  * when copying into 'two'.
                  */
@@ -406,13 +408,12 @@ int s_lost_user(int n)         /* n = fd of that user */
     /* find out what group they are in */
     /* note: they may be moderator of a group they are NOT in */
 
-    ogi = find_group(t_grp);
-    if (ogi < 0) return -1;
-
     /* check if there are any users left in present group */
     num_left = count_users_in_group(t_grp);
 
-    if ( num_left > 0) {
+    if (ogi < 0) {
+        /* they hadn't got into a group yet */
+    } else if ( num_left > 0) {
         /* tell remaining group members user left */
         TheTime = time(NULL);
         if (is_killed > 0)
@@ -467,6 +468,10 @@ int s_lost_user(int n)         /* n = fd of that user */
                 g_tab[was_mod].modtimeout = TheTime + MOD_TIMEOUT;
             }
         }
+        else {
+            /* nobody there to take over. the slot must not stay mod. */
+            g_tab[was_mod].mod = -1;
+        }
     }
     return 0;
 }
-- 
2.43.0


From 647ee829a72d0d1ef11a1bb1e7c83a2704e06398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:48 +0000
Subject: [PATCH 19/68] fix: check the nickname that will be used for
 uniqueness at login

---
 server/msgs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index 01838e4..c3d0f59 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -380,6 +380,9 @@ int loginmsg(int n, char *pkt)
     {
         /* regular login */
 
+        /* get rid of nasty characters in the nickname */
+        filternickname(fields[1]);
+
         /* make sure the nickname hasn't already been taken */
         if (find_user(fields[1]) >= 0)
         {
@@ -506,9 +509,6 @@ int loginmsg(int n, char *pkt)
             mdb(MSG_ERR, mbuf);
         }
 
-        /* get rid of nasty characters in the nickname */
-        filternickname(fields[1]);
-
         /* fill in what we can */
         fill_user_entry(n, fields[0], cp, fields[1],
                         fields[4], "", "", LOGIN_FALSE, 0, 0, perms);
-- 
2.43.0


From 152d1ac9882d9724baf28275c84fb62cbee756e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:48 +0000
Subject: [PATCH 20/68] fix: do not use a field of an earlier packet as the
 login password

---
 server/msgs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/msgs.c b/server/msgs.c
index c3d0f59..ab03e5a 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -511,7 +511,8 @@ int loginmsg(int n, char *pkt)
 
         /* fill in what we can */
         fill_user_entry(n, fields[0], cp, fields[1],
-                        fields[4], "", "", LOGIN_FALSE, 0, 0, perms);
+                        (num_fields > 4) ? fields[4] : "", "", "",
+                        LOGIN_FALSE, 0, 0, perms);
 
         sprintf(mbuf, "[LOGIN] %d: %s@%s", n, fields[0], cp);
         mdb(MSG_INFO, mbuf);
-- 
2.43.0


From 109ee1c3f6ff1120f96030154110a0dd67370db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:48 +0000
Subject: [PATCH 21/68] fix: do not sprintf between overlapping fields

---
 server/msgs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/msgs.c b/server/msgs.c
index ab03e5a..5dcdcf3 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -369,7 +369,7 @@ int loginmsg(int n, char *pkt)
 
         /* if we got a groupname, use it */
         if ( num_fields >= 3 && fields[2][0] != '\0' )
-            sprintf (fields[1], "%s%c", fields[2], 0);
+            memmove (fields[1], fields[2], strlen (fields[2]) + 1);
         else
             fields[1][0] = '\000';
 
-- 
2.43.0


From 1304344ee387cc1e5a779a2b89d803be4fb7f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 22/68] fix: refuse a login to the group of a user who is in
 none

---
 server/msgs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/msgs.c b/server/msgs.c
index 5dcdcf3..4617dae 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -544,7 +544,7 @@ int loginmsg(int n, char *pkt)
             {
                 int    g = find_group(u_tab[target_user].group);
 
-                if ( ((g_tab[g].visibility == SUPERSECRET)
+                if ( g < 0 || ((g_tab[g].visibility == SUPERSECRET)
                       || (g_tab[g].visibility == SECRET))
                      && (strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)))
                 {
-- 
2.43.0


From 3db77f3cc94dcc9ec7799c013d48484ba7107c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 23/68] fix: do not count the previous user's open messages
 against a new one

---
 server/msgs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/msgs.c b/server/msgs.c
index 4617dae..d70e5c6 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -564,6 +564,7 @@ int loginmsg(int n, char *pkt)
         u_tab[n].t_on = TheTime;
         u_tab[n].t_recv = TheTime;
         u_tab[n].t_sent = TheTime;
+        u_recv_count[n] = 0;
         nlclear(u_tab[n].pri_n_hushed);
         nlinit(u_tab[n].pri_n_hushed, MAX_HUSHED);
         nlclear(u_tab[n].pub_n_hushed);
-- 
2.43.0


From d6166941cbc1dffde441040a8e898d339e94770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 24/68] fix: do not write into an earlier packet when booting

---
 server/ipcf.c | 7 +++++--
 server/msgs.c | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 4345dd8..c9f8d4b 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -235,6 +235,7 @@ void s_didpoll(int n)
             if ( strcasecmp (u_tab[i].group, IDLE_GROUP) != 0
                  && g_tab[gi].idleboot > 0 ) {
                 const char    *bootmsg = IDLE_BOOT_MSG;
+                static char    boot_group[MAX_GROUPLEN+1];
 
                 if ( g_tab[gi].idleboot_msg[0] != '\0' )
                     bootmsg = g_tab[gi].idleboot_msg;
@@ -298,8 +299,10 @@ void s_didpoll(int n)
                         }
                     }
 
-                    /* fake an s_change to group IDLE_GROUP */
-                    strcpy (fields[1], IDLE_GROUP);
+                    /* fake an s_change to group IDLE_GROUP. (fields[] are
+                     * those of an earlier packet, or none) */
+                    strcpy (boot_group, IDLE_GROUP);
+                    fields[1] = boot_group;
                     is_booting = 1;
                     s_change(i, 2);
                     is_booting = 0;
diff --git a/server/msgs.c b/server/msgs.c
index d70e5c6..d094202 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -212,14 +212,17 @@ void openmsg(int n, char *pkt)
                 if ( u_recv_count[n] > 2 )
                 {
                     extern int is_booting;
+                    static char boot_group[MAX_GROUPLEN+1];
 
                     /* tell 'em it happened. */
                     sendstatus(n, "Boot", "No spamming in group 1.");
                     sprintf(mbuf,"%s was auto-booted for spamming.",
                             u_tab[n].nickname);
                     s_status_group(1,1,n, "Boot", mbuf);
-                    /* fake an s_change to group ICB */
-                    strcpy (fields[1], "ICB");
+                    /* fake an s_change to group ICB. (fields[] are those
+                     * of an earlier packet, or none) */
+                    strcpy (boot_group, "ICB");
+                    fields[1] = boot_group;
                     is_booting = 1;
                     s_change(n, 2);
                     is_booting = 0;
-- 
2.43.0


From 88cbd6f942f9083ee2ce1906fc495ef3c6b845d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 25/68] fix: do not look up the name of an absent moderator

---
 server/msgs.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index d094202..fb989fe 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -261,10 +261,13 @@ void openmsg(int n, char *pkt)
             {
                 senderror (n,
                            "You do not have permission to send open messages in this group.");
-                sprintf (mbuf,
-                         "Use \"/m %s may i talk?\" to request permission.",
-                         u_tab[g_tab[gi].mod].nickname);
-                sendstatus (n, "INFO", mbuf);
+                if (g_tab[gi].mod >= 0)
+                {
+                    sprintf (mbuf,
+                             "Use \"/m %s may i talk?\" to request permission.",
+                             u_tab[g_tab[gi].mod].nickname);
+                    sendstatus (n, "INFO", mbuf);
+                }
             }
             else if (count_users_in_group(g_tab[gi].name) < 2)
                 senderror(n,
-- 
2.43.0


From c8dd15ecf6dfeadca6d3cc1e6be543d425b6f1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 26/68] fix: do not use an earlier packet's fields when a
 packet has none

---
 server/msgs.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index fb989fe..e95a5b0 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -277,8 +277,7 @@ void openmsg(int n, char *pkt)
             }
         }
     } else {
-        vmdb(MSG_INFO, "%d: cannot send open messages until logged in (%s)",
-             n, fields[0]);
+        vmdb(MSG_INFO, "%d: cannot send open messages until logged in", n);
     }
 }
 
@@ -771,6 +770,15 @@ void cmdmsg(int n, char *pkt)
 
         argc = split(pkt);
 
+        /* without an argument, don't leave an earlier packet's there */
+        if (argc < 2)
+        {
+            static char no_arg[MAX_PKT_LEN];
+
+            no_arg[0] = '\0';
+            fields[1] = no_arg;
+        }
+
         if (strcmp(fields[0], "m") == 0)
             sprintf(mbuf, "[COMMAND] %d: %s %s", n, fields[0],
                     getword(fields[1]));
@@ -929,9 +937,7 @@ void cmdmsg(int n, char *pkt)
     } 
     else 
     {
-        sprintf (mbuf,
-                 "%d: cannot issue command until logged in (%s)",
-                 n, fields[0]);
+        sprintf (mbuf, "%d: cannot issue command until logged in", n);
         mdb(MSG_INFO, mbuf);
     }
 }
-- 
2.43.0


From 4c94448b61aaf12687454261af5e647efacc114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:55 +0000
Subject: [PATCH 27/68] fix: do not look up the visibility of the group of a
 user who is in none

---
 server/s_group.c | 5 +++--
 server/s_who.c   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index 7879d54..eae8174 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -160,7 +160,7 @@ int s_change(int n, int argc)
     int is_moderator;
     int visibility;
     int is_invited;
-    int target_user;
+    int target_user, target_group;
     int ngi, ogi; /* new and old group indices */
     int len, how_many, i;
     char n_g_n[MAX_GROUPLEN+3]; /* new group name */
@@ -220,7 +220,8 @@ if failure, message given and return is -1
                 senderror(n, "User not found.");
                 return(-1);
             }
-            else if (g_tab[find_group(u_tab[target_user].group)].visibility != VISIBLE)
+            else if ((target_group = find_group(u_tab[target_user].group)) < 0
+                     || g_tab[target_group].visibility != VISIBLE)
             {
                 senderror(n, "User not found.");
                 return(-1);
diff --git a/server/s_who.c b/server/s_who.c
index 3ae839a..1422c06 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -356,7 +356,7 @@ int s_who(int n, int argc)
     int len;
     int how_many;
     int flags;
-    int target_user;
+    int target_user, target_group;
     char tgrp[MAX_GROUPLEN + 1];
     char * cp;
 
@@ -408,7 +408,8 @@ int s_who(int n, int argc)
                     senderror(n, "User not found.");
                     return -1;
                 } else {
-                    if ((g_tab[find_group(u_tab[target_user].group)].visibility == SUPERSECRET) && (strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN))) {
+                    target_group = find_group(u_tab[target_user].group);
+                    if ((target_group < 0) || ((g_tab[target_group].visibility == SUPERSECRET) && (strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)))) {
                         senderror(n, "User not found.");
                         return -1;
                     } else {
-- 
2.43.0


From d464173be7e86861b04223f3a7626bf3b23f98f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:55 +0000
Subject: [PATCH 28/68] fix: do not write behind the sorted list when listing
 users or groups

---
 server/s_who.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/s_who.c b/server/s_who.c
index 1422c06..49cddcf 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -104,7 +104,7 @@ void pgm_long(int n, int which)
                            u_tab[user_list[i]].t_group)
 #endif
                         i++;
-                for (j = (users + 1); j > i; j--)
+                for (j = users; j > i; j--)
                     user_list[j] = user_list[j - 1];
                 user_list[i] = user;
             }
@@ -312,7 +312,7 @@ void doAll(int n, int flags)
                 while ((i < groups) && (strcasecmp(g_tab[group].name,
                                                    g_tab[group_list[i]].name) > 0))
                     i++;
-                for (j = (groups + 1); j > i; j--)
+                for (j = groups; j > i; j--)
                     group_list[j] = group_list[j - 1];
                 group_list[i] = group;
             }
-- 
2.43.0


From b14adec4d502caaa6bcf1adf24e16939ee8ad2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:55 +0000
Subject: [PATCH 29/68] fix: make room for all the flags of a user in a listing

---
 server/s_who.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/s_who.c b/server/s_who.c
index 49cddcf..8a7b614 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -77,7 +77,7 @@ void pgm_long(int n, int which)
     int gpmod;
     int num_users;
     char cp[5];
-    char status[8];
+    char status[16];
     int nr = 0, aw = 0, sec=0;
     int user_list[MAX_REAL_USERS];
     int i, j;
-- 
2.43.0


From 47bed28b8134484c563a4a043c91ccae1f2f8906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:55 +0000
Subject: [PATCH 30/68] fix: do not write behind the moderator's name in a
 group listing

---
 server/s_who.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/s_who.c b/server/s_who.c
index 8a7b614..121c2b6 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -202,7 +202,7 @@ void print_group_header(int n, int grp)
             strcpy(TheMod, "(None)");
         else {
             TheTime = time(NULL);
-            sprintf(TheMod, "%s (%d)", g_tab[grp].missingmod, 
+            snprintf(TheMod, sizeof(TheMod), "%s (%d)", g_tab[grp].missingmod, 
                     (int) (g_tab[grp].modtimeout - TheTime));
         }
     else
-- 
2.43.0


From 273d2318a645f1c1ec377d72d5ecd67a71c24a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:55 +0000
Subject: [PATCH 31/68] fix: do not read behind a pattern with an unclosed
 character class

---
 server/wildmat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/wildmat.c b/server/wildmat.c
index 99367b0..f8d4781 100644
--- a/server/wildmat.c
+++ b/server/wildmat.c
@@ -98,9 +98,12 @@ DoMatch(char *text, char *p)
                         matched = TRUE;
                 for (last = *p; *++p && *p != ']'; last = *p)
                     /* This next line requires a good C compiler. */
-                    if (*p == '-' && p[1] != ']'
+                    if (*p == '-' && p[1] != ']' && p[1] != '\0'
                         ? *text <= *++p && *text >= last : *text == *p)
                         matched = TRUE;
+                if (*p == '\0')
+                    /* The class is not closed. */
+                    return ABORT;
                 if (matched == reverse)
                     return FALSE;
                 continue;
-- 
2.43.0


From 99f4488e2b6fda13c86cfec16af19e3f423ff385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:55 +0000
Subject: [PATCH 32/68] fix: compare the administrator's password exactly

---
 server/access.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/access.c b/server/access.c
index db81a41..8944caa 100644
--- a/server/access.c
+++ b/server/access.c
@@ -79,7 +79,7 @@ int check_auth(int n)
     auth = 0;
     if (strcasecmp(u_tab[n].nickname, "ADMIN") == 0)
         auth++;
-    if (strcasecmp(u_tab[n].password, ADMIN_PWD) == 0)
+    if (strcmp(u_tab[n].password, ADMIN_PWD) == 0)
         auth++;
     sprintf(mbuf, "Checking authorization of %s: %s",
             u_tab[n].nickname, auth == 2 ? "yes" : "no");
-- 
2.43.0


From 68124f7d13ce6a6b47bda91d0bd3bc0e61438f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:55 +0000
Subject: [PATCH 33/68] fix: make room for an idle-boot message of the longest
 length accepted

---
 server/server.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.h b/server/server.h
index 21b89bd..6d62714 100644
--- a/server/server.h
+++ b/server/server.h
@@ -99,7 +99,7 @@ typedef struct {
     int	size;		/* how many people are allowed */
     int	idleboot;	/* how idle people can be before booted */
 #define	IDLEBOOT_MSG_LEN	(79-15-MAX_NICKLEN+2)
-    char	idleboot_msg[IDLEBOOT_MSG_LEN];
+    char	idleboot_msg[IDLEBOOT_MSG_LEN+1];
     /* max length of the message so it'll fit on
      * one line. 79=line length,
      * 15=strlen([=Idle-Boot=] )
-- 
2.43.0


From ddd0bcca824198b210d242a9a45c9b78e027112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:55 +0000
Subject: [PATCH 34/68] fix: do not write behind the name of a news file

---
 server/s_news.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/s_news.c b/server/s_news.c
index 5cf0af6..de31399 100644
--- a/server/s_news.c
+++ b/server/s_news.c
@@ -62,7 +62,7 @@ int s_news(int n, int argc)
         if (first == 0)
             sendstatus(n, "News", "No news.");
     } else {
-        sprintf(fname, "news.%s", fields[1]);
+        snprintf(fname, sizeof(fname), "news.%s", fields[1]);
         if ((news_fd = open(fname, O_RDONLY)) >= 0) {
             sends_cmdout(n, "--------------------------------------");
             memset(tbuf, 0, 255);
-- 
2.43.0


From 374757bf426465815623a42d272aeee1705f9627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:55 +0000
Subject: [PATCH 35/68] fix: do not use an address that could not be determined

---
 server/s_info.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/s_info.c b/server/s_info.c
index 1927c90..5a19d58 100644
--- a/server/s_info.c
+++ b/server/s_info.c
@@ -52,10 +52,10 @@ int s_info(int n, int argc)
             idle = time(NULL) - u_tab[TheirIndex].t_recv;
 
             aw = (strlen(u_tab[TheirIndex].awaymsg) > 0);
-            getpeername(TheirIndex, (struct sockaddr*)&rs, &rs_size);
 
             /* Get numeric IP address string (works for both IPv4 and IPv6) */
-            if (getnameinfo((struct sockaddr *)&rs, rs_size,
+            if (getpeername(TheirIndex, (struct sockaddr*)&rs, &rs_size) != 0 ||
+                getnameinfo((struct sockaddr *)&rs, rs_size,
                             addrstr, sizeof(addrstr), NULL, 0,
                             NI_NUMERICHOST) != 0) {
                 snprintf(addrstr, sizeof(addrstr), "(unknown)");
-- 
2.43.0


From 48a2abf9bf0dd3017e54898e5b23070ff601bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:48 +0000
Subject: [PATCH 36/68] fix: do not give a client the user table entry of the
 server

---
 server/send.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/send.c b/server/send.c
index ab12279..57cd824 100644
--- a/server/send.c
+++ b/server/send.c
@@ -190,9 +190,10 @@ void s_new_user(int n, int secure)
 {
     char *cp;
 
-    /* Check bounds: file descriptor must be < MAX_USERS to use as array index */
-    if (n < 0 || n >= MAX_USERS) {
-        vmdb(MSG_ERR, "s_new_user: invalid file descriptor %d (must be 0-%d), closing connection", n, MAX_USERS - 1);
+    /* Check bounds: file descriptor must be < MAX_REAL_USERS, as the entry
+     * of NICKSERV is not a client's */
+    if (n < 0 || n >= MAX_REAL_USERS) {
+        vmdb(MSG_ERR, "s_new_user: invalid file descriptor %d (must be 0-%d), closing connection", n, MAX_REAL_USERS - 1);
         pktserv_disconnect(n);
         return;
     }
-- 
2.43.0


From 6f3b9028146c62542826e258a8cd7ceaa0423475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:48 +0000
Subject: [PATCH 37/68] fix: do not use a text with an away message in it as a
 format

---
 server/s_person.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/server/s_person.c b/server/s_person.c
index d7f03e3..dd28c38 100644
--- a/server/s_person.c
+++ b/server/s_person.c
@@ -122,8 +122,7 @@ void away_handle (int src, int dest)
                          t->tm_hour > 11 ? "pm" : "am",
                          u_tab[dest].awaymsg);
 
-                snprintf(mbuf, MAX_PKT_DATA, tbuf, u_tab[dest].nickname);
-                sends_cmdout(dest, mbuf);
+                sends_cmdout(dest, tbuf);
             }
         }
     }
-- 
2.43.0


From 5ef415799ae2be473e27105f52617c1bf791f701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:48 +0000
Subject: [PATCH 38/68] fix: give the 5 minutes' warning of a shutdown in more
 than 5 minutes

---
 server/s_admin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/s_admin.c b/server/s_admin.c
index f2b8c2e..c3f9258 100644
--- a/server/s_admin.c
+++ b/server/s_admin.c
@@ -112,7 +112,7 @@ int s_shutdown(int n, int argc)
                 sendimport(user,"Shutdown", line);
         TimeToDie = time(NULL) + 60.0 * atol(fields[1]);
         ShutdownNotify = 0;
-        if (atol(fields[1]) < 300)
+        if (atol(fields[1]) < 5)
             ShutdownNotify++;
     } else {
         mdb(MSG_INFO, "shutdown: wrong number of parz");
-- 
2.43.0


From 5ca2d82fa701ef27eb88a87946493384263300cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:48 +0000
Subject: [PATCH 39/68] fix: terminate the nickname in a whois report

---
 server/access.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/access.c b/server/access.c
index 8944caa..ff7135b 100644
--- a/server/access.c
+++ b/server/access.c
@@ -546,7 +546,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
 {
     char           line[255];
     char           temp[255];
-    char           nickstr[MAX_NICKLEN+1];
+    char           nickstr[MAX_NICKLEN+1] = "";
     char           *value;
     int            retval;
     int            count = 0;
-- 
2.43.0


From 77806eea90148ef1fbf2abe18d8e8a2e2ff91fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:48 +0000
Subject: [PATCH 40/68] fix: do not use a name of the talk list after it was
 deleted

---
 server/s_group.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/s_group.c b/server/s_group.c
index eae8174..0e802d8 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -2131,6 +2131,7 @@ fields[1] is nickname of person to invite
                     int        count,
                             i;
                     char    *cp;
+                    char    name[256];
 
                     nl = g_tab[gi].n_talk;
                     count = nlcount(*nl);
@@ -2138,6 +2139,9 @@ fields[1] is nickname of person to invite
                     {
                         cp = nlget (nl);
                         if (cp && *cp) {
+                            /* the list's copy goes away */
+                            snprintf (name, sizeof (name), "%s", cp);
+                            cp = name;
                             if ( talk_delete (cp, gi) > 0
                                  && quiet == 0 )
                             {
@@ -2153,6 +2157,9 @@ fields[1] is nickname of person to invite
                     {
                         cp = nlget (nl);
                         if (cp && *cp) {
+                            /* the list's copy goes away */
+                            snprintf (name, sizeof (name), "%s", cp);
+                            cp = name;
                             if ( talk_delete (cp, gi) > 0
                                  && quiet == 0 )
                             {
-- 
2.43.0


From ff69cc722778179c5f4d16c572ffe813c5a0be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:15 +0000
Subject: [PATCH 41/68] fix: refuse idle times that do not fit

---
 server/s_group.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index 0e802d8..a23773b 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -8,6 +8,7 @@
 #ifdef HAVE_TIME_H
 #include <time.h>
 #endif
+#include <limits.h>
 #include <stdlib.h>
 #include <assert.h>
 #include <string.h>
@@ -1489,7 +1490,9 @@ visible.
                                 }
                                 else
                                 {
-                                    int new_ib = atoi (p2) * 60;
+                                    int new_ib = atoi (p2);
+
+                                    new_ib = (new_ib < 0 || new_ib > INT_MAX / 60) ? -1 : new_ib * 60;
 
 #ifdef MAX_IDLE
                                     if ( new_ib < 0 || new_ib > MAX_IDLE )
@@ -1603,7 +1606,9 @@ visible.
                                 }
                                 else
                                 {
-                                    int new_im = atoi (p2) * 60;
+                                    int new_im = atoi (p2);
+
+                                    new_im = (new_im < 0 || new_im > INT_MAX / 60) ? -1 : new_im * 60;
 
                                     if ( new_im == 0 )
                                     {
-- 
2.43.0


From 05375423ff08cc68f31d9bf80401b5970fdc94e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:15 +0000
Subject: [PATCH 42/68] fix: do not let /exclude talk in a controlled group
 without permission

---
 server/s_group.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/server/s_group.c b/server/s_group.c
index a23773b..d8e9cad 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -1871,6 +1871,22 @@ int s_exclude(int n, int argc)
                 return 0;
             }
 
+            if (gi != -1 && g_tab[gi].control == CONTROLLED
+                && g_tab[gi].mod != n
+                && nlpresent(u_tab[n].nickname, *g_tab[gi].n_talk) == 0
+                && (strlen(u_tab[n].realname) == 0
+                    || nlpresent(u_tab[n].nickname, *g_tab[gi].nr_talk) == 0)) {
+                senderror (n,
+                           "You do not have permission to send open messages in this group.");
+                if (g_tab[gi].mod >= 0) {
+                    sprintf (mbuf,
+                             "Use \"/m %s may i talk?\" to request permission.",
+                             u_tab[g_tab[gi].mod].nickname);
+                    sendstatus (n, "INFO", mbuf);
+                }
+                return 0;
+            }
+
             strcpy(my_group, u_tab[n].group);
             sprintf(one, "%s@%s", u_tab[n].loginid, u_tab[n].nodeid);
             ucaseit(one);
-- 
2.43.0


From 4fe92671e5c0b4fc49a7e6c4eeab4fd1f3788d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:01 +0000
Subject: [PATCH 43/68] fix: terminate text that fills its buffer when it is
 filtered for sending

---
 server/send.c | 52 +++++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/server/send.c b/server/send.c
index 57cd824..764ae1d 100644
--- a/server/send.c
+++ b/server/send.c
@@ -32,8 +32,8 @@ char packetbuffer[MAX_PKT_LEN]; /* packet buffer */
 /* send an error message to the client */
 void senderror(int to, const char *message)
 {
-    char msgbuf[MAX_PKT_DATA];
-    filtertext(message, msgbuf, MAX_PKT_DATA);
+    char msgbuf[MAX_PKT_DATA] = "";
+    filtertext(message, msgbuf, sizeof(msgbuf) - 1);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s",
             ICB_M_ERROR, msgbuf);
     doSend(-1, to);
@@ -43,11 +43,11 @@ void senderror(int to, const char *message)
 void sendperson(int from, int to, const char *message)
 {
 
-    char nickbuf[MAX_NICKLEN+1];
-    char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
+    char nickbuf[MAX_NICKLEN+1] = "";
+    char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1] = "";
 
-    filtertext(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filtertext(u_tab[from].nickname, nickbuf, sizeof(nickbuf) - 1);
+    filtertext(message, msgbuf, sizeof(msgbuf) - 1);
 
     char one[255], two[MAX_NICKLEN+1];
     snprintf(one, 255, "%s@%s", u_tab[from].loginid, u_tab[from].nodeid);
@@ -71,11 +71,11 @@ void sendperson(int from, int to, const char *message)
 /* send normal open group message to the client */
 void sendopen(int from, int to, const char *message)
 {
-    char nickbuf[MAX_NICKLEN+1];
-    char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
+    char nickbuf[MAX_NICKLEN+1] = "";
+    char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1] = "";
 
-    filtertext(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filtertext(u_tab[from].nickname, nickbuf, sizeof(nickbuf) - 1);
+    filtertext(message, msgbuf, sizeof(msgbuf) - 1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s",
             ICB_M_OPEN, nickbuf, msgbuf);
@@ -104,11 +104,11 @@ void sendping(int to, const char *who)
 void sendstatus(int to, const char *status, const char *message)
 {
 #define MAX_STATUS_LEN 20
-    char statusbuf[MAX_STATUS_LEN+1];
-    char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];
+    char statusbuf[MAX_STATUS_LEN+1] = "";
+    char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1] = "";
 
-    filtertext(status, statusbuf, MAX_STATUS_LEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
+    filtertext(status, statusbuf, sizeof(statusbuf) - 1);
+    filtertext(message, msgbuf, sizeof(msgbuf) - 1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_STATUS, statusbuf, msgbuf);
@@ -118,9 +118,9 @@ void sendstatus(int to, const char *status, const char *message)
 /* send "end of command" to the client */
 void send_cmdend(int to, const char *message)
 {
-    char msgbuf[MAX_PKT_DATA-4];
+    char msgbuf[MAX_PKT_DATA-4] = "";
 
-    filtertext(message, msgbuf, MAX_PKT_DATA-4);
+    filtertext(message, msgbuf, sizeof(msgbuf) - 1);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001\001%s", 
              ICB_M_CMDOUT, "ec", msgbuf);
     doSend(-1, to);
@@ -129,9 +129,9 @@ void send_cmdend(int to, const char *message)
 /* send simple command output message to the client */
 void sends_cmdout(int to, const char *message)
 {
-    char msgbuf[MAX_PKT_DATA-3];
+    char msgbuf[MAX_PKT_DATA-3] = "";
 
-    filtertext(message, msgbuf, MAX_PKT_DATA-3);
+    filtertext(message, msgbuf, sizeof(msgbuf) - 1);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_CMDOUT, "co", msgbuf);
     doSend(-1, to);
@@ -143,11 +143,11 @@ void sends_cmdout(int to, const char *message)
  */
 void send_person_stored(int to, const char* fromNick, const char *message)
 {
-    char nickbuf[MAX_NICKLEN+1];
-    char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
+    char nickbuf[MAX_NICKLEN+1] = "";
+    char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1] = "";
 
-    filtertext(fromNick, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filtertext(fromNick, nickbuf, sizeof(nickbuf) - 1);
+    filtertext(message, msgbuf, sizeof(msgbuf) - 1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s",
             ICB_M_PERSONAL, nickbuf, msgbuf);
@@ -239,11 +239,11 @@ void send_loginok(int to)
 void sendimport(int to, const char *status, const char *message)
 {
 #define MAX_STATUS_LEN 20
-    char statusbuf[MAX_STATUS_LEN+1];
-    char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];
+    char statusbuf[MAX_STATUS_LEN+1] = "";
+    char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1] = "";
 
-    filtertext(status, statusbuf, MAX_STATUS_LEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
+    filtertext(status, statusbuf, sizeof(statusbuf) - 1);
+    filtertext(message, msgbuf, sizeof(msgbuf) - 1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_IMPORTANT, statusbuf, msgbuf);
-- 
2.43.0


From 9dd284e149617229fcd50008f80638eefdd94133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:45 +0000
Subject: [PATCH 44/68] fix: do not copy the password given at login onto
 itself

---
 server/access.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/access.c b/server/access.c
index ff7135b..73808a3 100644
--- a/server/access.c
+++ b/server/access.c
@@ -503,7 +503,8 @@ int nickwrite(int forWhom, char *password, int verifyOnly, DBM *openDb)
             sendstatus(forWhom, "Register", "Nick registered");
             strcpy(u_tab[forWhom].realname, "registered");
             nickwritetime(forWhom, 0, NULL);
-            strcpy(u_tab[forWhom].password, password); /* jonl */
+            if (password != u_tab[forWhom].password) /* as it is at login */
+                strcpy(u_tab[forWhom].password, password); /* jonl */
             for (i = 1; i < MAX_GROUPS; i++)
                 if ((g_tab[i].modtimeout > 0.0) &&
                     (strcmp(g_tab[i].missingmod, 
-- 
2.43.0


From a33154e05417287e4b43e2078fce7d39081ce107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:24 +0000
Subject: [PATCH 45/68] fix: do not open the log file again when it is open

---
 server/s_admin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/s_admin.c b/server/s_admin.c
index c3f9258..f2a788f 100644
--- a/server/s_admin.c
+++ b/server/s_admin.c
@@ -42,7 +42,7 @@ int s_log(int n, int argc)
             if (new_level < 0)
                 new_level = 0;
 
-            if (new_level > 0 && log_level == 0) {
+            if (new_level > 0 && icbd_log < 0) {
                 icbopenlogs(0);
             } else if (new_level == 0 && log_level > 0) {
                 icbcloselogs(0);
-- 
2.43.0


From cc93603e378ee6619e174b8db6dffdb17464966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:23 +0000
Subject: [PATCH 46/68] fix: do not spin on a client that has input pending
 while it cannot be written to

---
 pktserv/pktserv.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index deb5022..46ff2ef 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -333,7 +333,7 @@ pollfd_state_machine(struct pollfd* pollfd)
                 return;
 
             case WANT_SSL_WRITE:    /* need to retry the SSL write */
-                if (readable || writeable) {
+                if (pollfd->revents & (POLLIN | POLLOUT)) {
                     if (pktsocket_write(cbuf) < 0)
                         cbuf->state = WANT_DISCONNECT;
                 }
@@ -499,10 +499,19 @@ update_pollfd_events(void)
                 /* Freshly accepted: the state machine must run
                  * immediately so the server can send the protocol
                  * banner before the client sends anything. */
+                events |= POLLOUT;
+                break;
             case WANT_WRITE:
+                /* This state needs write-readiness notification. Nothing
+                 * is read until the pending data is out. */
+                events = POLLOUT;
+                break;
             case WANT_SSL_WRITE:
-                /* These states need write-readiness notification. */
-                events |= POLLOUT;
+                events = POLLOUT;
+#ifdef HAVE_SSL
+                if (cbuf->ssl_con != NULL && SSL_want_read(cbuf->ssl_con))
+                    events = POLLIN;
+#endif
                 break;
             case WANT_SSL_ACCEPT:
                 /* The client speaks first; until it does we'd spin. */
-- 
2.43.0


From cd6f250df11c20c5252273164b5ef6626bae9aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:38 +0000
Subject: [PATCH 47/68] fix: whereis Server reports no connection's address as
 the server's own

---
 server/s_info.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/s_info.c b/server/s_info.c
index 5a19d58..c8f48fc 100644
--- a/server/s_info.c
+++ b/server/s_info.c
@@ -54,7 +54,8 @@ int s_info(int n, int argc)
             aw = (strlen(u_tab[TheirIndex].awaymsg) > 0);
 
             /* Get numeric IP address string (works for both IPv4 and IPv6) */
-            if (getpeername(TheirIndex, (struct sockaddr*)&rs, &rs_size) != 0 ||
+            if (TheirIndex >= MAX_REAL_USERS ||
+                getpeername(TheirIndex, (struct sockaddr*)&rs, &rs_size) != 0 ||
                 getnameinfo((struct sockaddr *)&rs, rs_size,
                             addrstr, sizeof(addrstr), NULL, 0,
                             NI_NUMERICHOST) != 0) {
-- 
2.43.0


From 175c671b830be1a340060cdb078a5ea08af9f173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:38 +0000
Subject: [PATCH 48/68] fix: /restart reads back what it dumped

---
 server/icbutil.c | 247 ++++++++++++++++++++++-------------------------
 1 file changed, 116 insertions(+), 131 deletions(-)

diff --git a/server/icbutil.c b/server/icbutil.c
index 8adaac7..adcaf84 100644
--- a/server/icbutil.c
+++ b/server/icbutil.c
@@ -80,20 +80,42 @@ void icbexit(int sig)
 }
 
 
-/* icbdump
+/* strings are dumped with their length in front, because they can contain
+ * anything the users have sent us.
+ */
+static void dumpstr(FILE *dump, const char *str)
+{
+    fprintf(dump, "%d:%s\n", (int)strlen(str), str);
+}
+
+static void loadstr(FILE *dump, char *str, size_t size)
+{
+    int len = 0, i, c;
+
+    fscanf(dump, "%d", &len);
+    fgetc(dump);    /* the colon */
+    for (i = 0; i < len && (c = fgetc(dump)) != EOF; i++)
+        if ((size_t)i < size - 1)
+            str[i] = c;
+    str[(size_t)i < size ? (size_t)i : size - 1] = '\0';
+}
+
+/* icbdumpstate
  *
  * dump the current state to a file so if we restart we can pick up
  * where we left off.
+ *
+ * returns 0 on success, -1 if the state couldn't be written
  */
-void icbdump(int sig)
+int icbdumpstate(void)
 {
     FILE *dump;
-    int i, j, k;
+    int i, j, k, failed;
 
     vmdb(MSG_ALL, "dumping current state to %s...", dumpfile);
     if ((dump = fopen(dumpfile, "w")) == NULL) {
         vmdb(MSG_ERR, "%s open: %s", dumpfile, strerror(errno));
-        return;
+        return -1;
     }
 
     pktserv_dumpsockets(dump);
@@ -103,13 +125,13 @@ void icbdump(int sig)
 
     for (i = 0; i < MAX_USERS; i++)
     {
-        fprintf(dump, "%sX\n", u_tab[i].loginid);
-        fprintf(dump, "%sX\n", u_tab[i].nodeid);
-        fprintf(dump, "%sX\n", u_tab[i].nickname);
-        fprintf(dump, "%sX\n", u_tab[i].password);
-        fprintf(dump, "%sX\n", u_tab[i].realname);
-        fprintf(dump, "%sX\n", u_tab[i].group);
-        fprintf(dump, "%sX\n", u_tab[i].awaymsg);
+        dumpstr(dump, u_tab[i].loginid);
+        dumpstr(dump, u_tab[i].nodeid);
+        dumpstr(dump, u_tab[i].nickname);
+        dumpstr(dump, u_tab[i].password);
+        dumpstr(dump, u_tab[i].realname);
+        dumpstr(dump, u_tab[i].group);
+        dumpstr(dump, u_tab[i].awaymsg);
         fprintf(dump, "%d\n", u_tab[i].lastaway);
         fprintf(dump, "%ld\n", u_tab[i].lastawaytime);
         fprintf(dump, "%d\n", u_tab[i].login);
@@ -125,107 +147,124 @@ void icbdump(int sig)
         fprintf(dump, "%d\n", k);
         if (k > 0)
             for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(u_tab[i].pri_n_hushed));
+                dumpstr(dump, nlget(u_tab[i].pri_n_hushed));
         k = nlcount(*u_tab[i].pub_n_hushed);
         fprintf(dump, "%d\n", k);
         if (k > 0)
             for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(u_tab[i].pub_n_hushed));
+                dumpstr(dump, nlget(u_tab[i].pub_n_hushed));
         k = nlcount(*u_tab[i].pri_s_hushed);
         fprintf(dump, "%d\n", k);
         if (k > 0)
             for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(u_tab[i].pri_s_hushed));
+                dumpstr(dump, nlget(u_tab[i].pri_s_hushed));
         k = nlcount(*u_tab[i].pub_s_hushed);
         fprintf(dump, "%d\n", k);
         if (k > 0)
             for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(u_tab[i].pub_s_hushed));
+                dumpstr(dump, nlget(u_tab[i].pub_s_hushed));
         k = nlcount(*u_tab[i].n_notifies);
         fprintf(dump, "%d\n", k);
         if (k > 0)
             for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(u_tab[i].n_notifies));
+                dumpstr(dump, nlget(u_tab[i].n_notifies));
         k = nlcount(*u_tab[i].s_notifies);
         fprintf(dump, "%d\n", k);
         if (k > 0)
             for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(u_tab[i].s_notifies));
+                dumpstr(dump, nlget(u_tab[i].s_notifies));
     }
 
     for (i = 0; i < MAX_GROUPS; i++)
     {
-        fprintf(dump, "%sX\n", g_tab[i].name);
-        fprintf(dump, "%sX\n", g_tab[i].topic);
+        dumpstr(dump, g_tab[i].name);
+        dumpstr(dump, g_tab[i].topic);
         fprintf(dump, "%d\n", g_tab[i].visibility);
         fprintf(dump, "%d\n", g_tab[i].control);
         fprintf(dump, "%d\n", g_tab[i].mod);
         fprintf(dump, "%ld\n", g_tab[i].modtimeout);
-        fprintf(dump, "%sX\n", g_tab[i].missingmod);
+        dumpstr(dump, g_tab[i].missingmod);
         fprintf(dump, "%d\n", g_tab[i].volume);
         k = nlcount(*g_tab[i].n_invites);
         fprintf(dump, "%d\n", k);
         if (k > 0)
             for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].n_invites));
+                dumpstr(dump, nlget(g_tab[i].n_invites));
         k = nlcount(*g_tab[i].nr_invites);
         fprintf(dump, "%d\n", k);
         if (k > 0)
             for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].nr_invites));
+                dumpstr(dump, nlget(g_tab[i].nr_invites));
         k = nlcount(*g_tab[i].s_invites);
         fprintf(dump, "%d\n", k);
         if (k > 0)
             for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].s_invites));
+                dumpstr(dump, nlget(g_tab[i].s_invites));
         k = nlcount(*g_tab[i].sr_invites);
         fprintf(dump, "%d\n", k);
         if (k > 0)
             for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].sr_invites));
+                dumpstr(dump, nlget(g_tab[i].sr_invites));
         k = nlcount(*g_tab[i].n_bars);
         fprintf(dump, "%d\n", k);
         if (k > 0)
             for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].n_bars));
+                dumpstr(dump, nlget(g_tab[i].n_bars));
         k = nlcount(*g_tab[i].n_nr_bars);
         fprintf(dump, "%d\n", k);
         if (k > 0)
             for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].n_nr_bars));
+                dumpstr(dump, nlget(g_tab[i].n_nr_bars));
         k = nlcount(*g_tab[i].s_bars);
         fprintf(dump, "%d\n", k);
         if (k > 0)
             for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].s_bars));
+                dumpstr(dump, nlget(g_tab[i].s_bars));
         k = nlcount(*g_tab[i].s_nr_bars);
         fprintf(dump, "%d\n", k);
         if (k > 0)
             for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].s_nr_bars));
+                dumpstr(dump, nlget(g_tab[i].s_nr_bars));
 
         k = nlcount(*g_tab[i].n_talk);
         fprintf(dump, "%d\n", k);
         if (k > 0)
             for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].n_talk));
+                dumpstr(dump, nlget(g_tab[i].n_talk));
 
         k = nlcount(*g_tab[i].nr_talk);
         fprintf(dump, "%d\n", k);
         if (k > 0)
             for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].nr_talk));
+                dumpstr(dump, nlget(g_tab[i].nr_talk));
 
         fprintf(dump, "%d\n", g_tab[i].size);
 
         fprintf(dump, "%d\n", g_tab[i].idleboot);
-        fprintf(dump, "%sX\n", g_tab[i].idleboot_msg);
+        dumpstr(dump, g_tab[i].idleboot_msg);
         fprintf(dump, "%d\n", g_tab[i].idlemod);
 
     }
 
-    fclose(dump);
+    failed = ferror(dump);
+    if (fclose(dump) != 0)
+        failed = 1;
+    if (failed) {
+        vmdb(MSG_ERR, "%s write: %s", dumpfile, strerror(errno));
+        unlink(dumpfile);
+        return -1;
+    }
     mdb(MSG_ALL, "state dumped.");
+    return 0;
+}
+
+/* icbdump
+ *
+ * dump the current state on a signal
+ */
+void icbdump(int sig)
+{
+    icbdumpstate();
 }
 
 /* icbload
@@ -237,7 +276,7 @@ void icbload(int sig)
     FILE *dump;
     int i,j;
     long k;
-    char name[256], name2[256];
+    char name[256];
 
     vmdb(MSG_ALL, "loading state from %s...", dumpfile);
     if ((dump = fopen(dumpfile, "r")) == NULL) {
@@ -257,31 +296,17 @@ void icbload(int sig)
 
     for (i = 0; i < MAX_USERS; i++)
     {
-        fgets(name, sizeof(name), dump);
-        strncpy(u_tab[i].loginid, name, strlen(name) - 2);
-        u_tab[i].loginid[strlen(name)-2] = '\0';
-        fgets(name, sizeof(name), dump);
-        strncpy(u_tab[i].nodeid, name, strlen(name) - 2);
-        u_tab[i].nodeid[strlen(name)-2] = '\0';
-        fgets(name, sizeof(name), dump);
-        strncpy(u_tab[i].nickname, name, strlen(name) - 2);
-        u_tab[i].nickname[strlen(name)-2] = '\0';
-        fgets(name, sizeof(name), dump);
-        strncpy(u_tab[i].password, name, strlen(name) - 2);
-        u_tab[i].password[strlen(name)-2] = '\0';
-        fgets(name, sizeof(name), dump);
-        strncpy(u_tab[i].realname, name, strlen(name) - 2);
-        u_tab[i].realname[strlen(name)-2] = '\0';
-        fgets(name, sizeof(name), dump);
-        strncpy(u_tab[i].group, name, strlen(name) - 2);
-        u_tab[i].group[strlen(name)-2] = '\0';
-        fgets(name, sizeof(name), dump);
-        strncpy(u_tab[i].awaymsg, name, strlen(name) - 2);
-        u_tab[i].awaymsg[strlen(name)-2] = '\0';
+        loadstr(dump, u_tab[i].loginid, sizeof(u_tab[i].loginid));
+        loadstr(dump, u_tab[i].nodeid, sizeof(u_tab[i].nodeid));
+        loadstr(dump, u_tab[i].nickname, sizeof(u_tab[i].nickname));
+        loadstr(dump, u_tab[i].password, sizeof(u_tab[i].password));
+        loadstr(dump, u_tab[i].realname, sizeof(u_tab[i].realname));
+        loadstr(dump, u_tab[i].group, sizeof(u_tab[i].group));
+        loadstr(dump, u_tab[i].awaymsg, sizeof(u_tab[i].awaymsg));
         fscanf(dump, "%d\n", &j);
         u_tab[i].lastaway = j;
         fscanf(dump, "%ld\n", &k);
-        u_tab[i].lastawaytime = j;
+        u_tab[i].lastawaytime = k;
         fscanf(dump, "%d\n", &j);
         u_tab[i].login = j;
         fscanf(dump, "%d\n", &j);
@@ -302,57 +327,41 @@ void icbload(int sig)
         u_tab[i].t_group = k;
         fscanf(dump, "%d\n", &j);
         for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(u_tab[i].pri_n_hushed, name2);
+            loadstr(dump, name, sizeof(name));
+            nlput(u_tab[i].pri_n_hushed, name);
         }
         fscanf(dump, "%d\n", &j);
         for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(u_tab[i].pub_n_hushed, name2);
+            loadstr(dump, name, sizeof(name));
+            nlput(u_tab[i].pub_n_hushed, name);
         }
         fscanf(dump, "%d\n", &j);
         for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(u_tab[i].pri_s_hushed, name2);
+            loadstr(dump, name, sizeof(name));
+            nlput(u_tab[i].pri_s_hushed, name);
         }
         fscanf(dump, "%d\n", &j);
         for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(u_tab[i].pub_s_hushed, name2);
+            loadstr(dump, name, sizeof(name));
+            nlput(u_tab[i].pub_s_hushed, name);
         }
         fscanf(dump, "%d\n", &j);
         for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(u_tab[i].n_notifies, name2);
+            loadstr(dump, name, sizeof(name));
+            nlput(u_tab[i].n_notifies, name);
         }
         fscanf(dump, "%d\n", &j);
         for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(u_tab[i].s_notifies, name2);
+            loadstr(dump, name, sizeof(name));
+            nlput(u_tab[i].s_notifies, name);
         }
     }
 
     for (i = 0; i < MAX_GROUPS; i++)
     {
-        fgets(name, sizeof (name), dump);
-        strncpy(g_tab[i].name, name, strlen(name) - 2);
-        g_tab[i].name[strlen(name)-2] = '\0';
+        loadstr(dump, g_tab[i].name, sizeof(g_tab[i].name));
 
-        fgets(name, sizeof (name), dump);
-        strncpy(g_tab[i].topic, name, strlen(name) - 2);
-        g_tab[i].topic[strlen(name)-2] = '\0';
+        loadstr(dump, g_tab[i].topic, sizeof(g_tab[i].topic));
 
         fscanf(dump, "%d\n", &j);
         g_tab[i].visibility = j;
@@ -366,93 +375,71 @@ void icbload(int sig)
         fscanf(dump, "%ld\n", &k);
         g_tab[i].modtimeout = k;
 
-        fgets(name, sizeof (name), dump);
-        strncpy(g_tab[i].missingmod, name, strlen(name) - 2);
-        g_tab[i].missingmod[strlen(name)-2] = '\0';
+        loadstr(dump, g_tab[i].missingmod, sizeof(g_tab[i].missingmod));
 
         fscanf(dump, "%d\n", &j);
         g_tab[i].volume = j;
 
         fscanf(dump, "%d\n", &j);
         for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].n_invites, name2);
+            loadstr(dump, name, sizeof(name));
+            nlput(g_tab[i].n_invites, name);
         }
 
         fscanf(dump, "%d\n", &j);
         for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].nr_invites, name2);
+            loadstr(dump, name, sizeof(name));
+            nlput(g_tab[i].nr_invites, name);
         }
 
         fscanf(dump, "%d\n", &j);
         for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].s_invites, name2);
+            loadstr(dump, name, sizeof(name));
+            nlput(g_tab[i].s_invites, name);
         }
 
         fscanf(dump, "%d\n", &j);
         for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].sr_invites, name2);
+            loadstr(dump, name, sizeof(name));
+            nlput(g_tab[i].sr_invites, name);
         }
 
         fscanf(dump, "%d\n", &j);
         for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].n_bars, name2);
+            loadstr(dump, name, sizeof(name));
+            nlput(g_tab[i].n_bars, name);
         }
 
         fscanf(dump, "%d\n", &j);
         for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].n_nr_bars, name2);
+            loadstr(dump, name, sizeof(name));
+            nlput(g_tab[i].n_nr_bars, name);
         }
 
         fscanf(dump, "%d\n", &j);
         for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].s_bars, name2);
+            loadstr(dump, name, sizeof(name));
+            nlput(g_tab[i].s_bars, name);
         }
 
         fscanf(dump, "%d\n", &j);
         for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].s_nr_bars, name2);
+            loadstr(dump, name, sizeof(name));
+            nlput(g_tab[i].s_nr_bars, name);
         }
 
         fscanf(dump, "%d\n", &j);
         for (; j > 0; j--)
         {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].n_talk, name2);
+            loadstr(dump, name, sizeof(name));
+            nlput(g_tab[i].n_talk, name);
         }
 
         fscanf(dump, "%d\n", &j);
         for (; j > 0; j--)
         {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].nr_talk, name2);
+            loadstr(dump, name, sizeof(name));
+            nlput(g_tab[i].nr_talk, name);
         }
 
         fscanf(dump, "%d\n", &j);
@@ -461,9 +448,7 @@ void icbload(int sig)
         fscanf(dump, "%d\n", &j);
         g_tab[i].idleboot = j;
 
-        fgets(name, sizeof(name), dump);
-        strncpy(g_tab[i].idleboot_msg, name, strlen(name) - 2);
-        g_tab[i].idleboot_msg[strlen(name)-2] = '\0';
+        loadstr(dump, g_tab[i].idleboot_msg, sizeof(g_tab[i].idleboot_msg));
 
         fscanf(dump, "%d\n", &j);
         g_tab[i].idlemod = j;
-- 
2.43.0


From 6f415839af0c45e70d147631f76fbc8b6d6f9559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:07 +0000
Subject: [PATCH 49/68] fix: /restart takes up the connections again

---
 pktserv/pktserv.c | 49 ++++++++++++++++++++++++++++++++++++-----------
 server/icbutil.h  |  6 ++++++
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 46ff2ef..77040da 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -790,6 +790,32 @@ int pktserv_disconnect(int s)
     return 0;
 }
 
+/* the state in which a connection can be taken up again after a restart.
+ *
+ * cleartext connections go on if they're between packets. what we've read of
+ * a packet, or haven't sent yet, isn't carried over, nor is the SSL state, so
+ * the others have to be disconnected.
+ */
+static SocketState
+restart_state(cbuf_t *cbuf)
+{
+    switch (cbuf->state) {
+        case LISTEN_SOCKET:
+        case LISTEN_SOCKET_SSL:
+        case WANT_DISCONNECT:
+        case WANT_RAW_DISCONNECT:
+            return cbuf->state;
+        case ACCEPTED:
+        case WANT_SSL_ACCEPT:
+            /* the upper level doesn't know about these yet */
+            return cbuf->is_ssl ? WANT_RAW_DISCONNECT : ACCEPTED;
+        default:
+            if (!cbuf->is_ssl && cbuf->newmsg && TAILQ_EMPTY(&(cbuf->wlist)))
+                return WANT_HEADER;
+            return WANT_DISCONNECT;
+    }
+}
+
 void pktserv_dumpsockets(FILE *dump)
 {
     int i;
@@ -797,30 +823,31 @@ void pktserv_dumpsockets(FILE *dump)
     fprintf(dump, "%d\n", g_pollsetsize);
     for (i = 0; i < g_pollsetsize; ++i) {
         fprintf(dump, "%d\n", g_pollset[i].fd);
+        fprintf(dump, "%d\n", restart_state(&cbufs[g_pollset[i].fd]));
     }
 
     fprintf(dump, "%d\n", port_fd);
     fprintf(dump, "%d\n", sslport_fd);
 }
 
-/* I'm not sure this works. It'll probably work for regular sockets
- * if everything's flushed for that socket, but who knows. For SSL
- * sockets? It seems the SSL state would be all fubared.
- *
- * The fact that this *ever* worked (going back to 1988) is a complete
- * fluke as far as I know.
- */
 void pktserv_loadsockets(FILE *dump)
 {
     int i;
     int k;
+    int fd, state;
 
+    k = 0;
     fscanf(dump, "%d\n", &k);
-    g_pollsetsize = k;
 
-    for (i = 0; i < g_pollsetsize; ++i) {
-        fscanf(dump, "%d\n", &k);
-        add_pollfd(k);
+    for (i = 0; i < k; ++i) {
+        if (fscanf(dump, "%d\n", &fd) != 1 ||
+            fscanf(dump, "%d\n", &state) != 1 ||
+            fd < 0 || fd >= MAX_USERS)
+            return;
+        cbufs[fd].fd = fd;
+        cbufs[fd].state = state;
+        cbufs[fd].disp = OK;
+        add_pollfd(fd);
     }
 
     fscanf(dump, "%d\n", &port_fd);
diff --git a/server/icbutil.h b/server/icbutil.h
index 24c605b..5d806eb 100644
--- a/server/icbutil.h
+++ b/server/icbutil.h
@@ -35,6 +35,12 @@ void icbexit(int sig);
  */
 void icbdump(int sig);
 
+/* icbdumpstate
+ *
+ * the same, and returns -1 if it couldn't be done
+ */
+int icbdumpstate(void);
+
 /* icbload
  *
  * load a server state from a file created by icbdump
-- 
2.43.0


From 8a3edd3b9716e1d0886c728bade5ebc48bac4479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:23 +0000
Subject: [PATCH 50/68] fix: a restart that can't be done leaves the server
 running

---
 server/s_admin.c | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/server/s_admin.c b/server/s_admin.c
index f2a788f..dee9537 100644
--- a/server/s_admin.c
+++ b/server/s_admin.c
@@ -120,9 +120,28 @@ int s_shutdown(int n, int argc)
     return 0;
 }
 
+/* tell those who've been told about the restart that there's none */
+static int restart_failed(int n, int quiet)
+{
+    int user;
+
+    if ( !quiet )
+    {
+        for (user=0; user < MAX_REAL_USERS; user++)
+            if (u_tab[user].login > LOGIN_FALSE)
+                sendimport (user, "Restart", "Restart not done.");
+    }
+    else
+        sendimport (n, "Quiet-Restart", "Restart not done.");
+
+    mdb(MSG_ALL, "[RESTART] Restart failed");
+    return -1;
+}
+
 int s_restart(int n, int argc)
 {
     int user, ret;
+    pid_t pid;
     char *env[2];
     char tbuf[255];
     int quiet = 0;
@@ -151,8 +170,11 @@ int s_restart(int n, int argc)
     }
 
     mdb(MSG_ALL, "[RESTART] Server restarting");
-    icbdump(0);
-    icbcloselogs(0);
+    if (icbdumpstate() < 0)
+        return restart_failed(n, quiet);
+
+    /* the new server opens the log itself */
+    fcntl(icbd_log, F_SETFD, FD_CLOEXEC);
 
     /* determine if we need to add the -R flag or not */
     for ( ret =0; ret < restart_argc; ret++ )
@@ -193,26 +215,17 @@ int s_restart(int n, int argc)
     env[1] = NULL;
     ret = fcntl(6, F_GETFD, 0);
 
-    if (fork()) exit(0);
+    /* if we can't get a new process we go on as we are */
+    if ((pid = fork()) > 0) exit(0);
 
-    if (execve(restart_argv[0], restart_argv, env) < 0)
+    if (pid < 0 || execve(restart_argv[0], restart_argv, env) < 0)
     {
         sprintf(tbuf, "[ERROR] RESTART failed: %s", 
                 strerror(errno));
 
         mdb(MSG_ALL, tbuf);
 
-        if ( !quiet )
-        {
-            for (user=0; user < MAX_REAL_USERS; user++)
-                if (u_tab[user].login > LOGIN_FALSE)
-                    sendimport (user, "Restart", "Restart not done.");
-        }
-        else
-            sendimport (n, "Quiet-Restart", "Restart not done.");
-
-        mdb(MSG_ALL, "[RESTART] Restart failed");
-        return -1;
+        return restart_failed(n, quiet);
     }
     return 0;
 }
-- 
2.43.0


From 6c163869f0bd7781018aa837e3e8a3406be3514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:23 +0000
Subject: [PATCH 51/68] fix: /restart looks at an argument slot that was never
 set

---
 server/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/main.c b/server/main.c
index f6ac6c6..b6464f8 100644
--- a/server/main.c
+++ b/server/main.c
@@ -86,6 +86,7 @@ int main(int argc, char* argv[])
         exit (1);
     }
 
+    restart_argv[argc+1] = NULL;
     for ( i = 0; i <= argc; i++ )
         restart_argv[i] = ((argv[i] == NULL) ? NULL : strdup(argv[i]));
 
-- 
2.43.0


From 300a1b61dfd74dd8588f281e4d5f820eeef9c3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:23 +0000
Subject: [PATCH 52/68] fix: the SSL port works after /restart

---
 server/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/main.c b/server/main.c
index b6464f8..7a131db 100644
--- a/server/main.c
+++ b/server/main.c
@@ -319,6 +319,11 @@ int main(int argc, char* argv[])
             strncpy(thishost, FQDN, MAXHOSTNAMELEN);
 #endif    /* SHORT_HOSTNAME && FQDN */
 
+#ifdef HAVE_SSL
+        if (sslport && init_ssl(pem) != 0)
+            mdb(MSG_ERR, "couldn't create SSL context. Do you have a valid PEM file?");
+#endif
+
         init_groups();
         clear_users();
         trapsignals(); 
-- 
2.43.0


From 8e133136f4a7cf4ddcd269fa42b0612c4084d876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:37 +0000
Subject: [PATCH 53/68] fix: tell only real users that the server is back after
 /restart

---
 server/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/main.c b/server/main.c
index 7a131db..17e50cf 100644
--- a/server/main.c
+++ b/server/main.c
@@ -330,7 +330,7 @@ int main(int argc, char* argv[])
         mdb(MSG_ALL, "[RESTART] Reloading server data");
         icbload(0);
 
-        for (i = 0; i < MAX_USERS; i++)
+        for (i = 0; i < MAX_REAL_USERS; i++)
             if (u_tab[i].login > LOGIN_FALSE)
             {
                 if ( ! quiet_restart ||
-- 
2.43.0


From 9b1009c815476d2439cddd6db9282b17687a7700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:50 +0000
Subject: [PATCH 54/68] fix: /restart keeps the order of the name lists

---
 server/icbutil.c | 114 +++++++++++++----------------------------------
 1 file changed, 31 insertions(+), 83 deletions(-)

diff --git a/server/icbutil.c b/server/icbutil.c
index adcaf84..c01482c 100644
--- a/server/icbutil.c
+++ b/server/icbutil.c
@@ -88,6 +88,18 @@ static void dumpstr(FILE *dump, const char *str)
     fprintf(dump, "%d:%s\n", (int)strlen(str), str);
 }
 
+/* name lists are dumped from the end, because nlput() puts each name in front
+ * of those that are there already.
+ */
+static void dumplist(FILE *dump, NAMLIST *nl)
+{
+    STRLIST *sp;
+
+    fprintf(dump, "%u\n", nlcount(*nl));
+    for (sp = nl->tail; sp; sp = sp->prev)
+        dumpstr(dump, sp->str);
+}
+
 static void loadstr(FILE *dump, char *str, size_t size)
 {
     int len = 0, i, c;
@@ -110,7 +122,7 @@ static void loadstr(FILE *dump, char *str, size_t size)
 int icbdumpstate(void)
 {
     FILE *dump;
-    int i, j, k, failed;
+    int i, failed;
 
     vmdb(MSG_ALL, "dumping current state to %s...", dumpfile);
     if ((dump = fopen(dumpfile, "w")) == NULL) {
@@ -143,36 +155,12 @@ int icbdumpstate(void)
         fprintf(dump, "%ld\n", u_tab[i].t_sent);
         fprintf(dump, "%ld\n", u_tab[i].t_recv);
         fprintf(dump, "%ld\n", u_tab[i].t_group);
-        k = nlcount(*u_tab[i].pri_n_hushed);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                dumpstr(dump, nlget(u_tab[i].pri_n_hushed));
-        k = nlcount(*u_tab[i].pub_n_hushed);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                dumpstr(dump, nlget(u_tab[i].pub_n_hushed));
-        k = nlcount(*u_tab[i].pri_s_hushed);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                dumpstr(dump, nlget(u_tab[i].pri_s_hushed));
-        k = nlcount(*u_tab[i].pub_s_hushed);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                dumpstr(dump, nlget(u_tab[i].pub_s_hushed));
-        k = nlcount(*u_tab[i].n_notifies);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                dumpstr(dump, nlget(u_tab[i].n_notifies));
-        k = nlcount(*u_tab[i].s_notifies);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                dumpstr(dump, nlget(u_tab[i].s_notifies));
+        dumplist(dump, u_tab[i].pri_n_hushed);
+        dumplist(dump, u_tab[i].pub_n_hushed);
+        dumplist(dump, u_tab[i].pri_s_hushed);
+        dumplist(dump, u_tab[i].pub_s_hushed);
+        dumplist(dump, u_tab[i].n_notifies);
+        dumplist(dump, u_tab[i].s_notifies);
     }
 
     for (i = 0; i < MAX_GROUPS; i++)
@@ -185,58 +173,18 @@ int icbdumpstate(void)
         fprintf(dump, "%ld\n", g_tab[i].modtimeout);
         dumpstr(dump, g_tab[i].missingmod);
         fprintf(dump, "%d\n", g_tab[i].volume);
-        k = nlcount(*g_tab[i].n_invites);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                dumpstr(dump, nlget(g_tab[i].n_invites));
-        k = nlcount(*g_tab[i].nr_invites);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                dumpstr(dump, nlget(g_tab[i].nr_invites));
-        k = nlcount(*g_tab[i].s_invites);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                dumpstr(dump, nlget(g_tab[i].s_invites));
-        k = nlcount(*g_tab[i].sr_invites);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                dumpstr(dump, nlget(g_tab[i].sr_invites));
-        k = nlcount(*g_tab[i].n_bars);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                dumpstr(dump, nlget(g_tab[i].n_bars));
-        k = nlcount(*g_tab[i].n_nr_bars);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                dumpstr(dump, nlget(g_tab[i].n_nr_bars));
-        k = nlcount(*g_tab[i].s_bars);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                dumpstr(dump, nlget(g_tab[i].s_bars));
-        k = nlcount(*g_tab[i].s_nr_bars);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                dumpstr(dump, nlget(g_tab[i].s_nr_bars));
-
-        k = nlcount(*g_tab[i].n_talk);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                dumpstr(dump, nlget(g_tab[i].n_talk));
-
-        k = nlcount(*g_tab[i].nr_talk);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                dumpstr(dump, nlget(g_tab[i].nr_talk));
+        dumplist(dump, g_tab[i].n_invites);
+        dumplist(dump, g_tab[i].nr_invites);
+        dumplist(dump, g_tab[i].s_invites);
+        dumplist(dump, g_tab[i].sr_invites);
+        dumplist(dump, g_tab[i].n_bars);
+        dumplist(dump, g_tab[i].n_nr_bars);
+        dumplist(dump, g_tab[i].s_bars);
+        dumplist(dump, g_tab[i].s_nr_bars);
+
+        dumplist(dump, g_tab[i].n_talk);
+
+        dumplist(dump, g_tab[i].nr_talk);
 
         fprintf(dump, "%d\n", g_tab[i].size);
 
-- 
2.43.0


From cc6c983d67e4e8cfdb691831d55c8718aa636905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:07 +0000
Subject: [PATCH 55/68] fix: notify lists hold MAX_NOTIFIES entries after
 /restart too

---
 server/users.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/users.c b/server/users.c
index 1c5569a..a121334 100644
--- a/server/users.c
+++ b/server/users.c
@@ -141,9 +141,9 @@ void clear_users(void)
         u_tab[i].pub_s_hushed = (NAMLIST *) malloc(sizeof(NAMLIST));
         nlinit(u_tab[i].pub_s_hushed, MAX_HUSHED);
         u_tab[i].n_notifies = (NAMLIST *) malloc(sizeof(NAMLIST));
-        nlinit(u_tab[i].n_notifies, MAX_HUSHED);
+        nlinit(u_tab[i].n_notifies, MAX_NOTIFIES);
         u_tab[i].s_notifies = (NAMLIST *) malloc(sizeof(NAMLIST));
-        nlinit(u_tab[i].s_notifies, MAX_HUSHED);
+        nlinit(u_tab[i].s_notifies, MAX_NOTIFIES);
         clear_user_item(i);
     }
 }
-- 
2.43.0


From 42bfee3baf0478db8959c7761031e430f81ab1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:50 +0000
Subject: [PATCH 56/68] fix: a MOTD that ends in % is closed once

---
 server/s_motd.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/server/s_motd.c b/server/s_motd.c
index d3fecd5..6796d38 100644
--- a/server/s_motd.c
+++ b/server/s_motd.c
@@ -36,12 +36,8 @@ int s_motd(int n, int argc)
             if (c == '%') 
             {
                 i = read(motd_fd, &c, 1);
-                if (i <= 0) {
-                    if (close(motd_fd) != 0) {
-                        sprintf(mbuf, "MOTD File Close: %s", strerror(errno));
-                        mdb(MSG_ERR, mbuf);
-                    }
-                }
+                if (i <= 0)
+                    break;  /* nothing after the %, it's closed below */
                 else if (c == 'U') {
                     char    *value;
                     if (icbdb_get ("server", "signon", ICBDB_STRING, &value)) {
-- 
2.43.0


From 54d71b7eed1a5518e74c80f7e40ef7d197fb0611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:50 +0000
Subject: [PATCH 57/68] fix: registered users invited by address see the group
 they are invited to

---
 server/s_who.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/s_who.c b/server/s_who.c
index 121c2b6..2b38609 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -229,7 +229,7 @@ void print_group_header(int n, int grp)
                               *g_tab[grp].nr_invites)) && 
                    (strlen(u_tab[n].realname) > 0)) ||
                   (nlmatch(one, *g_tab[grp].s_invites)) ||
-                  ((nlmatch(one, *g_tab[grp].s_invites)) &&
+                  ((nlmatch(one, *g_tab[grp].sr_invites)) &&
                    (strlen(u_tab[n].realname) > 0)) ||
                   (! strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)));
     if ((g_tab[grp].visibility == SECRET) ||
@@ -299,7 +299,7 @@ void doAll(int n, int flags)
                                   *g_tab[group].nr_invites)) && 
                        (strlen(u_tab[n].realname) > 0)) ||
                       (nlmatch(one, *g_tab[group].s_invites)) ||
-                      ((nlmatch(one, *g_tab[group].s_invites)) &&
+                      ((nlmatch(one, *g_tab[group].sr_invites)) &&
                        (strlen(u_tab[n].realname) > 0)) ||
                       (! strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)));
         if( (strlen(g_tab[group].name)!=0) &&
-- 
2.43.0


From 4d729179343c6b8650f45fa982e7b7f310c353f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:50 +0000
Subject: [PATCH 58/68] fix: who deletes their entry is not registered any
 longer

---
 server/access.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/access.c b/server/access.c
index 73808a3..24e409b 100644
--- a/server/access.c
+++ b/server/access.c
@@ -150,6 +150,8 @@ int nickdelete(int forWhom, char *password, DBM *openDb)
         icbdb_delete (nick, key);
     }
 
+    /* and they aren't registered any longer */
+    memset(u_tab[forWhom].realname, 0, MAX_REALLEN + 1);
     sends_cmdout(forWhom, "Record Deleted");
     icbdb_close ();
     return 0;
-- 
2.43.0


From 184bc3750c982e32b7c9cd2762b5e2eaba2232e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:57 +0000
Subject: [PATCH 59/68] fix: a newcomer in a reused slot gets the away message

u_tab[].lastaway holds the slot of the last person who was sent the away
message. When that person left, a new user who got the slot within
AWAY_NOSEND_TIME seconds was taken for them and was not told that the
user is away.
---
 server/users.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/users.c b/server/users.c
index a121334..7d2a41f 100644
--- a/server/users.c
+++ b/server/users.c
@@ -58,6 +58,7 @@ void clear_user_item(int n)
     /* clear out anyone that has this slot:
      *   a) listed as their last priv msg
      *   b) as a pending pong request
+     *   c) as the last one they sent their away message to
      */
     for ( i = 0; i < MAX_USERS; i++ )
     {
@@ -69,6 +70,9 @@ void clear_user_item(int n)
             pong_req[i] = -1;
             timerclear (&ping_time[n]);
         }
+
+        if ( u_tab[i].lastaway == n )
+            u_tab[i].lastaway = 0;
     }
 }
 
-- 
2.43.0


From 4b35e13fe1238f2cfd93c2b207b70ebc59ed6788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:16 +0000
Subject: [PATCH 60/68] fix: a log file that cannot be reopened does not end a
 running server

icbopenlogs() called exit(1) when the log could not be opened. That is
right at startup, but SIGHUP and /log open it again while the server is
in use, and a full disk or a used up descriptor table then ended it for
everybody. Go on without a log; /log n or the next SIGHUP tries again.
---
 server/icbutil.c | 4 ++--
 server/main.c    | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/server/icbutil.c b/server/icbutil.c
index c01482c..b958645 100644
--- a/server/icbutil.c
+++ b/server/icbutil.c
@@ -29,7 +29,8 @@ const char *dumpfile = "icbd.dump";
 
 /* icbopenlogs()
  *
- * open the log file with append
+ * open the log file with append. icbd_log is negative if that failed, and
+ * nothing is logged then.
  */
 
 void icbopenlogs(int sig)
@@ -38,7 +39,6 @@ void icbopenlogs(int sig)
     if((icbd_log = open(ICBDLOG,O_WRONLY|O_CREAT|O_APPEND, 0644)) < 0) {
         fprintf(stderr, "icbd: could not open log file.\n");
         perror("ICBDLOG open");
-        exit(1);
     }
 }
 
diff --git a/server/main.c b/server/main.c
index 17e50cf..2c434a2 100644
--- a/server/main.c
+++ b/server/main.c
@@ -209,8 +209,11 @@ int main(int argc, char* argv[])
     if (restart == 0)
     {
 
-        if (log_level >= 0)
+        if (log_level >= 0) {
             icbopenlogs(0);
+            if (icbd_log < 0)
+                exit(1);
+        }
 
         /* get our hostname */
         if ((gethostname(thishost,MAXHOSTNAMELEN)) < 0) {
-- 
2.43.0


From d7de53e9c097805897e3d27dd5ce2bf851175f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:19 +0000
Subject: [PATCH 61/68] fix: a connection that cannot be added to the poll set
 is closed, not forgotten

---
 pktserv/pktsocket.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index c282ea1..efdf6cc 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -137,7 +137,13 @@ int pktsocket_accept(cbuf_t *listen_cbuf)
     }
     cbuf->disp = OK;
 
-    add_pollfd(cbuf->fd);
+    if (add_pollfd(cbuf->fd) < 0) {
+        /* we'd never hear from it again */
+        vmdb(MSG_ERR, "pktsocket_accept: no memory to watch fd%d, closing connection", ns);
+        close(ns);
+        cbuf->state = DISCONNECTED;
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From fcd28477b48f95b6755965bcf12b38530ea88d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:23 +0000
Subject: [PATCH 62/68] fix: /status frees the names on the lists it empties

---
 server/s_group.c | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index d8e9cad..ec9abdf 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -1376,10 +1376,10 @@ visible.
                     {
                         case SET_RESTRICT:
                             g_tab[gi].control = RESTRICTED;
-                            nlinit(g_tab[gi].n_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].n_nr_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].s_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].s_nr_bars, MAX_INVITES);
+                            nlclear(g_tab[gi].n_bars);
+                            nlclear(g_tab[gi].n_nr_bars);
+                            nlclear(g_tab[gi].s_bars);
+                            nlclear(g_tab[gi].s_nr_bars);
                             cp = "Group is now restricted.";
 
                             for (i=0; i<MAX_USERS; i++)
@@ -1407,20 +1407,20 @@ visible.
 
                         case SET_MODERATE:
                             g_tab[gi].control = MODERATED;
-                            nlinit(g_tab[gi].n_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].nr_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].s_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].sr_invites, MAX_INVITES);
+                            nlclear(g_tab[gi].n_invites);
+                            nlclear(g_tab[gi].nr_invites);
+                            nlclear(g_tab[gi].s_invites);
+                            nlclear(g_tab[gi].sr_invites);
                             cp = "Group is now moderated.";
                             break;
 
 
                         case SET_CONTROL:
                             g_tab[gi].control = CONTROLLED;
-                            nlinit(g_tab[gi].n_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].nr_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].s_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].sr_invites, MAX_INVITES);
+                            nlclear(g_tab[gi].n_invites);
+                            nlclear(g_tab[gi].nr_invites);
+                            nlclear(g_tab[gi].s_invites);
+                            nlclear(g_tab[gi].sr_invites);
                             cp = "Group is now controlled.";
                             break;
 
@@ -1657,14 +1657,14 @@ visible.
 
                         case SET_PUBLIC:
                             g_tab[gi].control = PUBLIC;
-                            nlinit(g_tab[gi].n_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].nr_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].s_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].sr_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].n_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].n_nr_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].s_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].s_nr_bars, MAX_INVITES);
+                            nlclear(g_tab[gi].n_invites);
+                            nlclear(g_tab[gi].nr_invites);
+                            nlclear(g_tab[gi].s_invites);
+                            nlclear(g_tab[gi].sr_invites);
+                            nlclear(g_tab[gi].n_bars);
+                            nlclear(g_tab[gi].n_nr_bars);
+                            nlclear(g_tab[gi].s_bars);
+                            nlclear(g_tab[gi].s_nr_bars);
                             /* cp = "Group is now public."; */
                             sprintf (cp2, "%s made group public.", 
                                      u_tab[n].nickname);
-- 
2.43.0


From 35ca381e9b8cc0e9ae28ebef68f62d295e75ddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:39 +0000
Subject: [PATCH 63/68] fix: a restart that fails frees the environment it made

---
 server/s_admin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/s_admin.c b/server/s_admin.c
index dee9537..61a3cd5 100644
--- a/server/s_admin.c
+++ b/server/s_admin.c
@@ -224,6 +224,7 @@ int s_restart(int n, int argc)
                 strerror(errno));
 
         mdb(MSG_ALL, tbuf);
+        free(env[0]);
 
         return restart_failed(n, quiet);
     }
-- 
2.43.0


From 1dfd106dc51c67e3a929ad77d0faacf251f327e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:01 +0000
Subject: [PATCH 64/68] fix: reopening the log on SIGHUP leaves errno alone

---
 server/icbutil.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/icbutil.c b/server/icbutil.c
index b958645..a517e0e 100644
--- a/server/icbutil.c
+++ b/server/icbutil.c
@@ -58,8 +58,11 @@ void icbcloselogs(int sig)
  */
 void icbcyclelogs(int sig)
 {
+    int save_errno = errno;    /* we may interrupt someone who's about to look at it */
+
     icbcloselogs(sig);
     icbopenlogs(sig);
+    errno = save_errno;
 }
 
 /* icbexit
-- 
2.43.0


From 61ef19a556bdf8cd3616654cb06a9a780a75c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:46 +0000
Subject: [PATCH 65/68] fix: a SIGHUP during a restart leaves the log open in
 the new server

The log is opened close-on-exec, so a log file that is reopened after
s_restart() had marked the old one isn't handed on to the new server.
---
 server/icbutil.c | 2 +-
 server/s_admin.c | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/server/icbutil.c b/server/icbutil.c
index a517e0e..c60f1d9 100644
--- a/server/icbutil.c
+++ b/server/icbutil.c
@@ -36,7 +36,7 @@ const char *dumpfile = "icbd.dump";
 void icbopenlogs(int sig)
 {
     /* used to have non-portable O_FSYNC */
-    if((icbd_log = open(ICBDLOG,O_WRONLY|O_CREAT|O_APPEND, 0644)) < 0) {
+    if((icbd_log = open(ICBDLOG,O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC, 0644)) < 0) {
         fprintf(stderr, "icbd: could not open log file.\n");
         perror("ICBDLOG open");
     }
diff --git a/server/s_admin.c b/server/s_admin.c
index 61a3cd5..0814a10 100644
--- a/server/s_admin.c
+++ b/server/s_admin.c
@@ -173,9 +173,6 @@ int s_restart(int n, int argc)
     if (icbdumpstate() < 0)
         return restart_failed(n, quiet);
 
-    /* the new server opens the log itself */
-    fcntl(icbd_log, F_SETFD, FD_CLOEXEC);
-
     /* determine if we need to add the -R flag or not */
     for ( ret =0; ret < restart_argc; ret++ )
         if ( restart_argv[ret] != (char *)NULL
-- 
2.43.0


From ef1ce5c5353d48be3a256d17edca7d554ea4dde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 66/68] fix: dropping "server" disconnects whoever is
 connecting on that descriptor

The server's own entry in the user table isn't a connection. Disconnecting
its index hit a connection that happened to be on that descriptor and hadn't
been announced yet (an SSL one during its handshake), and announced the loss
of a client nobody had heard of.
---
 server/s_admin.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/s_admin.c b/server/s_admin.c
index 0814a10..087d532 100644
--- a/server/s_admin.c
+++ b/server/s_admin.c
@@ -63,7 +63,8 @@ int s_drop(int n, int argc)
     if (argc == 2) {
         /* fields[1] can be a string, not just a single nick */
         TheVictim = find_user(getword(fields[1]));
-        if (TheVictim < 0) {
+        if (TheVictim < 0 || TheVictim >= MAX_REAL_USERS) {
+            /* the server itself isn't a connection of ours */
             senderror(n, "User not found.");
         } else if (check_auth(n))
             pktserv_disconnect(TheVictim);
-- 
2.43.0


From d2d2645f5d35757f6be07151e4d4e88b19f946f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:56 +0000
Subject: [PATCH 67/68] fix: a port that cannot be listened on does not stop
 the server from starting

---
 pktserv/pktserv.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 77040da..cbc3087 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -671,7 +671,11 @@ int pktserv_addport(char *host_name, int port_number, int is_ssl)
     }
 
     /* start listening for connections */
-    listen(s, 5);
+    if (listen(s, 5) < 0) {
+        vmdb(MSG_ERR, "%s: listen: %s", __FUNCTION__, strerror(errno));
+        close(s);
+        return(-1);
+    }
 
     /* make it non-blocking */
     if (fcntl(s, F_SETFL, O_NONBLOCK) < 0) {
-- 
2.43.0


From 033f1325b28a6cb65c2f07783e4211d9dcdecfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:56 +0000
Subject: [PATCH 68/68] fix: failing to go into the background exits with
 success

---
 server/main.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/server/main.c b/server/main.c
index 2c434a2..568a7ca 100644
--- a/server/main.c
+++ b/server/main.c
@@ -274,8 +274,16 @@ int main(int argc, char* argv[])
         }
 #endif
 
-        if (forkflag == 0)
-            if (fork()) exit(0);
+        if (forkflag == 0) {
+            pid_t pid = fork();
+
+            if (pid < 0) {
+                vmdb(MSG_ERR, "fork: %s", strerror(errno));
+                exit(-1);
+            }
+            if (pid > 0)
+                exit(0);
+        }
 
         if (clearargsflg)
             clearargs(argc, argv);
-- 
2.43.0

