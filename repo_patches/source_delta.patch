From 7c2723df322a468e66b99628a5f9ee881e88f387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:15 +0000
Subject: [PATCH 01/59] fix: keep a partially received packet when something is
 sent to that client

pktsocket_write() put the connection back into WANT_HEADER even in the
middle of an inbound packet, so the rest of the packet was parsed as a
new header and the stream went out of sync. Use newmsg, which exists to
record exactly this, to decide whether a header or more body is next.
---
 pktserv/pktserv.c   | 2 +-
 pktserv/pktsocket.c | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index f4c657d..6ba0fc9 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -323,7 +323,7 @@ pollfd_state_machine(struct pollfd* pollfd)
 
             case IDLE:              /* not doing anything. got some network data */
                 if (readable) {
-                    cbuf->state = WANT_HEADER;
+                    cbuf->state = cbuf->newmsg ? WANT_HEADER : WANT_READ;
                 }
                 // fallthrough
 
diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index 53be7a1..2c30f13 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -153,7 +153,7 @@ int pktsocket_read(cbuf_t *cbuf)
     size_t remain;
 
     /* try to read the header unless we've already done that */
-    if (cbuf->state == WANT_HEADER) {
+    if (cbuf->newmsg) {
 
         /* set up our packet buffer */
         if ( (cbuf->rbuf = _msgbuf_alloc(cbuf->rbuf, MAX_PKT_LEN)) == NULL) {
@@ -263,6 +263,7 @@ int pktsocket_read(cbuf_t *cbuf)
 
     if ((remain - result) == 0) {
         cbuf->state = COMPLETE_PACKET;
+        cbuf->newmsg = 1;
 
         /* nail down the end of the read string */
         *(cbuf->rbuf->pos) = '\0';
@@ -370,6 +371,7 @@ int pktsocket_write(cbuf_t* cbuf)
              cbuf->fd, cbuf->wlist_size);
     }
 
-    cbuf->state = WANT_HEADER;
+    /* go back to reading, picking up where we were if we have part of a packet */
+    cbuf->state = cbuf->newmsg ? WANT_HEADER : WANT_READ;
     return 0;
 }
-- 
2.43.0


From 0fab6dcec83811322822bb0a2f0e5fb3f9071835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:03 +0000
Subject: [PATCH 02/59] fix: don't spin forever on a client with unsent data

A connection in WANT_WRITE that became readable but not writeable (its
receive window is full but it keeps talking), or whose write retries had
run out, never left the while loop and hung the whole server.
---
 pktserv/pktserv.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 6ba0fc9..eb1689a 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -307,17 +307,23 @@ pollfd_state_machine(struct pollfd* pollfd)
                 return;
 
             case WANT_SSL_WRITE:    /* need to retry the SSL write */
-                if (readable || writeable)
-                    pktsocket_write(cbuf);
+                if (readable || writeable) {
+                    if (pktsocket_write(cbuf) < 0)
+                        cbuf->state = WANT_DISCONNECT;
+                }
                 return;
 
             case WANT_WRITE:        /* we have pending writes. This can be a new SSL write. */
                 if (writeable) {
-                    pktsocket_write(cbuf);
-                }
-                if (readable && (cbuf->state == WANT_READ || cbuf->state == WANT_HEADER)) {
-                    /* pktsocket_write() may have set this to BLOCKED */
-                    cbuf->disp = OK;
+                    if (pktsocket_write(cbuf) < 0)
+                        cbuf->state = WANT_DISCONNECT;
+                    /* whatever didn't fit has to wait for the next poll */
+                    writeable = 0;
+                } else if (readable) {
+                    /* can't write yet, but don't let that hold up their input */
+                    cbuf->state = cbuf->newmsg ? WANT_HEADER : WANT_READ;
+                } else {
+                    return;
                 }
                 break;
 
-- 
2.43.0


From 1629942f4e0ba3fd7a9399dcb9e55f4bebe2117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:03 +0000
Subject: [PATCH 03/59] fix: don't forget a disconnect that was requested while
 handling a packet

The state was overwritten with WANT_HEADER (or WANT_WRITE, if anything
was queued) after dispatch, so the connection stayed open.
---
 pktserv/pktserv.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index eb1689a..e90e9a2 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -346,12 +346,14 @@ pollfd_state_machine(struct pollfd* pollfd)
                             g_pktserv_cb.dispatch(cbuf->fd, cbuf->rbuf->data);
                             _msgbuf_free(cbuf->rbuf);
                             cbuf->rbuf = NULL;
-                            /* ready for the next packet */
-                            cbuf->state = WANT_HEADER;
+                            /* ready for the next packet, unless they're
+                             * to be disconnected */
+                            if (cbuf->state != WANT_DISCONNECT)
+                                cbuf->state = WANT_HEADER;
                         }
                     }
                 }
-                if (!TAILQ_EMPTY(&(cbuf->wlist))) {
+                if (cbuf->state != WANT_DISCONNECT && !TAILQ_EMPTY(&(cbuf->wlist))) {
                     /* cycle back to want write if there's stuff left */
                     cbuf->state = WANT_WRITE;
                 }
-- 
2.43.0


From 4986da2374e75a1f2dbe24cb0df112ec9f298be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:07 +0000
Subject: [PATCH 04/59] fix: close connections that hang up or reset instead of
 spinning on them

POLLHUP/POLLERR was answered with lost_client() and handle_disconnect()
on every poll, never reaching the raw disconnect: the fd was leaked and
poll() returned immediately forever after.
---
 pktserv/pktserv.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index e90e9a2..15e22d1 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -138,6 +138,8 @@ handle_disconnect(cbuf_t *cbuf)
         free(msgbuf);
     }
 
+    cbuf->wlist_size = 0;
+
     cbuf->state = WANT_RAW_DISCONNECT;
 
 }
@@ -263,19 +265,19 @@ pollfd_state_machine(struct pollfd* pollfd)
          * transitions to WANT_DISCONNECT. Notify upper layers here so login/
          * group bookkeeping (e.g. sign-off messages) still runs.
          */
-        if (g_pktserv_cb.lost_client &&
-            cbuf->state != LISTEN_SOCKET &&
-            cbuf->state != LISTEN_SOCKET_SSL) {
-            g_pktserv_cb.lost_client(cbuf->fd);
+        if (cbuf->state == LISTEN_SOCKET ||
+            cbuf->state == LISTEN_SOCKET_SSL) {
+            handle_disconnect(cbuf);
+            return;
         }
-        handle_disconnect(cbuf);
-        return;
+        if (cbuf->state != WANT_RAW_DISCONNECT && cbuf->state != DISCONNECTED)
+            cbuf->state = WANT_DISCONNECT;
     }
 
-
     readable = pollfd->revents & POLLIN;
     writeable = pollfd->revents & POLLOUT;
-    if (readable || writeable) {
+    if (readable || writeable ||
+        cbuf->state == WANT_DISCONNECT || cbuf->state == WANT_RAW_DISCONNECT) {
         cbuf->disp = OK;
     }
 
-- 
2.43.0


From 7e7740dd4c730ad4b6c9b178831dbff9af94630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:00 +0000
Subject: [PATCH 05/59] fix: process pending disconnects promptly and every
 ready descriptor once

A connection marked for disconnect waited for POLLOUT, which never comes
when the peer has stopped reading, so such users stayed around. Also
keep handle_pollfds() in step with delete_pollfd(): it skipped the
element following a closed one and looked at a stale one past the end.
---
 pktserv/pktserv.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 15e22d1..e98054b 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -202,6 +202,7 @@ add_pollfd(int fd)
             g_pollsetmax *= 2;
             g_pollset = newset;
         }
+        g_pollset[g_pollsetsize].revents = 0;
         g_pollset[g_pollsetsize++].fd = fd;
     }
 
@@ -279,6 +280,8 @@ pollfd_state_machine(struct pollfd* pollfd)
     if (readable || writeable ||
         cbuf->state == WANT_DISCONNECT || cbuf->state == WANT_RAW_DISCONNECT) {
         cbuf->disp = OK;
+    } else {
+        return;
     }
 
     /* 
@@ -401,8 +404,15 @@ handle_pollfds(void)
             g_pollset[i].fd, g_pollset[i].events, g_pollset[i].revents);
     }
 #endif
-    for (i = 0; i < pollsetsize; i++)
+    for (i = 0; i < pollsetsize && i < g_pollsetsize; ) {
+        int fd = g_pollset[i].fd;
         pollfd_state_machine(&g_pollset[i]);
+        /* if it got disconnected, the next element is now at this index */
+        if (i < g_pollsetsize && g_pollset[i].fd == fd)
+            i++;
+        else
+            pollsetsize--;
+    }
 }
 
 
@@ -447,11 +457,15 @@ int pktserv_init(char *config, pktserv_cb_t *cb)
  * (pending data or SSL handshake/write retry).  Leaving POLLOUT set
  * on idle connections causes poll() to return immediately — spinning
  * the CPU at 100 %.
+ *
+ * returns nonzero if there's a disconnect to process, which must not wait
+ * for the remote side to do anything.
  */
-static void
+static int
 update_pollfd_events(void)
 {
     int i;
+    int pending = 0;
     for (i = 0; i < g_pollsetsize; i++) {
         int fd = g_pollset[i].fd;
         if (fd < 0 || fd >= MAX_USERS)
@@ -469,11 +483,13 @@ update_pollfd_events(void)
             case WANT_SSL_WRITE:
             case WANT_SSL_ACCEPT:
                 /* These states need write-readiness notification. */
+                events |= POLLOUT;
+                break;
             case WANT_DISCONNECT:
             case WANT_RAW_DISCONNECT:
                 /* Disconnects should be processed promptly even if
                  * the remote side has gone quiet. */
-                events |= POLLOUT;
+                pending = 1;
                 break;
             default:
                 break;
@@ -481,6 +497,8 @@ update_pollfd_events(void)
 
         g_pollset[i].events = events;
     }
+
+    return pending;
 }
 
 /* 
@@ -497,6 +515,7 @@ pktserv_run(void)
     int ret;
     long loopcount = 0;
     int poll_timeout;
+    int pending;
 
     if (POLL_TIMEOUT < 0) 
         poll_timeout = 0;
@@ -510,8 +529,8 @@ pktserv_run(void)
     for (;;) {
         loopcount++;
 
-        update_pollfd_events();
-        ret = poll(g_pollset, g_pollsetsize, poll_timeout); // millisec
+        pending = update_pollfd_events();
+        ret = poll(g_pollset, g_pollsetsize, pending ? 0 : poll_timeout); // millisec
         if (ret < 0) {
             if (errno == EINTR)
                 ret = 0;
@@ -519,7 +538,7 @@ pktserv_run(void)
                 vmdb(MSG_ERR, "%s: %s", __FUNCTION__, strerror(errno));
         }
 
-        if (ret > 0) {
+        if (ret > 0 || (ret == 0 && pending)) {
             handle_pollfds();
         }
 
-- 
2.43.0


From ae94ef3abc2a759a05ecf68d6d2a18ef065f9ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:08 +0000
Subject: [PATCH 06/59] fix: make packet reading over TLS work regardless of
 record boundaries

The WANT_SSL_READ state read a packet but never dispatched it (looping
forever on COMPLETE_PACKET when the retry completed it), packets that
shared a TLS record with an earlier one waited for unrelated network
activity, a retry during the header read was taken for a body read, a
stale errno could turn a TLS error into a retry, an unfinished handshake
polled for POLLOUT and burned 100% CPU, and errors left in OpenSSL's
queue by one connection could be blamed on another.
---
 pktserv/pktserv.c   | 34 ++++++++++++++++++++--------------
 pktserv/pktsocket.c | 15 ++++++++++++---
 pktserv/sslsocket.c | 28 +++++++---------------------
 3 files changed, 39 insertions(+), 38 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index e98054b..d9c0fa0 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -277,6 +277,11 @@ pollfd_state_machine(struct pollfd* pollfd)
 
     readable = pollfd->revents & POLLIN;
     writeable = pollfd->revents & POLLOUT;
+#ifdef HAVE_SSL
+    /* decrypted data we already hold doesn't show up in poll() */
+    if (cbuf->ssl_con != NULL && SSL_pending(cbuf->ssl_con) > 0)
+        readable = 1;
+#endif
     if (readable || writeable ||
         cbuf->state == WANT_DISCONNECT || cbuf->state == WANT_RAW_DISCONNECT) {
         cbuf->disp = OK;
@@ -306,18 +311,7 @@ pollfd_state_machine(struct pollfd* pollfd)
                     sslsocket_accept(cbuf);
                 return;
 
-            case WANT_SSL_READ:     /* need to retry the SSL read */
-                if (readable || writeable)
-                    pktsocket_read(cbuf);
-                return;
-
             case WANT_SSL_WRITE:    /* need to retry the SSL write */
-                if (readable || writeable) {
-                    if (pktsocket_write(cbuf) < 0)
-                        cbuf->state = WANT_DISCONNECT;
-                }
-                return;
-
             case WANT_WRITE:        /* we have pending writes. This can be a new SSL write. */
                 if (writeable) {
                     if (pktsocket_write(cbuf) < 0)
@@ -338,6 +332,7 @@ pollfd_state_machine(struct pollfd* pollfd)
                 }
                 // fallthrough
 
+            case WANT_SSL_READ:     /* need to retry the SSL read */
             case WANT_HEADER:       /* need to read a new packet header */
             case WANT_READ:         /* in the middle of a read. read more network data. */
                 if (readable) {
@@ -458,8 +453,8 @@ int pktserv_init(char *config, pktserv_cb_t *cb)
  * on idle connections causes poll() to return immediately — spinning
  * the CPU at 100 %.
  *
- * returns nonzero if there's a disconnect to process, which must not wait
- * for the remote side to do anything.
+ * returns nonzero if there's a disconnect or already decrypted SSL data to
+ * process, which must not wait for the remote side to do anything.
  */
 static int
 update_pollfd_events(void)
@@ -481,10 +476,16 @@ update_pollfd_events(void)
                  * banner before the client sends anything. */
             case WANT_WRITE:
             case WANT_SSL_WRITE:
-            case WANT_SSL_ACCEPT:
                 /* These states need write-readiness notification. */
                 events |= POLLOUT;
                 break;
+#ifdef HAVE_SSL
+            case WANT_SSL_ACCEPT:
+                /* the handshake only sometimes does */
+                if (cbuf->ssl_con != NULL && SSL_want_write(cbuf->ssl_con))
+                    events |= POLLOUT;
+                break;
+#endif
             case WANT_DISCONNECT:
             case WANT_RAW_DISCONNECT:
                 /* Disconnects should be processed promptly even if
@@ -495,6 +496,11 @@ update_pollfd_events(void)
                 break;
         }
 
+#ifdef HAVE_SSL
+        if (cbuf->ssl_con != NULL && SSL_pending(cbuf->ssl_con) > 0)
+            pending = 1;
+#endif
+
         g_pollset[i].events = events;
     }
 
diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index 2c30f13..798f880 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -170,7 +170,7 @@ int pktsocket_read(cbuf_t *cbuf)
 
         /* did we get an error or a partial read? */
         if (result < 0) {
-            if (errno == EWOULDBLOCK) {
+            if (!cbuf->is_ssl && errno == EWOULDBLOCK) {
                 /* incomplete read - sslsocket_read() will never return this. */
                 return 0;
             }
@@ -219,6 +219,15 @@ int pktsocket_read(cbuf_t *cbuf)
             cbuf->state = WANT_DISCONNECT;
             return -1;
         }
+
+        /* there has to be at least a packet type */
+        if ( cbuf->rbuf->len == PACKET_HEADER_LEN )
+        {
+            vmdb(MSG_ERR, "fd#%d: sent empty packet; terminating connection...",
+                 cbuf->fd);
+            cbuf->state = WANT_DISCONNECT;
+            return -1;
+        }
     }
 
 
@@ -235,7 +244,7 @@ int pktsocket_read(cbuf_t *cbuf)
 
     /* did we get an error? */
     if (result < 0) {
-        if (errno == EWOULDBLOCK) {
+        if (!cbuf->is_ssl && errno == EWOULDBLOCK) {
             /* incomplete read - read_ssl() will never return this. */
             cbuf->state = WANT_READ;
             return 0;
@@ -331,7 +340,7 @@ int pktsocket_write(cbuf_t* cbuf)
 
         /* did we have an error? */
         if ( result < 0 ) {
-            if (errno == EWOULDBLOCK) {
+            if (!cbuf->is_ssl && errno == EWOULDBLOCK) {
                 /* incomplete write - write_ssl() will never return this. */
                 cbuf->state = WANT_WRITE;
                 cbuf->retries++;
diff --git a/pktserv/sslsocket.c b/pktserv/sslsocket.c
index 62d2aa2..098d695 100644
--- a/pktserv/sslsocket.c
+++ b/pktserv/sslsocket.c
@@ -84,11 +84,13 @@ int sslsocket_accept(cbuf_t *cbuf)
         cbuf->ssl_con = SSL_new(ctx);
         if (cbuf->ssl_con == NULL) {
             vmdb(MSG_ERR, "sslsocket_accept: fd%d: couldn't create ssl_con.", cbuf->fd);
+            cbuf->state = WANT_RAW_DISCONNECT;
             return -1;
         }
         SSL_set_fd(cbuf->ssl_con, cbuf->fd);
     }
 
+    ERR_clear_error();
     result = SSL_accept(cbuf->ssl_con);
     if (result == 1) {
         vmdb(MSG_INFO,
@@ -177,18 +179,10 @@ int sslsocket_read(cbuf_t *cbuf, void *buf, size_t nbytes)
 {
     int result, ssl_error;
 
+    ERR_clear_error();
     result = SSL_read(cbuf->ssl_con, buf, nbytes);
     if (result > 0) {
-        /* successful write, but we need to check to see if we need to
-         * write more or try a read.
-         */
-        if (cbuf->wlist_size) {
-            cbuf->state = WANT_SSL_WRITE;
-        } else if (SSL_pending(cbuf->ssl_con)>0) {
-            cbuf->state = WANT_SSL_READ;
-        } else {
-            cbuf->state = IDLE;
-        }
+        /* success. what to do next is up to the caller. */
         return result;
     }
 
@@ -201,7 +195,7 @@ int sslsocket_read(cbuf_t *cbuf, void *buf, size_t nbytes)
 
         case SSL_ERROR_WANT_WRITE:
             vmdb(MSG_INFO, "sslsocket_read: fd%d: SSL_ERROR_WANT_WRITE", cbuf->fd);
-            cbuf->state = WANT_SSL_WRITE;
+            cbuf->state = WANT_SSL_READ;
             return 0;
 
         case SSL_ERROR_ZERO_RETURN:
@@ -259,18 +253,10 @@ int sslsocket_write(cbuf_t *cbuf, void *buf, size_t nbytes)
 {
     int result, ssl_error;
 
+    ERR_clear_error();
     result = SSL_write(cbuf->ssl_con, buf, nbytes);
     if (result > 0) {
-        /* successful write, but we need to check to see if we need to
-         * write more or try a read.
-         */
-        if (cbuf->wlist_size) {
-            cbuf->state = WANT_SSL_WRITE;
-        } else if (SSL_pending(cbuf->ssl_con)>0) {
-            cbuf->state = WANT_SSL_READ;
-        } else {
-            cbuf->state = IDLE;
-        }
+        /* success. what to do next is up to the caller. */
         return result;
     }
 
-- 
2.43.0


From 59f06bfa245027b05a4795dd5cf0e3843d3813c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:08 +0000
Subject: [PATCH 07/59] fix: accept packets of the maximum length the protocol
 allows

A packet with a length byte of 255 got the client disconnected.
---
 pktserv/pktsocket.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index 798f880..7a6e630 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -156,7 +156,7 @@ int pktsocket_read(cbuf_t *cbuf)
     if (cbuf->newmsg) {
 
         /* set up our packet buffer */
-        if ( (cbuf->rbuf = _msgbuf_alloc(cbuf->rbuf, MAX_PKT_LEN)) == NULL) {
+        if ( (cbuf->rbuf = _msgbuf_alloc(cbuf->rbuf, MAX_PKT_LEN+1)) == NULL) {
             cbuf->state = WANT_DISCONNECT;
             return -1;
         }
@@ -208,14 +208,14 @@ int pktsocket_read(cbuf_t *cbuf)
          * this is in case you've configured the server with
          * the cbuf buffer size less than the maximum allowed
          * by the size byte (255) in the protocol. not normal,
-         * but it's possible. the -1 is for the null we want to
-         * tack on at the end.
+         * but it's possible. there's one more byte in the buffer
+         * for the null we want to tack on at the end.
          */
-        if ( cbuf->rbuf->len > (MAX_PKT_LEN-1) )
+        if ( cbuf->rbuf->len > MAX_PKT_LEN )
         {
             vmdb(MSG_ERR, 
                  "fd#%d: sent oversized packet (%d>%d); terminating connection...",
-                 cbuf->fd, (size_t)(cbuf->rbuf->len), (MAX_PKT_LEN-1));
+                 cbuf->fd, (size_t)(cbuf->rbuf->len), MAX_PKT_LEN);
             cbuf->state = WANT_DISCONNECT;
             return -1;
         }
-- 
2.43.0


From 9e73cb788951016eee760c1c7f1f247f9f5a96fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:35 +0000
Subject: [PATCH 08/59] fix: disconnect clients whose login failed

S_kill was only honoured for users past LOGIN_FALSE, so a refused login
(wrong login type, nickname in use, denied host, ...) left the connection
open forever, and one refused after the user entry was filled in left its
nickname in the table where it blocked others and could be messaged.
---
 server/ipcf.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 5c475c6..86ac6fc 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -75,13 +75,15 @@ void s_didpoll(int n)
         }
 
         for(i=0;i<MAX_REAL_USERS;i++) {
-            if ( u_tab[i].login > LOGIN_FALSE ) {
-                if (S_kill[i] > 0) {
-                    sprintf(mbuf, "[KILL] killing %d (%d)", i, S_kill[i]);
-                    mdb(MSG_INFO, mbuf);
+            /* this has to include the ones that never logged in, as that's
+             * what a failed login leaves behind.
+             */
+            if (S_kill[i] > 0) {
+                sprintf(mbuf, "[KILL] killing %d (%d)", i, S_kill[i]);
+                mdb(MSG_INFO, mbuf);
+                if (u_tab[i].login > LOGIN_FALSE)
                     server_stats.drops++;
-                    pktserv_disconnect(i);
-                }
+                pktserv_disconnect(i);
             }
         }
 
-- 
2.43.0


From a2014a67c08f6892d1128e0836de43ff14e9087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:35 +0000
Subject: [PATCH 09/59] fix: never give a connection the slot of the Server
 user

A connection whose descriptor was MAX_USERS-1 shared the table entry of the
resident (logged in) Server user: it overwrote its nodeid and its packets
were executed as if Server had sent them, without any login.
---
 server/send.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/server/send.c b/server/send.c
index ab12279..826d2da 100644
--- a/server/send.c
+++ b/server/send.c
@@ -190,9 +190,11 @@ void s_new_user(int n, int secure)
 {
     char *cp;
 
-    /* Check bounds: file descriptor must be < MAX_USERS to use as array index */
-    if (n < 0 || n >= MAX_USERS) {
-        vmdb(MSG_ERR, "s_new_user: invalid file descriptor %d (must be 0-%d), closing connection", n, MAX_USERS - 1);
+    /* Check bounds: file descriptor must be < MAX_REAL_USERS to use as array
+     * index; the last slot belongs to the resident Server user.
+     */
+    if (n < 0 || n >= MAX_REAL_USERS) {
+        vmdb(MSG_ERR, "s_new_user: invalid file descriptor %d (must be 0-%d), closing connection", n, MAX_REAL_USERS - 1);
         pktserv_disconnect(n);
         return;
     }
-- 
2.43.0


From 40387e872af8e36635c51a59bbcf5541e6987eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:35 +0000
Subject: [PATCH 10/59] fix: clean up properly after a login that failed to
 join its group

Such a user has no group yet: the notify loop indexed g_tab with -1 and
announced a sign-off of someone who never signed on, and the early return
left a moderatorship regained during that login attached to the slot, where
the next connection using it inherited it.
---
 server/ipcf.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 86ac6fc..77a0670 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -386,8 +386,9 @@ int s_lost_user(int n)         /* n = fd of that user */
         if ((n != j) && (u_tab[j].login > LOGIN_FALSE)) {
             if ((nlmatch(three, *u_tab[j].n_notifies) ||
                  nlmatch(one, *u_tab[j].s_notifies)) &&
-                (g_tab[find_group(u_tab[n].group)].visibility != 
-                 SUPERSECRET)) {
+                (u_tab[n].login >= LOGIN_COMPLETE) &&
+                ((ogi = find_group(u_tab[n].group)) >= 0) &&
+                (g_tab[ogi].visibility != SUPERSECRET)) {
                 /* ignore warning about 'one' being possibly truncated
                  * when copying into 'two'.
                  */
@@ -410,12 +411,13 @@ int s_lost_user(int n)         /* n = fd of that user */
     /* note: they may be moderator of a group they are NOT in */
 
     ogi = find_group(t_grp);
-    if (ogi < 0) return -1;
 
     /* check if there are any users left in present group */
     num_left = count_users_in_group(t_grp);
 
-    if ( num_left > 0) {
+    if (ogi < 0) {
+        /* their login didn't get as far as joining a group */
+    } else if ( num_left > 0) {
         /* tell remaining group members user left */
         TheTime = time(NULL);
         if (is_killed > 0)
-- 
2.43.0


From 5b2301c2adb78789b53f78146959a3fe73615d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:35 +0000
Subject: [PATCH 11/59] fix: check for a nickname in use after filtering it at
 login

"a b" becomes "a_b" when its illegal characters are replaced, so the check
on the raw field let two users have the same nickname.
---
 server/msgs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index 01838e4..c3d0f59 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -380,6 +380,9 @@ int loginmsg(int n, char *pkt)
     {
         /* regular login */
 
+        /* get rid of nasty characters in the nickname */
+        filternickname(fields[1]);
+
         /* make sure the nickname hasn't already been taken */
         if (find_user(fields[1]) >= 0)
         {
@@ -506,9 +509,6 @@ int loginmsg(int n, char *pkt)
             mdb(MSG_ERR, mbuf);
         }
 
-        /* get rid of nasty characters in the nickname */
-        filternickname(fields[1]);
-
         /* fill in what we can */
         fill_user_entry(n, fields[0], cp, fields[1],
                         fields[4], "", "", LOGIN_FALSE, 0, 0, perms);
-- 
2.43.0


From df6380ecaf0ab8239ea3ff0c6958e37bea32bd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:04 +0000
Subject: [PATCH 12/59] fix: off by one in getword

The terminator of a word of 64 or more characters was written past the buffer.
---
 server/strutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/strutil.c b/server/strutil.c
index a0083fd..29cfd8a 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -224,7 +224,7 @@ char *getword(char *s)
 {
     static char word[64];
     char *w = word;
-    while (*s != ' ' && *s != '\t' && *s != '\0' && ((w - word) < 64))
+    while (*s != ' ' && *s != '\t' && *s != '\0' && ((w - word) < sizeof(word) - 1))
         *w++ = *s++;
     *w = '\0';
     return(word);
-- 
2.43.0


From a494df4e0fa652fc0322e92a0327bdf6d27f4c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:04 +0000
Subject: [PATCH 13/59] fix: stay inside fields[] and don't use those of a
 previous packet

split() could write one element past the array, and left the entries of
fields that a packet doesn't have pointing into whatever buffer was split
last. Those get used: a login without a password field took over the bytes
of somebody else's packet (or freed memory) as its password.
---
 server/msgs.c    |  4 ++--
 server/strutil.c | 12 ++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index c3d0f59..9071db1 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -272,7 +272,7 @@ void openmsg(int n, char *pkt)
         }
     } else {
         vmdb(MSG_INFO, "%d: cannot send open messages until logged in (%s)",
-             n, fields[0]);
+             n, pkt);
     }
 }
 
@@ -923,7 +923,7 @@ void cmdmsg(int n, char *pkt)
     {
         sprintf (mbuf,
                  "%d: cannot issue command until logged in (%s)",
-                 n, fields[0]);
+                 n, pkt);
         mdb(MSG_INFO, mbuf);
     }
 }
diff --git a/server/strutil.c b/server/strutil.c
index 29cfd8a..6aa8f6c 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -268,7 +268,7 @@ int split(char *s)
          * is all cleaned up, we just stop at the MAX_FIELDS
          * which is only slightly better.
          */
-        if ( i > MAX_FIELDS )
+        if ( i >= MAX_FIELDS )
             return (MAX_FIELDS);
 
         /* find delim or EOS */
@@ -278,7 +278,15 @@ int split(char *s)
             /* got delim */
             *p = '\0';
             fields[i] = ++p;
-        } else
+        } else {
+            int j;
+
+            /* don't leave pointers to some previous packet in the
+             * fields that this one doesn't have.
+             */
+            for (j = i; j < MAX_FIELDS; j++)
+                fields[j] = p;
             return(i);
+        }
     }
 }
-- 
2.43.0


From 799dce3d8f7c41d1b3af9f19838d55480290880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:04 +0000
Subject: [PATCH 14/59] fix: don't write group names into the previous packet's
 buffer

The faked s_change() calls copied the group name to wherever fields[1] of
the last packet pointed, which is freed memory by the time an idle user gets
booted (or NULL if there was no packet yet), and can be too short for it.
---
 server/ipcf.c | 4 +++-
 server/msgs.c | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 77a0670..c57070d 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -46,6 +46,7 @@ void s_didpoll(int n)
     int i, j, newmod;
     long TheTime;
     extern int is_booting;
+    static char idle_group[MAX_GROUPLEN+1];
 
     if (n == 1) {
         /* do nothing on the frequent polls */
@@ -302,7 +303,8 @@ void s_didpoll(int n)
                     }
 
                     /* fake an s_change to group IDLE_GROUP */
-                    strcpy (fields[1], IDLE_GROUP);
+                    strcpy (idle_group, IDLE_GROUP);
+                    fields[1] = idle_group;
                     is_booting = 1;
                     s_change(i, 2);
                     is_booting = 0;
diff --git a/server/msgs.c b/server/msgs.c
index 9071db1..b290423 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -212,6 +212,7 @@ void openmsg(int n, char *pkt)
                 if ( u_recv_count[n] > 2 )
                 {
                     extern int is_booting;
+                    static char boot_group[MAX_GROUPLEN+1];
 
                     /* tell 'em it happened. */
                     sendstatus(n, "Boot", "No spamming in group 1.");
@@ -219,7 +220,8 @@ void openmsg(int n, char *pkt)
                             u_tab[n].nickname);
                     s_status_group(1,1,n, "Boot", mbuf);
                     /* fake an s_change to group ICB */
-                    strcpy (fields[1], "ICB");
+                    strcpy (boot_group, "ICB");
+                    fields[1] = boot_group;
                     is_booting = 1;
                     s_change(n, 2);
                     is_booting = 0;
@@ -369,7 +371,7 @@ int loginmsg(int n, char *pkt)
 
         /* if we got a groupname, use it */
         if ( num_fields >= 3 && fields[2][0] != '\0' )
-            sprintf (fields[1], "%s%c", fields[2], 0);
+            fields[1] = fields[2];
         else
             fields[1][0] = '\000';
 
@@ -696,7 +698,7 @@ int loginmsg(int n, char *pkt)
         }
 
         /* fake a s_change */
-        strcpy(fields[1], which_group);
+        fields[1] = which_group;
         if (s_change(n,3) < 0)
         {
             /* login fails because can't get into that group */
-- 
2.43.0


From b78cbbf826184c3e67f6c03f2b060ad3d94dde18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:04 +0000
Subject: [PATCH 15/59] fix: open message to a controlled group whose moderator
 is missing

mod is -1 while waiting for a registered moderator to return, so this read
u_tab[-1].
---
 server/msgs.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index b290423..f2d7bb1 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -260,10 +260,13 @@ void openmsg(int n, char *pkt)
             {
                 senderror (n,
                            "You do not have permission to send open messages in this group.");
-                sprintf (mbuf,
-                         "Use \"/m %s may i talk?\" to request permission.",
-                         u_tab[g_tab[gi].mod].nickname);
-                sendstatus (n, "INFO", mbuf);
+                if (g_tab[gi].mod >= 0)
+                {
+                    sprintf (mbuf,
+                             "Use \"/m %s may i talk?\" to request permission.",
+                             u_tab[g_tab[gi].mod].nickname);
+                    sendstatus (n, "INFO", mbuf);
+                }
             }
             else if (count_users_in_group(g_tab[gi].name) < 2)
                 senderror(n,
-- 
2.43.0


From 0b15cd76c8a6081a12d12fb29935dadb7206d02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:04 +0000
Subject: [PATCH 16/59] fix: don't run past the end of a pattern with an
 unterminated class

Users supply the patterns of /hush, /notify, /invite and /exclude, and one
like "[^" or "[a-" made wildmat read beyond the end of the string.
---
 server/wildmat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/wildmat.c b/server/wildmat.c
index 99367b0..53b2869 100644
--- a/server/wildmat.c
+++ b/server/wildmat.c
@@ -98,11 +98,14 @@ DoMatch(char *text, char *p)
                         matched = TRUE;
                 for (last = *p; *++p && *p != ']'; last = *p)
                     /* This next line requires a good C compiler. */
-                    if (*p == '-' && p[1] != ']'
+                    if (*p == '-' && p[1] != ']' && p[1] != '\0'
                         ? *text <= *++p && *text >= last : *text == *p)
                         matched = TRUE;
                 if (matched == reverse)
                     return FALSE;
+                if (*p == '\0')
+                    /* Unterminated class. */
+                    return FALSE;
                 continue;
         }
     }
-- 
2.43.0


From 0cd8521cd73f77dac685a8645d4ea8efa1b4ece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:57 +0000
Subject: [PATCH 17/59] fix: terminate the text of packets that had to be
 truncated

filtertext() fills all of the buffer for a source that is as long as that
or longer, without a NUL, and every caller here passes the full size of a
buffer that it then prints with %s.
---
 server/send.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/server/send.c b/server/send.c
index 826d2da..20fe395 100644
--- a/server/send.c
+++ b/server/send.c
@@ -29,11 +29,20 @@ extern char * getremotename(int socketfd);
 char packetbuffer[MAX_PKT_LEN]; /* packet buffer */
 
 
+/* filtertext() doesn't terminate what it truncates, so reserve a byte of
+ * the buffer for that.
+ */
+static void filterbuf(const char *src, char *dest, size_t size)
+{
+    filtertext(src, dest, size - 1);
+    dest[size - 1] = '\0';
+}
+
 /* send an error message to the client */
 void senderror(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA];
-    filtertext(message, msgbuf, MAX_PKT_DATA);
+    filterbuf(message, msgbuf, MAX_PKT_DATA);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s",
             ICB_M_ERROR, msgbuf);
     doSend(-1, to);
@@ -46,8 +55,8 @@ void sendperson(int from, int to, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filterbuf(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
+    filterbuf(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
 
     char one[255], two[MAX_NICKLEN+1];
     snprintf(one, 255, "%s@%s", u_tab[from].loginid, u_tab[from].nodeid);
@@ -74,8 +83,8 @@ void sendopen(int from, int to, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filterbuf(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
+    filterbuf(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s",
             ICB_M_OPEN, nickbuf, msgbuf);
@@ -107,8 +116,8 @@ void sendstatus(int to, const char *status, const char *message)
     char statusbuf[MAX_STATUS_LEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];
 
-    filtertext(status, statusbuf, MAX_STATUS_LEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
+    filterbuf(status, statusbuf, MAX_STATUS_LEN+1);
+    filterbuf(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_STATUS, statusbuf, msgbuf);
@@ -120,7 +129,7 @@ void send_cmdend(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA-4];
 
-    filtertext(message, msgbuf, MAX_PKT_DATA-4);
+    filterbuf(message, msgbuf, MAX_PKT_DATA-4);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001\001%s", 
              ICB_M_CMDOUT, "ec", msgbuf);
     doSend(-1, to);
@@ -131,7 +140,7 @@ void sends_cmdout(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA-3];
 
-    filtertext(message, msgbuf, MAX_PKT_DATA-3);
+    filterbuf(message, msgbuf, MAX_PKT_DATA-3);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_CMDOUT, "co", msgbuf);
     doSend(-1, to);
@@ -146,8 +155,8 @@ void send_person_stored(int to, const char* fromNick, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(fromNick, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filterbuf(fromNick, nickbuf, MAX_NICKLEN+1);
+    filterbuf(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s",
             ICB_M_PERSONAL, nickbuf, msgbuf);
@@ -243,8 +252,8 @@ void sendimport(int to, const char *status, const char *message)
     char statusbuf[MAX_STATUS_LEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];
 
-    filtertext(status, statusbuf, MAX_STATUS_LEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
+    filterbuf(status, statusbuf, MAX_STATUS_LEN+1);
+    filterbuf(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_IMPORTANT, statusbuf, msgbuf);
-- 
2.43.0


From fdf11c74ed5ebbaa0a71ac274c0cc5f7d31c046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:15 +0000
Subject: [PATCH 18/59] fix: free the invitations when a group stops being
 restricted

The lists were re-initialised with nlinit(), which just forgets the entries.
---
 server/s_group.c | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index 7879d54..8e2cd78 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -1374,10 +1374,10 @@ visible.
                     {
                         case SET_RESTRICT:
                             g_tab[gi].control = RESTRICTED;
-                            nlinit(g_tab[gi].n_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].n_nr_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].s_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].s_nr_bars, MAX_INVITES);
+                            nlclear(g_tab[gi].n_bars);
+                            nlclear(g_tab[gi].n_nr_bars);
+                            nlclear(g_tab[gi].s_bars);
+                            nlclear(g_tab[gi].s_nr_bars);
                             cp = "Group is now restricted.";
 
                             for (i=0; i<MAX_USERS; i++)
@@ -1405,20 +1405,20 @@ visible.
 
                         case SET_MODERATE:
                             g_tab[gi].control = MODERATED;
-                            nlinit(g_tab[gi].n_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].nr_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].s_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].sr_invites, MAX_INVITES);
+                            nlclear(g_tab[gi].n_invites);
+                            nlclear(g_tab[gi].nr_invites);
+                            nlclear(g_tab[gi].s_invites);
+                            nlclear(g_tab[gi].sr_invites);
                             cp = "Group is now moderated.";
                             break;
 
 
                         case SET_CONTROL:
                             g_tab[gi].control = CONTROLLED;
-                            nlinit(g_tab[gi].n_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].nr_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].s_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].sr_invites, MAX_INVITES);
+                            nlclear(g_tab[gi].n_invites);
+                            nlclear(g_tab[gi].nr_invites);
+                            nlclear(g_tab[gi].s_invites);
+                            nlclear(g_tab[gi].sr_invites);
                             cp = "Group is now controlled.";
                             break;
 
@@ -1651,14 +1651,14 @@ visible.
 
                         case SET_PUBLIC:
                             g_tab[gi].control = PUBLIC;
-                            nlinit(g_tab[gi].n_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].nr_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].s_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].sr_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].n_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].n_nr_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].s_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].s_nr_bars, MAX_INVITES);
+                            nlclear(g_tab[gi].n_invites);
+                            nlclear(g_tab[gi].nr_invites);
+                            nlclear(g_tab[gi].s_invites);
+                            nlclear(g_tab[gi].sr_invites);
+                            nlclear(g_tab[gi].n_bars);
+                            nlclear(g_tab[gi].n_nr_bars);
+                            nlclear(g_tab[gi].s_bars);
+                            nlclear(g_tab[gi].s_nr_bars);
                             /* cp = "Group is now public."; */
                             sprintf (cp2, "%s made group public.", 
                                      u_tab[n].nickname);
-- 
2.43.0


From e19d02bd5498528d1fc1a196830adb5645c3b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:15 +0000
Subject: [PATCH 19/59] fix: make room for an idleboot message of the maximum
 length

One of IDLEBOOT_MSG_LEN characters is accepted, and its terminator ended up
in the field behind the buffer.
---
 server/server.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.h b/server/server.h
index 21b89bd..6d62714 100644
--- a/server/server.h
+++ b/server/server.h
@@ -99,7 +99,7 @@ typedef struct {
     int	size;		/* how many people are allowed */
     int	idleboot;	/* how idle people can be before booted */
 #define	IDLEBOOT_MSG_LEN	(79-15-MAX_NICKLEN+2)
-    char	idleboot_msg[IDLEBOOT_MSG_LEN];
+    char	idleboot_msg[IDLEBOOT_MSG_LEN+1];
     /* max length of the message so it'll fit on
      * one line. 79=line length,
      * 15=strlen([=Idle-Boot=] )
-- 
2.43.0


From 2c548d779c787780d27e8b0bcd5622a98d8a33b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:15 +0000
Subject: [PATCH 20/59] fix: integer overflow in the idleboot and idlemod
 settings

A huge number of minutes wrapped around to an arbitrary (possibly negative)
number of seconds.
---
 server/s_group.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index 8e2cd78..5fdfc77 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -10,6 +10,7 @@
 #endif
 #include <stdlib.h>
 #include <assert.h>
+#include <limits.h>
 #include <string.h>
 
 #include "server.h"
@@ -1488,7 +1489,12 @@ visible.
                                 }
                                 else
                                 {
-                                    int new_ib = atoi (p2) * 60;
+                                    int new_ib = atoi (p2);
+
+                                    if ( new_ib > INT_MAX / 60 )
+                                        new_ib = -1;
+                                    else if ( new_ib > 0 )
+                                        new_ib *= 60;
 
 #ifdef MAX_IDLE
                                     if ( new_ib < 0 || new_ib > MAX_IDLE )
@@ -1602,7 +1608,12 @@ visible.
                                 }
                                 else
                                 {
-                                    int new_im = atoi (p2) * 60;
+                                    int new_im = atoi (p2);
+
+                                    if ( new_im > MAX_IDLE_MOD / 60 )
+                                        new_im = -1;
+                                    else if ( new_im > 0 )
+                                        new_im *= 60;
 
                                     if ( new_im == 0 )
                                     {
-- 
2.43.0


From 7432852bd5fa1d377d543bf5c659362032cbaa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:15 +0000
Subject: [PATCH 21/59] fix: apply the talk list of a controlled group to
 /exclude too

A user without permission to talk could still address the whole group by
excluding somebody (who needn't exist).
---
 server/s_group.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/server/s_group.c b/server/s_group.c
index 5fdfc77..fafbcd2 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -1875,6 +1875,16 @@ int s_exclude(int n, int argc)
                 senderror (n, "Open messages not permitted in quiet groups.");
                 return 0;
             }
+            if (gi != -1 && g_tab[gi].control == CONTROLLED
+                && g_tab[gi].mod != n
+                && nlpresent (u_tab[n].nickname, *g_tab[gi].n_talk) == 0
+                && (strlen (u_tab[n].realname) == 0
+                    || nlpresent (u_tab[n].nickname,
+                                  *g_tab[gi].nr_talk) == 0)) {
+                senderror (n,
+                           "You do not have permission to send open messages in this group.");
+                return 0;
+            }
 
             strcpy(my_group, u_tab[n].group);
             sprintf(one, "%s@%s", u_tab[n].loginid, u_tab[n].nodeid);
-- 
2.43.0


From 51bed05cf6a5fa8e3e6f6c5cf3706673e824e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:15 +0000
Subject: [PATCH 22/59] fix: use after free when /talk replaces the talk list

The name of the removed entry was printed after the entry was freed.
---
 server/s_group.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index fafbcd2..6a4d5e2 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -2151,13 +2151,15 @@ fields[1] is nickname of person to invite
                     int        count,
                             i;
                     char    *cp;
+                    char    name[MAX_PKT_LEN];    /* talk_delete() frees it */
 
                     nl = g_tab[gi].n_talk;
                     count = nlcount(*nl);
                     for ( i = 0; i < count; i++)
                     {
-                        cp = nlget (nl);
-                        if (cp && *cp) {
+                        snprintf (name, sizeof (name), "%s", nlget (nl));
+                        cp = name;
+                        if (*cp) {
                             if ( talk_delete (cp, gi) > 0
                                  && quiet == 0 )
                             {
@@ -2171,8 +2173,9 @@ fields[1] is nickname of person to invite
                     count = nlcount(*nl);
                     for ( i = 0; i < count; i++)
                     {
-                        cp = nlget (nl);
-                        if (cp && *cp) {
+                        snprintf (name, sizeof (name), "%s", nlget (nl));
+                        cp = name;
+                        if (*cp) {
                             if ( talk_delete (cp, gi) > 0
                                  && quiet == 0 )
                             {
-- 
2.43.0


From 54394389596cea9e1997cb303a7b94549df9075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:10 +0000
Subject: [PATCH 23/59] fix: don't look up the group of a user who isn't in one

A user who is just logging in has none, so logging in to "@" plus one's own
nickname read g_tab[-1], as did "/g @nick" and "/w @nick" for the nickname of
a login that was refused but not disconnected yet.
---
 server/msgs.c    | 7 ++++---
 server/s_group.c | 3 ++-
 server/s_who.c   | 4 +++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index f2d7bb1..affb0c1 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -548,9 +548,10 @@ int loginmsg(int n, char *pkt)
             {
                 int    g = find_group(u_tab[target_user].group);
 
-                if ( ((g_tab[g].visibility == SUPERSECRET)
-                      || (g_tab[g].visibility == SECRET))
-                     && (strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)))
+                if ( g < 0
+                     || (((g_tab[g].visibility == SUPERSECRET)
+                          || (g_tab[g].visibility == SECRET))
+                         && (strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN))))
                 {
                     senderror (n,
                                "User not found or is in a secret or invisible group.");
diff --git a/server/s_group.c b/server/s_group.c
index 6a4d5e2..fa98d8e 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -221,7 +221,8 @@ if failure, message given and return is -1
                 senderror(n, "User not found.");
                 return(-1);
             }
-            else if (g_tab[find_group(u_tab[target_user].group)].visibility != VISIBLE)
+            else if ((ngi = find_group(u_tab[target_user].group)) < 0 ||
+                     g_tab[ngi].visibility != VISIBLE)
             {
                 senderror(n, "User not found.");
                 return(-1);
diff --git a/server/s_who.c b/server/s_who.c
index 3ae839a..44dff9f 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -408,7 +408,9 @@ int s_who(int n, int argc)
                     senderror(n, "User not found.");
                     return -1;
                 } else {
-                    if ((g_tab[find_group(u_tab[target_user].group)].visibility == SUPERSECRET) && (strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN))) {
+                    int g = find_group(u_tab[target_user].group);
+
+                    if (g < 0 || ((g_tab[g].visibility == SUPERSECRET) && (strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)))) {
                         senderror(n, "User not found.");
                         return -1;
                     } else {
-- 
2.43.0


From 597acac7ef663795fc3c153369105c2a0ea07bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:10 +0000
Subject: [PATCH 24/59] fix: buffer overflow listing users with several flags

"(nr,ssl)" and "(nr,aw,ssl)" don't fit in 8 bytes.
---
 server/s_who.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/s_who.c b/server/s_who.c
index 44dff9f..9523f2f 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -77,7 +77,7 @@ void pgm_long(int n, int which)
     int gpmod;
     int num_users;
     char cp[5];
-    char status[8];
+    char status[sizeof("(nr,aw,ssl)")];
     int nr = 0, aw = 0, sec=0;
     int user_list[MAX_REAL_USERS];
     int i, j;
-- 
2.43.0


From 921865a7856c52a0a02649930d36fd5d56a84311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:10 +0000
Subject: [PATCH 25/59] fix: don't write past the lists being sorted for /w

The shift to make room for an element started one place too far, beyond the
end of the array when inserting the last one that fits.
---
 server/s_who.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/s_who.c b/server/s_who.c
index 9523f2f..f8e2108 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -104,7 +104,7 @@ void pgm_long(int n, int which)
                            u_tab[user_list[i]].t_group)
 #endif
                         i++;
-                for (j = (users + 1); j > i; j--)
+                for (j = users; j > i; j--)
                     user_list[j] = user_list[j - 1];
                 user_list[i] = user;
             }
@@ -312,7 +312,7 @@ void doAll(int n, int flags)
                 while ((i < groups) && (strcasecmp(g_tab[group].name,
                                                    g_tab[group_list[i]].name) > 0))
                     i++;
-                for (j = (groups + 1); j > i; j--)
+                for (j = groups; j > i; j--)
                     group_list[j] = group_list[j - 1];
                 group_list[i] = group;
             }
-- 
2.43.0


From dedc19652188dcc807655f1929dcb98beaf93485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:10 +0000
Subject: [PATCH 26/59] fix: buffer overflow listing a group with an overdue
 moderator timeout

The timeout is only acted on when there is a member who isn't away, so what
is printed becomes an arbitrarily large negative number.
---
 server/s_who.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/s_who.c b/server/s_who.c
index f8e2108..2f81709 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -181,7 +181,7 @@ void print_group_title(int n)
 void print_group_header(int n, int grp)
 {
     char GroupName[MAX_GROUPLEN + 3];
-    char TheMod[MAX_NICKLEN + 7];
+    char TheMod[MAX_NICKLEN + 16];
     int mod;
     char TheTopic[MAX_TOPICLEN + 1];
     char Options[20];
-- 
2.43.0


From 70079a9b8f9c75f81832977076557029e246b1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:10 +0000
Subject: [PATCH 27/59] fix: show groups to users invited by address as
 registered users

/w checked the same list twice instead of the registered-only one.
---
 server/s_who.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/s_who.c b/server/s_who.c
index 2f81709..781b955 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -229,7 +229,7 @@ void print_group_header(int n, int grp)
                               *g_tab[grp].nr_invites)) && 
                    (strlen(u_tab[n].realname) > 0)) ||
                   (nlmatch(one, *g_tab[grp].s_invites)) ||
-                  ((nlmatch(one, *g_tab[grp].s_invites)) &&
+                  ((nlmatch(one, *g_tab[grp].sr_invites)) &&
                    (strlen(u_tab[n].realname) > 0)) ||
                   (! strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)));
     if ((g_tab[grp].visibility == SECRET) ||
@@ -299,7 +299,7 @@ void doAll(int n, int flags)
                                   *g_tab[group].nr_invites)) && 
                        (strlen(u_tab[n].realname) > 0)) ||
                       (nlmatch(one, *g_tab[group].s_invites)) ||
-                      ((nlmatch(one, *g_tab[group].s_invites)) &&
+                      ((nlmatch(one, *g_tab[group].sr_invites)) &&
                        (strlen(u_tab[n].realname) > 0)) ||
                       (! strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)));
         if( (strlen(g_tab[group].name)!=0) &&
-- 
2.43.0


From c123fd2ca2fc3017159483950d8286ecc0878689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:10 +0000
Subject: [PATCH 28/59] fix: forget the nickname of a refused login right away

Until the disconnect it could be found by other users, who could even be
made to pass a moderatorship to it.
---
 server/dispatch.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/dispatch.c b/server/dispatch.c
index 346f4de..809ba62 100644
--- a/server/dispatch.c
+++ b/server/dispatch.c
@@ -40,6 +40,10 @@ void dispatch(int n, char *pkt)
              * error msgs reach them before the disconnect
              */
             S_kill[n]++;  
+
+            /* and don't let others find a user who never signed on */
+            if (u_tab[n].login == LOGIN_FALSE)
+                memset(u_tab[n].nickname, 0, MAX_NICKLEN+1);
         }
         break;
 
-- 
2.43.0


From e99a48d2c4f22f30c891c546b257b5c3b923065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:04 +0000
Subject: [PATCH 29/59] fix: don't use a user's away message as a format string

It always contains two %s (one from s_away(), and the one it requires in the
message itself) or what truncation left of them, but only one argument was
passed. Echo it the way it is sent to the other user.
---
 server/s_person.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/server/s_person.c b/server/s_person.c
index d7f03e3..dd28c38 100644
--- a/server/s_person.c
+++ b/server/s_person.c
@@ -122,8 +122,7 @@ void away_handle (int src, int dest)
                          t->tm_hour > 11 ? "pm" : "am",
                          u_tab[dest].awaymsg);
 
-                snprintf(mbuf, MAX_PKT_DATA, tbuf, u_tab[dest].nickname);
-                sends_cmdout(dest, mbuf);
+                sends_cmdout(dest, tbuf);
             }
         }
     }
-- 
2.43.0


From 215ea486517a3bcbcb432c9fbd0ff125550227f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:40 +0000
Subject: [PATCH 30/59] fix: buffer overflow asking for a news entry with a
 long name

The name of the entry was copied into an 80 byte buffer, while it can be
over 200 bytes long.
---
 server/s_news.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/s_news.c b/server/s_news.c
index 5cf0af6..aff0230 100644
--- a/server/s_news.c
+++ b/server/s_news.c
@@ -62,8 +62,9 @@ int s_news(int n, int argc)
         if (first == 0)
             sendstatus(n, "News", "No news.");
     } else {
-        sprintf(fname, "news.%s", fields[1]);
-        if ((news_fd = open(fname, O_RDONLY)) >= 0) {
+        /* an entry whose name doesn't fit can't exist */
+        if (snprintf(fname, sizeof(fname), "news.%s", fields[1]) < (int)sizeof(fname) &&
+            (news_fd = open(fname, O_RDONLY)) >= 0) {
             sends_cmdout(n, "--------------------------------------");
             memset(tbuf, 0, 255);
             while ((j = read(news_fd, &c, 1)) > 0) {
-- 
2.43.0


From 69d23b68ec81ea24fb712f103349d35c54dd121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:40 +0000
Subject: [PATCH 31/59] fix: whois of a nickname of the maximum length

The copy of the nickname wasn't terminated then, so whatever followed on the
stack was sent along.
---
 server/access.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/access.c b/server/access.c
index db81a41..78fc9f2 100644
--- a/server/access.c
+++ b/server/access.c
@@ -568,6 +568,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
 
     icbdb_open ();
 
+    memset(nickstr, 0, sizeof(nickstr));
     if (icbdb_get (theNick, "nick", ICBDB_STRING, &value))
     {
         strncpy(nickstr, value, MAX_NICKLEN);
-- 
2.43.0


From c5453a01274f049847e7157378bc73af657b01be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:40 +0000
Subject: [PATCH 32/59] fix: buffer overflow showing long values from the user
 database

strncat() takes the room that's left, not the size of the whole buffer.
Values set through the server are short, but those of an imported database
don't have to be.
---
 server/access.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/server/access.c b/server/access.c
index 78fc9f2..89f7b10 100644
--- a/server/access.c
+++ b/server/access.c
@@ -545,7 +545,7 @@ int nickwrite(int forWhom, char *password, int verifyOnly, DBM *openDb)
 int nicklookup(int forWhom, const char *theNick, DBM *openDb)
 {
     char           line[255];
-    char           temp[255];
+    char           temp[255+8];    /* a line and its prefix */
     char           nickstr[MAX_NICKLEN+1];
     char           *value;
     int            retval;
@@ -584,14 +584,14 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
             while (strlen(line) < 36)
                 strcat(line, " ");
             strcat(line, "Address:   ");
-            strncat(line, value, sizeof(line)-1);
+            strncat(line, value, sizeof(line)-1 - strlen(line));
             sends_cmdout(forWhom, line);
 
             sprintf(line, "Phone Number: ");
             if (!icbdb_get (theNick, "phone", ICBDB_STRING, &value))
                 strcat(line, "(None)");
             else
-                strncat(line, value, sizeof(line)-1);
+                strncat(line, value, sizeof(line)-1 - strlen(line));
 
             while (strlen(line) < 36)
                 strcat(line, " ");
@@ -600,7 +600,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
             if (!icbdb_get (theNick, "realname", ICBDB_STRING, &value))
                 strcat(line, "(None)");
             else
-                strncat(line, value, sizeof(line)-1);
+                strncat(line, value, sizeof(line)-1 - strlen(line));
 
             sends_cmdout(forWhom, line);
 
@@ -608,7 +608,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
             if (!icbdb_get (theNick, "signon", ICBDB_STRING, &value))
                 strcat(line, "(unknown)");
             else
-                strncat(line, value, sizeof(line)-1);
+                strncat(line, value, sizeof(line)-1 - strlen(line));
 
             while (strlen(line) < 36)
                 strcat(line, " ");
@@ -617,27 +617,27 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
             if (!icbdb_get (theNick, "signoff", ICBDB_STRING, &value))
                 strcat(line, "(unknown)");
             else
-                strncat(line, value, sizeof(line)-1);
+                strncat(line, value, sizeof(line)-1 - strlen(line));
 
             sends_cmdout(forWhom, line);
 
             if (icbdb_get (theNick, "email", ICBDB_STRING, &value))
             {
                 strcpy(line, "E-mail addr:  ");
-                strncat(line, value, sizeof(line)-1);
+                strncat(line, value, sizeof(line)-1 - strlen(line));
                 sends_cmdout(forWhom, line);
             }
 
             if (icbdb_get (theNick, "www", ICBDB_STRING, &value))
             {
                 strcpy(line, "WWW:  ");
-                strncat(line, value, sizeof(line)-1);
+                strncat(line, value, sizeof(line)-1 - strlen(line));
                 sends_cmdout(forWhom, line);
             }
 
             if (icbdb_get (theNick, "addr", ICBDB_STRING, &value))
             {
-                strncpy(line, value, sizeof(line)-1);
+                snprintf(line, sizeof(line), "%s", value);
                 sends_cmdout(forWhom, "Street Address:");
                 s = line;
                 strcpy(temp, "  ");
@@ -658,7 +658,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
 
             if (icbdb_get (theNick, "text", ICBDB_STRING, &value))
             {
-                strncpy(line, value, sizeof(line)-1);
+                snprintf(line, sizeof(line), "%s", value);
                 s = line;
                 /* traverse s and try to break on a word */
                 p = s;
@@ -738,7 +738,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
              * setting of the .secure to see if they allow auto-auth
              */
             memset(temp, 0, 255);
-            sprintf(temp, "%s@%s", u_tab[-forWhom].loginid,
+            snprintf(temp, sizeof(temp), "%s@%s", u_tab[-forWhom].loginid,
                     u_tab[-forWhom].nodeid);
             if (strcasecmp(value, temp))
                 retval = -2;
-- 
2.43.0


From 85a8025cceb8f2e7d1d4853a8ccb75bc64d58dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:40 +0000
Subject: [PATCH 33/59] fix: don't close the motd twice when it ends with a %

---
 server/s_motd.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/server/s_motd.c b/server/s_motd.c
index d3fecd5..a51bb1f 100644
--- a/server/s_motd.c
+++ b/server/s_motd.c
@@ -37,10 +37,8 @@ int s_motd(int n, int argc)
             {
                 i = read(motd_fd, &c, 1);
                 if (i <= 0) {
-                    if (close(motd_fd) != 0) {
-                        sprintf(mbuf, "MOTD File Close: %s", strerror(errno));
-                        mdb(MSG_ERR, mbuf);
-                    }
+                    /* the file ends here; it's closed below */
+                    break;
                 }
                 else if (c == 'U') {
                     char    *value;
-- 
2.43.0


From 6f723197a613ce9ac3bffdc4cc644936a206be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:40 +0000
Subject: [PATCH 34/59] fix: /whereis of a user without a connection used an
 unset address

The resident Server user isn't connected, so getpeername() fails for it.
---
 server/s_info.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/s_info.c b/server/s_info.c
index 1927c90..ef9bd1b 100644
--- a/server/s_info.c
+++ b/server/s_info.c
@@ -44,7 +44,7 @@ int s_info(int n, int argc)
         } 
         else 
         {
-            struct sockaddr_storage rs;
+            struct sockaddr_storage rs = {0};
             socklen_t rs_size = sizeof(rs);
             char addrstr[NI_MAXHOST];
             int aw, idle;
@@ -52,10 +52,10 @@ int s_info(int n, int argc)
             idle = time(NULL) - u_tab[TheirIndex].t_recv;
 
             aw = (strlen(u_tab[TheirIndex].awaymsg) > 0);
-            getpeername(TheirIndex, (struct sockaddr*)&rs, &rs_size);
 
             /* Get numeric IP address string (works for both IPv4 and IPv6) */
-            if (getnameinfo((struct sockaddr *)&rs, rs_size,
+            if (getpeername(TheirIndex, (struct sockaddr*)&rs, &rs_size) != 0 ||
+                getnameinfo((struct sockaddr *)&rs, rs_size,
                             addrstr, sizeof(addrstr), NULL, 0,
                             NI_NUMERICHOST) != 0) {
                 snprintf(addrstr, sizeof(addrstr), "(unknown)");
-- 
2.43.0


From cd134787793312b3651fd935ccc6c1511d3ae2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:40 +0000
Subject: [PATCH 35/59] fix: memory leak opening a damaged database

The entries that could be read before the damage were never freed. The
server tries to open the database again for every operation.
---
 server/icb_dbm.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/server/icb_dbm.c b/server/icb_dbm.c
index 0bedf2b..5903452 100644
--- a/server/icb_dbm.c
+++ b/server/icb_dbm.c
@@ -122,6 +122,18 @@ static void entry_free(entry_t *e)
     }
 }
 
+static void entries_free(entry_t **buckets, unsigned nbuckets)
+{
+    for (unsigned i = 0; i < nbuckets; i++) {
+        entry_t *e = buckets[i];
+        while (e) {
+            entry_t *next = e->next;
+            entry_free(e);
+            e = next;
+        }
+    }
+}
+
 /* ================================================================
  * Hash-table operations
  * ================================================================ */
@@ -319,6 +331,7 @@ DBM *dbm_open(const char *file, int flags, int mode)
     if (load_file(db) < 0) {
         int save_errno = errno;
         /* Free everything we allocated */
+        entries_free(db->buckets, db->nbuckets);
         free(db->buckets);
         free(db->path);
         free(db);
@@ -333,14 +346,7 @@ void dbm_close(DBM *db)
 {
     if (!db) return;
     flush_file(db);   /* best-effort; ignores errors on close */
-    for (unsigned i = 0; i < db->nbuckets; i++) {
-        entry_t *e = db->buckets[i];
-        while (e) {
-            entry_t *next = e->next;
-            entry_free(e);
-            e = next;
-        }
-    }
+    entries_free(db->buckets, db->nbuckets);
     free(db->buckets);
     free(db->path);
     free(db->fetch_buf);
-- 
2.43.0


From 2d5a08f16d4add6a8c82c0f33e37f34d1481ab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:40 +0000
Subject: [PATCH 36/59] fix: buffer overflow reading a large value from the
 user database

---
 server/icbdb.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/icbdb.c b/server/icbdb.c
index 0009b60..797effd 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -127,6 +127,9 @@ icbdb_get (const char *category, const char *attribute, icbdb_type type,
               data.dsize, data.dptr);
 
         if (value != NULL) {
+            /* someone else may have stored more than we do */
+            if (data.dsize > (int)sizeof (databuf) - 1)
+                data.dsize = sizeof (databuf) - 1;
             bcopy (data.dptr, databuf, data.dsize);
             databuf[data.dsize] = '\0';
 
-- 
2.43.0


From eeb65830ff11a831874ccd5572f1d41455d03a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:40 +0000
Subject: [PATCH 37/59] fix: save changes to the user database

It's only ever written to disk by dbm_close(), which wasn't called unless in
multiuser mode, so every registration, setting and stored message was lost
when the server stopped. Write it when an operation on it is done.

For that the number of times it was opened has to be right even if the file
couldn't be opened.
---
 server/dbm.h     |  2 ++
 server/icb_dbm.c |  6 ++++++
 server/icbdb.c   | 12 ++++++++++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/server/dbm.h b/server/dbm.h
index aaf90c5..096a05f 100644
--- a/server/dbm.h
+++ b/server/dbm.h
@@ -18,6 +18,7 @@
  *     val[vlen]  = value bytes
  *
  * Mutations are buffered in memory and flushed atomically on dbm_close()
+ * or dbm_sync()
  * (write-to-tmp + rename) so a crash never corrupts the file.
  */
 
@@ -39,6 +40,7 @@ typedef struct icb_dbm DBM;
 /* ---- public API ---- */
 DBM  *dbm_open(const char *file, int flags, int mode);
 void  dbm_close(DBM *db);
+int   dbm_sync(DBM *db);    /* flush now; 0 on success, -1 on error */
 datum dbm_fetch(DBM *db, datum key);
 int   dbm_store(DBM *db, datum key, datum content, int flags);
 int   dbm_delete(DBM *db, datum key);
diff --git a/server/icb_dbm.c b/server/icb_dbm.c
index 5903452..199f37c 100644
--- a/server/icb_dbm.c
+++ b/server/icb_dbm.c
@@ -353,6 +353,12 @@ void dbm_close(DBM *db)
     free(db);
 }
 
+int dbm_sync(DBM *db)
+{
+    if (!db) return -1;
+    return flush_file(db);
+}
+
 datum dbm_fetch(DBM *db, datum key)
 {
     datum out = { NULL, 0 };
diff --git a/server/icbdb.c b/server/icbdb.c
index 797effd..40100fc 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -62,11 +62,19 @@ icbdb_open (void)
 void
 icbdb_close (void)
 {
-    if (--open_count > 0 || !icbdb_multiuser)
+    if (--open_count > 0)
     {
         return;
     }
 
+    if (!icbdb_multiuser)
+    {
+        /* we keep it open, but what we did must not get lost */
+        if (db != NULL && dbm_sync (db) < 0)
+            vmdb (MSG_ERR, "User Database Write: %s", strerror(errno));
+        return;
+    }
+
     if (db != NULL)
     {
         dbm_close (db);
@@ -75,7 +83,7 @@ icbdb_close (void)
     db = NULL;
 }
 
-#define ICBDB_OPEN()    if (icbdb_open() == 0) return (0)
+#define ICBDB_OPEN()    if (icbdb_open() == 0) { icbdb_close (); return (0); }
 
 #define ICBDB_DONE(r)    icbdb_close (); return (r)
 
-- 
2.43.0


From f16df5770f030dd8dc33af4edd98e0ddc6a700da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:30 +0000
Subject: [PATCH 38/59] fix: don't blame new users for the spamming of the
 previous one

The count of open messages sent in group 1 was kept when the slot was reused
by the next connection, whose first open messages could then get it booted.
---
 server/msgs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/msgs.c b/server/msgs.c
index affb0c1..c207dbb 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -569,6 +569,7 @@ int loginmsg(int n, char *pkt)
         u_tab[n].t_on = TheTime;
         u_tab[n].t_recv = TheTime;
         u_tab[n].t_sent = TheTime;
+        u_recv_count[n] = 0;
         nlclear(u_tab[n].pri_n_hushed);
         nlinit(u_tab[n].pri_n_hushed, MAX_HUSHED);
         nlclear(u_tab[n].pub_n_hushed);
-- 
2.43.0


From 323b0a14fbd067694cca506514ef95d3fdcf0a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:35 +0000
Subject: [PATCH 39/59] fix: don't withhold an away message from the next user
 of a slot

Whoever got the same slot as the last one to be sent an away message wasn't
sent it for a while.
---
 server/users.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/users.c b/server/users.c
index 1c5569a..0d2bc33 100644
--- a/server/users.c
+++ b/server/users.c
@@ -58,12 +58,16 @@ void clear_user_item(int n)
     /* clear out anyone that has this slot:
      *   a) listed as their last priv msg
      *   b) as a pending pong request
+     *   c) as the last one who got their away message
      */
     for ( i = 0; i < MAX_USERS; i++ )
     {
         if ( lpriv_id[i] == n )
             lpriv_id[i] = -1;
 
+        if ( u_tab[i].lastaway == n )
+            u_tab[i].lastaway = 0;
+
         if ( pong_req[i] == n )
         {
             pong_req[i] = -1;
-- 
2.43.0


From a97d992a707f74f03181251ccced09b025ed67c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:10 +0000
Subject: [PATCH 40/59] fix: don't copy the password onto itself at login

---
 server/access.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/access.c b/server/access.c
index 89f7b10..7863132 100644
--- a/server/access.c
+++ b/server/access.c
@@ -503,7 +503,9 @@ int nickwrite(int forWhom, char *password, int verifyOnly, DBM *openDb)
             sendstatus(forWhom, "Register", "Nick registered");
             strcpy(u_tab[forWhom].realname, "registered");
             nickwritetime(forWhom, 0, NULL);
-            strcpy(u_tab[forWhom].password, password); /* jonl */
+            /* at login it already is the password we have */
+            if (password != u_tab[forWhom].password)
+                strcpy(u_tab[forWhom].password, password); /* jonl */
             for (i = 1; i < MAX_GROUPS; i++)
                 if ((g_tab[i].modtimeout > 0.0) &&
                     (strcmp(g_tab[i].missingmod, 
-- 
2.43.0


From 8fd8c565df6a9c5814d32f482b94257ba3f7c017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:51 +0000
Subject: [PATCH 41/59] fix: don't discard what was sent to a client when
 closing its connection

---
 pktserv/pktsocket.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index 7a6e630..a0ba9c4 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -91,8 +91,10 @@ int pktsocket_accept(cbuf_t *listen_cbuf)
              strerror(errno));
     }
 
-    /* don't allow broken connections to linger */
-    nolinger.l_onoff = 1;
+    /* don't wait in close(), but let whatever was sent still be delivered:
+     * a zero timeout would discard it, and with it the end of a who listing
+     * or the reason for being disconnected */
+    nolinger.l_onoff = 0;
     nolinger.l_linger = 0;
     if (setsockopt(ns, SOL_SOCKET, SO_LINGER,
                    (char *)&nolinger, sizeof(nolinger)) < 0) {
-- 
2.43.0


From 56bef1d338574f3522a3f59e2a34708b359bfbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:44 +0000
Subject: [PATCH 42/59] fix: a new list entry must not overwrite the first one

icbdb_list_find() reported index 0 as the first empty one whenever there
was any gap in the list.
---
 server/icbdb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/icbdb.c b/server/icbdb.c
index 40100fc..319480b 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -334,7 +334,7 @@ icbdb_list_find (const char *category, const char *attribute, icbdb_type type, v
             {
                 if (*first_empty == -1)
                 {
-                    *first_empty = 0;
+                    *first_empty = *index;
                 }
             }
 
-- 
2.43.0


From 80be379e2b8593b5361a899a5facacfae7bdf57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:44 +0000
Subject: [PATCH 43/59] fix: don't log an unset value searching a list with
 gaps

---
 server/icbdb.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/icbdb.c b/server/icbdb.c
index 319480b..f46c5cb 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -294,7 +294,7 @@ icbdb_list_find (const char *category, const char *attribute, icbdb_type type, v
         {
             case ICBDB_STRING:
                 {
-                    char    *compare;
+                    char    *compare = "";
 
                     empty = !icbdb_list_get_index (category, attribute, *index,
                                                    type, &compare);
@@ -310,7 +310,7 @@ icbdb_list_find (const char *category, const char *attribute, icbdb_type type, v
 
             case ICBDB_INT:
                 {
-                    int        compare;
+                    int        compare = 0;
 
                     empty = !icbdb_list_get_index (category, attribute, *index,
                                                    type, &compare);
-- 
2.43.0


From cd761d096e9ac96eb6c3415734be2da46a52c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:24 +0000
Subject: [PATCH 44/59] fix: don't crash on a permissions entry with no
 permissions in it

---
 server/msgs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index c207dbb..c2f8d70 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -46,13 +46,13 @@ long perm2val(char *str)
     long    perm = PERM_NULL;
     char    *cp;
 
-    cp = strtok (str, "|");
-    do
+    for (cp = strtok (str, "|"); cp != (char *)NULL;
+         cp = strtok ((char *) NULL, "|"))
     {
         if ( !strcasecmp (cp, "perm_null") ) { perm |= PERM_NULL; }
         else if ( !strcasecmp (cp, "perm_deny") ) { perm |= PERM_DENY; }
         else if ( !strcasecmp (cp, "perm_slowmsgs") ) { perm |= PERM_SLOWMSGS; }
-    } while ( (cp = strtok ((char *) NULL, "|")) != (char *)NULL );
+    }
 
     return (perm);
 }
-- 
2.43.0


From 5a4f093e160a5ef7dd2f80d6cfc22af79750b386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:07 +0000
Subject: [PATCH 45/59] fix: long stored values overflowed what follows them in
 whois

---
 server/access.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/access.c b/server/access.c
index 7863132..68c8389 100644
--- a/server/access.c
+++ b/server/access.c
@@ -598,9 +598,9 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
             while (strlen(line) < 36)
                 strcat(line, " ");
 
-            strcat(line, "Real Name: ");
+            strncat(line, "Real Name: ", sizeof(line)-1 - strlen(line));
             if (!icbdb_get (theNick, "realname", ICBDB_STRING, &value))
-                strcat(line, "(None)");
+                strncat(line, "(None)", sizeof(line)-1 - strlen(line));
             else
                 strncat(line, value, sizeof(line)-1 - strlen(line));
 
@@ -615,9 +615,9 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
             while (strlen(line) < 36)
                 strcat(line, " ");
 
-            strcat(line, "Last signoff:  ");
+            strncat(line, "Last signoff:  ", sizeof(line)-1 - strlen(line));
             if (!icbdb_get (theNick, "signoff", ICBDB_STRING, &value))
-                strcat(line, "(unknown)");
+                strncat(line, "(unknown)", sizeof(line)-1 - strlen(line));
             else
                 strncat(line, value, sizeof(line)-1 - strlen(line));
 
-- 
2.43.0


From 343f7c67034e90a5e126edebb5aefcb55eee2e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:07 +0000
Subject: [PATCH 46/59] fix: whois sent an unset or repeated line after text
 that ends at a line break

---
 server/access.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/access.c b/server/access.c
index 68c8389..28e896a 100644
--- a/server/access.c
+++ b/server/access.c
@@ -725,10 +725,11 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
                 }
 
                 if (count > 0)
+                {
                     strcpy(temp, "Text: ");
-
-                strcat(temp, s);
-                sends_cmdout(forWhom, temp);
+                    strcat(temp, s);
+                    sends_cmdout(forWhom, temp);
+                }
             }
         }
         else
-- 
2.43.0


From e7b0664ffa5809044b2fd06f446495e639f80ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:10 +0000
Subject: [PATCH 47/59] fix: don't trust the stored number of messages

---
 server/access.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/server/access.c b/server/access.c
index 28e896a..ab387d8 100644
--- a/server/access.c
+++ b/server/access.c
@@ -192,12 +192,14 @@ int nickwritemsg(int forWhom, char *user, char *message, DBM *openDb)
         i = 0;
     }
 
-    count++;
-    if (count > MAX_WRITES) {
+    if (count < 0)
+        count = 0;
+    if (count >= MAX_WRITES) {
         senderror(forWhom, "User mailbox full");
         icbdb_close ();
         return -1;
     }
+    count++;
 
     gettime();
     strftime(timebuf, 128, "%e-%h-%Y %H:%M %Z", localtime(&curtime));
@@ -274,7 +276,7 @@ int nickreadmsg(int forWhom, DBM *openDb)
         {
             senderror(forWhom, "No messages");
         }
-        else for (i = 1; i <= count; i++) 
+        else for (i = 1; i <= count && i <= MAX_WRITES; i++) 
         {
             sprintf(key, "header%d", i);
             if (icbdb_get (nick, key, ICBDB_STRING, &value)) {
-- 
2.43.0


From 8b19f58af4687dc348ef1fa21de50a2dcdbf9f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:17 +0000
Subject: [PATCH 48/59] fix: a full server spun on the connection it could not
 accept

---
 server/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/main.c b/server/main.c
index f6ac6c6..85677c0 100644
--- a/server/main.c
+++ b/server/main.c
@@ -180,9 +180,11 @@ int main(int argc, char* argv[])
     getrlimit(RLIMIT_NOFILE, &rlp);
     /*
      * The server indexes connection/user state by file descriptor.
-     * Keep RLIMIT_NOFILE within bounds so we don't generate fds >= MAX_USERS.
+     * Keep RLIMIT_NOFILE within bounds so we don't generate fds >= MAX_USERS,
+     * except for a spare one: without it accept() fails when we're full, and
+     * we'd spin on the connection that stays pending instead of refusing it.
      */
-    rlp.rlim_cur = MAX_USERS;
+    rlp.rlim_cur = MAX_USERS + 1;
     if (rlp.rlim_max < rlp.rlim_cur)
         rlp.rlim_max = rlp.rlim_cur;
     if (setrlimit(RLIMIT_NOFILE, &rlp) < 0)
-- 
2.43.0


From 2a8c8ddcaf611ca67891f8e1ef20d5382b7d0590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:59 +0000
Subject: [PATCH 49/59] fix: database tools keep values that are not UTF-8

They were replaced by U+FFFD in every record when any tool wrote the file.
---
 support/icbdb.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/support/icbdb.py b/support/icbdb.py
index de3c29a..8744caa 100755
--- a/support/icbdb.py
+++ b/support/icbdb.py
@@ -10,8 +10,14 @@ The magic bytes are b'IDB\\x01'.
 
 import os
 import struct
+import sys
 import tempfile
 
+# not everything in the database is UTF-8, and what isn't has to survive
+for _f in (sys.stdin, sys.stdout):
+    if hasattr(_f, "reconfigure"):
+        _f.reconfigure(errors="surrogateescape")
+
 MAGIC = b'IDB\x01'
 HDR_SIZE = 8
 ENTRY_HDR_SIZE = 8
@@ -101,8 +107,8 @@ class IcbDb:
                 if len(rec_hdr) < ENTRY_HDR_SIZE:
                     raise ValueError(f"Truncated entry header in {self.path}")
                 klen, vlen = struct.unpack("<II", rec_hdr)
-                key = f.read(klen).decode("utf-8", errors="replace")
-                val = f.read(vlen).decode("utf-8", errors="replace")
+                key = f.read(klen).decode("utf-8", errors="surrogateescape")
+                val = f.read(vlen).decode("utf-8", errors="surrogateescape")
                 self._data[key] = val
 
     def flush(self):
@@ -119,8 +125,8 @@ class IcbDb:
                 f.write(struct.pack("<I", len(self._data)))
                 # Entries
                 for key, val in self._data.items():
-                    kb = key.encode("utf-8")
-                    vb = val.encode("utf-8")
+                    kb = key.encode("utf-8", errors="surrogateescape")
+                    vb = val.encode("utf-8", errors="surrogateescape")
                     f.write(struct.pack("<II", len(kb), len(vb)))
                     f.write(kb)
                     f.write(vb)
-- 
2.43.0


From 6cefd7041c20954a4d84a014ad53edc975835400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:59 +0000
Subject: [PATCH 50/59] fix: database tools refuse a file whose last entry is
 cut short

The rest of it was taken for the whole, and written back as such.
---
 support/icbdb.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/support/icbdb.py b/support/icbdb.py
index 8744caa..01524a2 100755
--- a/support/icbdb.py
+++ b/support/icbdb.py
@@ -107,8 +107,12 @@ class IcbDb:
                 if len(rec_hdr) < ENTRY_HDR_SIZE:
                     raise ValueError(f"Truncated entry header in {self.path}")
                 klen, vlen = struct.unpack("<II", rec_hdr)
-                key = f.read(klen).decode("utf-8", errors="surrogateescape")
-                val = f.read(vlen).decode("utf-8", errors="surrogateescape")
+                key = f.read(klen)
+                val = f.read(vlen)
+                if len(key) < klen or len(val) < vlen:
+                    raise ValueError(f"Truncated entry in {self.path}")
+                key = key.decode("utf-8", errors="surrogateescape")
+                val = val.decode("utf-8", errors="surrogateescape")
                 self._data[key] = val
 
     def flush(self):
-- 
2.43.0


From cdad72435b15c90fa7301fd93bb157be15ce1e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:59 +0000
Subject: [PATCH 51/59] fix: dbm2icbdb.py works with ndbm and dumb databases

Only gdbm objects have firstkey() and nextkey().
---
 support/dbm2icbdb.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/support/dbm2icbdb.py b/support/dbm2icbdb.py
index fa65cc7..1968cde 100755
--- a/support/dbm2icbdb.py
+++ b/support/dbm2icbdb.py
@@ -41,17 +41,16 @@ def migrate(src_path, dst_path, verbose=False):
         sys.exit(1)
 
     with IcbDb(dst_path) as new_db:
-        key = legacy_db.firstkey()
-        while key is not None:
+        # (only gdbm has firstkey() and nextkey())
+        for key in legacy_db.keys():
             val = legacy_db[key]
             # Legacy databases store bytes; decode to str
-            key_str = key.decode("utf-8", errors="replace")
-            val_str = val.decode("utf-8", errors="replace")
+            key_str = key.decode("utf-8", errors="surrogateescape")
+            val_str = val.decode("utf-8", errors="surrogateescape")
             new_db[key_str] = val_str
             if verbose:
                 print(f"  {key_str} = {val_str}")
             count += 1
-            key = legacy_db.nextkey(key)
 
     legacy_db.close()
     return count
-- 
2.43.0


From 5d0f28c2a5169ac0b3bb79e1f4c14de99c4f6f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:17 +0000
Subject: [PATCH 52/59] fix: dbm2icbdb.py does not remove its source before
 reading it

A Berkeley DB source has the .db suffix that the result has by default.
---
 support/dbm2icbdb.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/support/dbm2icbdb.py b/support/dbm2icbdb.py
index 1968cde..f562d4f 100755
--- a/support/dbm2icbdb.py
+++ b/support/dbm2icbdb.py
@@ -40,10 +40,16 @@ def migrate(src_path, dst_path, verbose=False):
         print(f"Error opening legacy database '{src_path}': {e}", file=sys.stderr)
         sys.exit(1)
 
+    # (only gdbm has firstkey() and nextkey())
+    entries = [(key, legacy_db[key]) for key in legacy_db.keys()]
+    legacy_db.close()
+
+    # only now that everything is read, as it may be the source itself
+    if os.path.exists(dst_path + ".db"):
+        os.unlink(dst_path + ".db")
+
     with IcbDb(dst_path) as new_db:
-        # (only gdbm has firstkey() and nextkey())
-        for key in legacy_db.keys():
-            val = legacy_db[key]
+        for key, val in entries:
             # Legacy databases store bytes; decode to str
             key_str = key.decode("utf-8", errors="surrogateescape")
             val_str = val.decode("utf-8", errors="surrogateescape")
@@ -52,7 +58,6 @@ def migrate(src_path, dst_path, verbose=False):
                 print(f"  {key_str} = {val_str}")
             count += 1
 
-    legacy_db.close()
     return count
 
 
@@ -80,7 +85,6 @@ def main():
         if not yn or yn[0].lower() != "y":
             print("Aborted.", file=sys.stderr)
             sys.exit(1)
-        os.unlink(dst_file)
 
     print(f"Migrating '{args.source}' -> '{dst_file}' ...")
     count = migrate(args.source, dst, verbose=args.verbose)
-- 
2.43.0


From 5a18f3dc34d2d808173ac55e89671b8e220c9138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:15 +0000
Subject: [PATCH 53/59] fix: database tools save nothing of a change that
 failed halfway

---
 support/icbdb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/support/icbdb.py b/support/icbdb.py
index 01524a2..c52e088 100755
--- a/support/icbdb.py
+++ b/support/icbdb.py
@@ -46,7 +46,9 @@ class IcbDb:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.close()
+        # don't save what was interrupted halfway
+        if exc_type is None:
+            self.close()
         return False
 
     # ---- dict-like interface -----------------------------------------------
-- 
2.43.0


From 44158f0c864eda5aab60fbe9afd6d3f70d18361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:47 +0000
Subject: [PATCH 54/59] fix: dbm2icbdb.py replaces the database only when the
 new one is complete

---
 support/dbm2icbdb.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/support/dbm2icbdb.py b/support/dbm2icbdb.py
index f562d4f..8e329c5 100755
--- a/support/dbm2icbdb.py
+++ b/support/dbm2icbdb.py
@@ -44,11 +44,13 @@ def migrate(src_path, dst_path, verbose=False):
     entries = [(key, legacy_db[key]) for key in legacy_db.keys()]
     legacy_db.close()
 
-    # only now that everything is read, as it may be the source itself
-    if os.path.exists(dst_path + ".db"):
-        os.unlink(dst_path + ".db")
+    # the destination may be the source itself: replace it only when the
+    # new database is complete
+    tmp_path = dst_path + ".new"
+    if os.path.exists(tmp_path + ".db"):
+        os.unlink(tmp_path + ".db")
 
-    with IcbDb(dst_path) as new_db:
+    with IcbDb(tmp_path) as new_db:
         for key, val in entries:
             # Legacy databases store bytes; decode to str
             key_str = key.decode("utf-8", errors="surrogateescape")
@@ -57,6 +59,9 @@ def migrate(src_path, dst_path, verbose=False):
             if verbose:
                 print(f"  {key_str} = {val_str}")
             count += 1
+        new_db._dirty = True
+
+    os.replace(tmp_path + ".db", dst_path + ".db")
 
     return count
 
-- 
2.43.0


From b87de5919d475c8ca6f3a4d5cbc16f8dedb13875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:29 +0000
Subject: [PATCH 55/59] fix: what a client sends cannot add lines to the log

---
 server/mdb.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/server/mdb.c b/server/mdb.c
index cde1fea..da7ace9 100644
--- a/server/mdb.c
+++ b/server/mdb.c
@@ -6,6 +6,8 @@
 
 #include "config.h"
 
+#include <ctype.h>
+#include <string.h>
 #include <unistd.h>
 #ifdef HAVE_TIME_H
 #include <time.h>
@@ -37,6 +39,7 @@ void mdb(int level, const char *message)
     char tmp[BUFSIZ];
     time_t now;
     const char* msgtype = NULL;
+    size_t len, i;
 
     if ((level == MSG_ALL || level <= log_level) && icbd_log >= 0) {
         if (level > 0 && level <= num_msg_types)
@@ -46,13 +49,23 @@ void mdb(int level, const char *message)
 
         now = time(NULL);
         strftime(timebuf, 64, "%b %d %Y %H:%M:%S", localtime(&now));
-        snprintf(tmp, BUFSIZ, "%s %s %s: %s\n", 
+        snprintf(tmp, BUFSIZ - 1, "%s %s %s: %s",
                  msgtype, timebuf, thishost, message);
 
+        /* messages quote what clients sent: whatever is in there, one
+         * message is one line */
+        len = strlen(tmp);
+        while (len > 0 && tmp[len-1] == '\n')
+            len--;
+        for (i = 0; i < len; i++)
+            if (iscntrl((unsigned char)tmp[i]))
+                tmp[i] = '?';
+        tmp[len++] = '\n';
+
       	/* the "void"! ... is an obscure construct to get around the compiler
 	 * warning that we're not checking the return value. There's not
 	 * a whole lot we can do if we can't write at this point. */
-        (void)!write(icbd_log, tmp, strlen(tmp));
+        (void)!write(icbd_log, tmp, len);
     }
 }
 
-- 
2.43.0


From b963c47453a296dae67c29000a79722e05b554e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:50 +0000
Subject: [PATCH 56/59] fix: SIGTERM and SIGINT are acted on by the main loop,
 not within the handler

---
 server/icbutil.c | 14 ++++++++++++++
 server/icbutil.h |  9 +++++++++
 server/ipcf.c    |  3 +++
 server/main.c    |  4 ++--
 4 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/server/icbutil.c b/server/icbutil.c
index 8adaac7..1ec2c83 100644
--- a/server/icbutil.c
+++ b/server/icbutil.c
@@ -26,6 +26,8 @@
 
 const char *dumpfile = "icbd.dump";
 
+volatile sig_atomic_t exit_requested = 0;
+
 
 /* icbopenlogs()
  *
@@ -80,6 +82,18 @@ void icbexit(int sig)
 }
 
 
+/* icbexitsig
+ *
+ * we've been told to exit. logging and exiting aren't possible from within
+ * a signal handler (what it interrupted might hold the very locks they need),
+ * so leave that to the main loop.
+ */
+void icbexitsig(int sig)
+{
+    exit_requested = 1;
+}
+
+
 /* icbdump
  *
  * dump the current state to a file so if we restart we can pick up
diff --git a/server/icbutil.h b/server/icbutil.h
index 24c605b..46473da 100644
--- a/server/icbutil.h
+++ b/server/icbutil.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <signal.h>
+
 #include "config.h"
 
 /* icbopenlogs(void)
@@ -27,6 +29,13 @@ void icbcyclelogs(int sig);
  */
 void icbexit(int sig);
 
+/* icbexitsig
+ *
+ * signal handler: have the main loop call icbexit()
+ */
+extern volatile sig_atomic_t exit_requested;
+void icbexitsig(int sig);
+
 
 /* icbdump
  *
diff --git a/server/ipcf.c b/server/ipcf.c
index c57070d..1fa28cc 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -48,6 +48,9 @@ void s_didpoll(int n)
     extern int is_booting;
     static char idle_group[MAX_GROUPLEN+1];
 
+    if (exit_requested)
+        icbexit(0);
+
     if (n == 1) {
         /* do nothing on the frequent polls */
     } else {
diff --git a/server/main.c b/server/main.c
index 85677c0..6452d7c 100644
--- a/server/main.c
+++ b/server/main.c
@@ -46,8 +46,8 @@ void trapsignals(void)
     signal(SIGHUP, icbcyclelogs);
 
     /* exit on a hangup or terminate signal */
-    signal(SIGTERM, icbexit);
-    signal(SIGINT, icbexit);
+    signal(SIGTERM, icbexitsig);
+    signal(SIGINT, icbexitsig);
 
     /* special internal signals to restart the server */
     signal(SIGUSR1, icbdump);
-- 
2.43.0


From 010b0bac26eab19a95384bb29d7ef6e2e7fbf726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:49 +0000
Subject: [PATCH 57/59] fix: an IPv4 client of a dual-stack socket gets its
 host name

---
 pktserv/getrname.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pktserv/getrname.c b/pktserv/getrname.c
index 7243837..e17e8d5 100644
--- a/pktserv/getrname.c
+++ b/pktserv/getrname.c
@@ -70,6 +70,9 @@ static int double_reverse_check_sa(const struct sockaddr *sa, socklen_t salen,
     /* Step 2: forward lookup (hostname → addresses) */
     memset(&hints, 0, sizeof(hints));
     hints.ai_family = sa->sa_family;   /* match the original address family */
+    /* an IPv4 client of a dual-stack socket has an IPv4-mapped address */
+    if (sa->sa_family == AF_INET6)
+        hints.ai_flags = AI_V4MAPPED | AI_ALL;
     hints.ai_socktype = SOCK_STREAM;
 
     if (getaddrinfo(host, NULL, &hints, &res) != 0)
-- 
2.43.0


From e7c186477b4edc6dcf6c531671c549f691ef607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 58/59] fix: the database engine does not store what it could
 not read back

---
 server/icb_dbm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/icb_dbm.c b/server/icb_dbm.c
index 199f37c..5afc099 100644
--- a/server/icb_dbm.c
+++ b/server/icb_dbm.c
@@ -388,6 +388,10 @@ int dbm_store(DBM *db, datum key, datum content, int flags)
 {
     if (!db || !key.dptr) return -1;
     if (!content.dptr && content.dsize > 0) return -1;
+    /* what could not be read back would make the whole file unreadable */
+    if (key.dsize < 0 || (unsigned)key.dsize > ICB_DBM_MAX_RECSIZE ||
+        content.dsize < 0 || (unsigned)content.dsize > ICB_DBM_MAX_RECSIZE)
+        return -1;
 
     entry_t *e = ht_find(db, key.dptr, key.dsize, NULL, NULL);
     if (e) {
-- 
2.43.0


From cf342cc6ebddefdc0592047cd9456e220dd61ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 59/59] fix: the database tools do not store what the server
 could not read back

---
 support/icbdb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/support/icbdb.py b/support/icbdb.py
index c52e088..6b5b745 100755
--- a/support/icbdb.py
+++ b/support/icbdb.py
@@ -21,6 +21,7 @@ for _f in (sys.stdin, sys.stdout):
 MAGIC = b'IDB\x01'
 HDR_SIZE = 8
 ENTRY_HDR_SIZE = 8
+MAX_RECSIZE = 1 << 20    # the server refuses a file with longer keys or values
 
 
 class IcbDb:
@@ -56,6 +57,9 @@ class IcbDb:
         return self._data[key]
 
     def __setitem__(self, key, value):
+        for x in (key, value):
+            if len(x.encode("utf-8", errors="surrogateescape")) > MAX_RECSIZE:
+                raise ValueError(f"Key or value longer than {MAX_RECSIZE} bytes")
         self._data[key] = value
         self._dirty = True
 
-- 
2.43.0

