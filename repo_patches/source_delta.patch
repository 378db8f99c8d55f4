From e6148657b373159486df97b0a79906a7a5c824fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 01/76] fix: base64: refuse padding characters in the middle of
 the input

base64_decode() stopped at a '=' that was not part of the trailing
padding, but still returned the full computed length, handing out
uninitialised memory (e.g. for "AA=A").
---
 src/crypto.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypto.c b/src/crypto.c
index 779263f..53b71e9 100644
--- a/src/crypto.c
+++ b/src/crypto.c
@@ -376,6 +376,9 @@ static void base64_decode(xmpp_ctx_t *ctx,
         }
         if (hextet > 64)
             goto _base64_decode_error;
+        /* padding is only allowed at the end of the last quartet */
+        if (i + (dlen % 3 ? 4 : 0) != len)
+            goto _base64_decode_error;
         /* handle the remainder */
         switch (dlen % 3) {
         case 0:
-- 
2.43.0


From 017a1a7972e67bd6a671b6a8f06a482c315a3709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 02/76] fix: resolver: don't reject responses that end with a
 short non-SRV record

The bounds check demanded room for a complete SRV record behind every
owner name, so a response whose last answer is e.g. an A record was
discarded as a whole.
---
 src/resolver.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/resolver.c b/src/resolver.c
index 028320a..4a5473a 100644
--- a/src/resolver.c
+++ b/src/resolver.c
@@ -452,12 +452,14 @@ static int resolver_raw_srv_lookup_buf(xmpp_ctx_t *ctx,
         if (name_len == 0)
             return XMPP_DOMAIN_NOT_FOUND;
         j += name_len;
-        BUF_OVERFLOW_CHECK(j + 16, len);
+        /* fixed part of the record: type, class, ttl and rdlength */
+        BUF_OVERFLOW_CHECK(j + 9, len);
         type = xmpp_ntohs_ptr(&buf[j]);
         class = xmpp_ntohs_ptr(&buf[j + 2]);
         rdlength = xmpp_ntohs_ptr(&buf[j + 8]);
         j += 10;
         if (type == MESSAGE_T_SRV && class == MESSAGE_C_IN) {
+            BUF_OVERFLOW_CHECK(j + 6, len);
             rr = resolver_srv_rr_new(ctx, NULL, 0, 0, 0);
             if (rr) {
                 rr->next = *srv_rr_list;
-- 
2.43.0


From 385e6cc6075648803e4782e36dc9625ee0833670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 03/76] fix: resolver: no trailing dot when a compressed name
 ends at the root label

---
 src/resolver.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/resolver.c b/src/resolver.c
index 4a5473a..c40d519 100644
--- a/src/resolver.c
+++ b/src/resolver.c
@@ -359,6 +359,11 @@ static unsigned message_name_get(const unsigned char *buf,
                 name_max > name_len ? name_max - name_len : 0);
             if (rc == 0)
                 return 0;
+            /* A pointer to the root label leaves nothing to append, drop the
+             * separator of the previous label. */
+            if (name != NULL && name_len > 0 && name_len < name_max &&
+                name[name_len] == '\0')
+                name[name_len - 1] = '\0';
             /* Pointer is always the last. */
             break;
 
-- 
2.43.0


From 7f84a15b5605611f072fa10c25d3be2bb84efb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 04/76] fix: event: keep the send queue's back links valid when
 the head was sent

---
 src/event.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/event.c b/src/event.c
index 56d0a24..0c2d97b 100644
--- a/src/event.c
+++ b/src/event.c
@@ -174,6 +174,8 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
             /* if we've sent everything update the tail */
             if (!sq)
                 conn->send_queue_tail = NULL;
+            else
+                sq->prev = NULL;
             trigger_sm_callback(conn);
         }
         intf->flush(intf);
-- 
2.43.0


From 3b31389ee07d6ba0d7fb015054f66b3d02501ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 05/76] fix: conn: copy exactly the number of bytes passed to
 xmpp_send_raw()

---
 src/conn.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index f586a59..6481a3d 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2225,11 +2225,14 @@ void send_raw(xmpp_conn_t *conn,
     if (conn->state != XMPP_STATE_CONNECTED)
         return;
 
-    d = strophe_strndup(conn->ctx, data, len);
+    /* `data` may contain NUL bytes and doesn't have to be NUL-terminated */
+    d = strophe_alloc(conn->ctx, len + 1);
     if (!d) {
-        strophe_error(conn->ctx, "conn", "Failed to strndup");
+        strophe_error(conn->ctx, "conn", "Failed to copy %zu bytes", len);
         return;
     }
+    memcpy(d, data, len);
+    d[len] = '\0';
 
     _send_raw(conn, d, len, owner, userdata);
 }
-- 
2.43.0


From d58f9f361f7dc0ec225f8b52568fd2a039acf057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 06/76] fix: conn: allocate the SM state for component
 connections as well

Sending, receiving and disconnecting all dereference conn->sm_state, which
was only allocated by xmpp_connect_client().
---
 src/conn.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 6481a3d..d2e2de9 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -689,14 +689,6 @@ int xmpp_connect_client(xmpp_conn_t *conn,
     if (!domain)
         return XMPP_EMEM;
 
-    if (!conn->sm_state) {
-        conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
-        if (!conn->sm_state)
-            goto err_mem;
-        memset(conn->sm_state, 0, sizeof(*conn->sm_state));
-        conn->sm_state->ctx = conn->ctx;
-    }
-
     if (altdomain != NULL)
         strophe_debug(conn->ctx, "conn", "Connecting via altdomain.");
 
@@ -2185,6 +2177,14 @@ static int _conn_connect(xmpp_conn_t *conn,
 
     _conn_reset(conn);
 
+    if (!conn->sm_state) {
+        conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
+        if (!conn->sm_state)
+            return XMPP_EMEM;
+        memset(conn->sm_state, 0, sizeof(*conn->sm_state));
+        conn->sm_state->ctx = conn->ctx;
+    }
+
     conn->type = type;
     conn->domain = strophe_strdup(conn->ctx, domain);
     if (!conn->domain)
-- 
2.43.0


From 2f6a947cc8216675d078ea010bf5cda0c07b2459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 07/76] fix: conn: notify a disconnect only once per connection

conn_disconnect() can be reached again for a connection that is already
disconnected, it then closed the file descriptor a second time and called
the connection handler again.
---
 src/conn.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index d2e2de9..046a939 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -909,6 +909,9 @@ void conn_disconnect_clean(xmpp_conn_t *conn)
  */
 void conn_disconnect(xmpp_conn_t *conn)
 {
+    if (conn->state == XMPP_STATE_DISCONNECTED)
+        return;
+
     strophe_debug(conn->ctx, "xmpp", "Closing socket.");
     conn->state = XMPP_STATE_DISCONNECTED;
     conn->stream_negotiation_completed = 0;
@@ -917,8 +920,10 @@ void conn_disconnect(xmpp_conn_t *conn)
         tls_free(conn->tls);
         conn->tls = NULL;
     }
-    if (conn->sock != INVALID_SOCKET)
+    if (conn->sock != INVALID_SOCKET) {
         sock_close(conn->sock);
+        conn->sock = INVALID_SOCKET;
+    }
     _reset_sm_state_for_reconnect(conn);
 
     /* fire off connection handler */
-- 
2.43.0


From c94f64dd7fc3c422f41962f2a37a7592d72471eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 08/76] fix: conn: don't dispatch stream events after the
 disconnect

A single read can contain more events than the one that ends the
connection.
---
 src/conn.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 046a939..8a87f72 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1975,6 +1975,10 @@ static void _handle_stream_start(char *name, char **attrs, void *userdata)
     char *id;
     int failed = 0;
 
+    /* an earlier event of the same read can have ended the connection */
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     if (conn->stream_id)
         strophe_free(conn->ctx, conn->stream_id);
     conn->stream_id = NULL;
@@ -2011,6 +2015,9 @@ static void _handle_stream_end(char *name, void *userdata)
 
     UNUSED(name);
 
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     /* stream is over */
     strophe_debug(conn->ctx, "xmpp", "RECV: </stream:stream>");
     /* the session has been terminated properly, i.e. it can't be resumed */
@@ -2025,13 +2032,16 @@ static void _handle_stream_stanza(xmpp_stanza_t *stanza, void *userdata)
     char *buf;
     size_t len;
 
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     if (xmpp_stanza_to_text(stanza, &buf, &len) == 0) {
         strophe_debug(conn->ctx, "xmpp", "RECV: %s", buf);
         strophe_free(conn->ctx, buf);
     }
 
     handler_fire_stanza(conn, stanza);
-    if (conn->sm_state->sm_enabled)
+    if (conn->state == XMPP_STATE_CONNECTED && conn->sm_state->sm_enabled)
         _conn_sm_handle_stanza(conn, stanza);
 }
 
-- 
2.43.0


From 8feb9843f994e4b23d0f2f0e27c0db9634de3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:49 +0000
Subject: [PATCH 09/76] fix: conn: a refused connect call must not change the
 running connection

The connect functions replaced the list of addresses to try and set the
raw mode before they checked whether the connection is disconnected at
all. The raw mode also stuck to the object for ever.
---
 src/conn.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 8a87f72..dce62f2 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -103,6 +103,11 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
 static unsigned short _conn_default_port(xmpp_conn_t *conn,
                                          xmpp_conn_type_t type);
 static void _conn_reset(xmpp_conn_t *conn);
+static int _connect_client(xmpp_conn_t *conn,
+                           const char *altdomain,
+                           unsigned short altport,
+                           xmpp_conn_handler callback,
+                           void *userdata);
 static int _conn_connect(xmpp_conn_t *conn,
                          const char *domain,
                          xmpp_conn_type_t type,
@@ -662,6 +667,19 @@ int xmpp_connect_client(xmpp_conn_t *conn,
                         unsigned short altport,
                         xmpp_conn_handler callback,
                         void *userdata)
+{
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
+    conn->is_raw = 0;
+    return _connect_client(conn, altdomain, altport, callback, userdata);
+}
+
+static int _connect_client(xmpp_conn_t *conn,
+                           const char *altdomain,
+                           unsigned short altport,
+                           xmpp_conn_handler callback,
+                           void *userdata)
 {
     char *domain;
     int rc;
@@ -744,10 +762,15 @@ int xmpp_connect_component(xmpp_conn_t *conn,
                            xmpp_conn_handler callback,
                            void *userdata)
 {
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
     /*  The server domain, jid and password MUST be specified. */
     if (!(server && conn->jid && conn->pass))
         return XMPP_EINVOP;
 
+    conn->is_raw = 0;
+
     /* XEP-0114 does not support TLS */
     (void)xmpp_conn_set_flags(conn, xmpp_conn_get_flags(conn) |
                                         XMPP_CONN_FLAG_DISABLE_TLS);
@@ -797,8 +820,11 @@ int xmpp_connect_raw(xmpp_conn_t *conn,
                      xmpp_conn_handler callback,
                      void *userdata)
 {
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
     conn->is_raw = 1;
-    return xmpp_connect_client(conn, altdomain, altport, callback, userdata);
+    return _connect_client(conn, altdomain, altport, callback, userdata);
 }
 
 /* Called when tcp connection is established. */
-- 
2.43.0


From e140fa480de28ed077d58c5bf8793fad6c690a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:49 +0000
Subject: [PATCH 10/76] fix: conn: forget what the previous server offered when
 reconnecting

SASL mechanisms and compression methods offered on an earlier connection
were still considered as offered on the next one.
---
 src/conn.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index dce62f2..acabc17 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2196,6 +2196,8 @@ static void _conn_reset(xmpp_conn_t *conn)
     conn->error = 0;
 
     conn->tls_support = 0;
+    conn->sasl_support = 0;
+    conn->compression.supported = 0;
 
     conn->bind_required = 0;
     conn->session_required = 0;
-- 
2.43.0


From a7bfdc804c051dd105f69f5a92b56ed8d9d4f88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 11/76] fix: event: don't read beyond the received data when
 logging a parse error

---
 src/event.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/event.c b/src/event.c
index 0c2d97b..b3fffb9 100644
--- a/src/event.c
+++ b/src/event.c
@@ -314,9 +314,11 @@ next_item:
                 ret = intf->read(intf, buf, STROPHE_MESSAGE_BUFFER_SIZE);
 
                 if (ret > 0) {
-                    ret = parser_feed(conn->parser, buf, ret);
+                    int len = ret;
+                    ret = parser_feed(conn->parser, buf, len);
                     if (!ret) {
-                        strophe_debug(ctx, "xmpp", "parse error [%s]", buf);
+                        strophe_debug(ctx, "xmpp", "parse error [%.*s]", len,
+                                      buf);
                         xmpp_send_error(conn, XMPP_SE_INVALID_XML,
                                         "parse error");
                     }
-- 
2.43.0


From a38b44debaf98e1c0e1fd99a33665342b28ffe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 12/76] fix: event: close the stream after a parse error

The parser can't be used any more after an error, so the connection was
neither usable nor ended.
---
 src/event.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/event.c b/src/event.c
index b3fffb9..b51a6e2 100644
--- a/src/event.c
+++ b/src/event.c
@@ -321,6 +321,8 @@ next_item:
                                       buf);
                         xmpp_send_error(conn, XMPP_SE_INVALID_XML,
                                         "parse error");
+                        /* stream errors are unrecoverable */
+                        xmpp_disconnect(conn);
                     }
                 } else {
                     int err = intf->get_error(intf);
-- 
2.43.0


From 5d61e8cf58c5671173ebba27c58b3af4639b564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 13/76] fix: compression: free the compression state

---
 src/compression.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compression.c b/src/compression.c
index b1a2c3a..234d430 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -260,6 +260,7 @@ void compression_free(xmpp_conn_t *conn)
         inflateEnd(&comp->decompression.stream);
         strophe_free_and_null(conn->ctx, comp->decompression.buffer);
     }
+    strophe_free_and_null(conn->ctx, conn->compression.state);
 }
 
 void compression_handle_feature_children(xmpp_conn_t *conn, const char *text)
-- 
2.43.0


From 1ed16f30b528d35dd21c084bd46d4d36ce6eef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 14/76] fix: handler: apply the disconnect timeout while TCP is
 being connected

xmpp_disconnect() had no effect until the TCP connection was established
or given up.
---
 src/handler.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handler.c b/src/handler.c
index 0577252..ff777f8 100644
--- a/src/handler.c
+++ b/src/handler.c
@@ -163,7 +163,9 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
     connitem = ctx->connlist;
     while (connitem) {
         conn = connitem->conn;
-        if (conn->state != XMPP_STATE_CONNECTED) {
+        /* a connection attempt can be ended by a timed handler as well, user
+         * handlers are not fired before stream negotiation has completed */
+        if (conn->state == XMPP_STATE_DISCONNECTED) {
             connitem = connitem->next;
             continue;
         }
-- 
2.43.0


From b43733e589a6aa7c3d4258154f85a7836888c708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 15/76] fix: handler: a stream start must not extend the
 disconnect timeout

The only internal timed handler that can exist at this point is the one
of xmpp_disconnect().
---
 src/auth.c | 10 +++++-----
 src/conn.c |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index a1bc3b5..4dcd953 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -934,8 +934,8 @@ static void _stream_negotiation_success(xmpp_conn_t *conn)
  */
 void auth_handle_open(xmpp_conn_t *conn)
 {
-    /* reset all timed handlers */
-    handler_reset_timed(conn, 0);
+    /* reset the timed handlers of the user */
+    handler_reset_timed(conn, 1);
 
     /* setup handler for stream:error, we will keep this handler
      * for reopened streams until connection is disconnected */
@@ -1643,8 +1643,8 @@ void auth_handle_component_open(xmpp_conn_t *conn)
 {
     int rc;
 
-    /* reset all timed handlers */
-    handler_reset_timed(conn, 0);
+    /* reset the timed handlers of the user */
+    handler_reset_timed(conn, 1);
 
     handler_add(conn, _handle_error, XMPP_NS_STREAMS, "error", NULL, NULL);
     handler_add(conn, _handle_component_hs_response, NULL, "handshake", NULL,
@@ -1753,7 +1753,7 @@ int _handle_missing_handshake(xmpp_conn_t *conn, void *userdata)
 
 void auth_handle_open_raw(xmpp_conn_t *conn)
 {
-    handler_reset_timed(conn, 0);
+    handler_reset_timed(conn, 1);
     /* user handlers are not called before stream negotiation has completed. */
     _stream_negotiation_success(conn);
 }
diff --git a/src/conn.c b/src/conn.c
index acabc17..9e1bf0d 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -839,7 +839,7 @@ void conn_established(xmpp_conn_t *conn)
     }
 
     if (conn->is_raw) {
-        handler_reset_timed(conn, 0);
+        handler_reset_timed(conn, 1);
         /* we skip all the mandatory steps of the stream negotiation for a "raw"
            connection, but the event loop ignores user's handlers when
            conn->stream_negotiation_completed is not set. */
-- 
2.43.0


From 2ec3cfed2f6f958ac0f75eb316ac518d3f3c75e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 16/76] fix: handler: keep a deleted handler's memory until
 dispatching has finished

---
 src/common.h  |  4 +++
 src/handler.c | 86 +++++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 74 insertions(+), 16 deletions(-)

diff --git a/src/common.h b/src/common.h
index a367367..ba7df36 100644
--- a/src/common.h
+++ b/src/common.h
@@ -45,7 +45,9 @@ struct _xmpp_handlist_t {
     int enabled; /* handlers are added disabled and enabled after the
                   * handler chain is processed to prevent stanzas from
                   * getting processed by newly added handlers */
+    int deleted; /* removed from its list while handlers are being fired */
     xmpp_handlist_t *next;
+    xmpp_handlist_t *next_deleted;
 
     union {
         /* timed handlers */
@@ -88,6 +90,8 @@ struct _xmpp_ctx_t {
     xmpp_loop_status_t loop_status;
     xmpp_connlist_t *connlist;
     xmpp_handlist_t *timed_handlers;
+    int handlers_firing;
+    xmpp_handlist_t *handlers_deleted;
 
     unsigned long timeout;
 };
diff --git a/src/handler.c b/src/handler.c
index ff777f8..99cf0af 100644
--- a/src/handler.c
+++ b/src/handler.c
@@ -45,6 +45,27 @@ static void _handler_item_remove(xmpp_handlist_t **head, xmpp_handlist_t *item)
     }
 }
 
+/* Free item that is removed from its list. A handler may delete itself or any
+ * other handler (also by connecting again), so while handlers are being fired
+ * the memory is kept until the last of them has returned.
+ */
+static void _free_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
+{
+    if (ctx->handlers_firing) {
+        item->enabled = 0;
+        item->deleted = 1;
+        item->next_deleted = ctx->handlers_deleted;
+        ctx->handlers_deleted = item;
+    } else
+        strophe_free(ctx, item);
+}
+
+static void _free_id_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
+{
+    strophe_free(ctx, item->u.id);
+    _free_item(ctx, item);
+}
+
 static void _free_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
 {
     if (item->u.ns)
@@ -53,7 +74,25 @@ static void _free_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
         strophe_free(ctx, item->u.name);
     if (item->u.type)
         strophe_free(ctx, item->u.type);
-    strophe_free(ctx, item);
+    _free_item(ctx, item);
+}
+
+static void _handlers_fire_begin(xmpp_ctx_t *ctx)
+{
+    ctx->handlers_firing++;
+}
+
+static void _handlers_fire_end(xmpp_ctx_t *ctx)
+{
+    xmpp_handlist_t *item;
+
+    if (--ctx->handlers_firing > 0)
+        return;
+
+    while ((item = ctx->handlers_deleted)) {
+        ctx->handlers_deleted = item->next_deleted;
+        strophe_free(ctx, item);
+    }
 }
 
 /** Fire off all stanza handlers that match.
@@ -69,6 +108,8 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
     const char *id, *ns, *name, *type;
     int ret;
 
+    _handlers_fire_begin(conn->ctx);
+
     /* call id handlers */
     id = xmpp_stanza_get_id(stanza);
     if (id) {
@@ -89,16 +130,17 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
 
             ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
             next = item->next;
-            if (!ret) {
-                /* handler is one-shot, so delete it */
+            if (!ret && !item->deleted) {
+                /* handler is one-shot, so delete it; the list may be changed
+                   during execution of the handler */
+                head = (xmpp_handlist_t *)hash_get(conn->id_handlers, id);
                 head_old = head;
                 _handler_item_remove(&head, item);
                 if (head != head_old) {
                     /* replace old value */
                     hash_add(conn->id_handlers, id, head);
                 }
-                strophe_free(conn->ctx, item->u.id);
-                strophe_free(conn->ctx, item);
+                _free_id_item(conn->ctx, item);
             }
             item = next;
         }
@@ -132,7 +174,7 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
             ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
             /* list may be changed during execution of a handler */
             next = item->next;
-            if (!ret) {
+            if (!ret && !item->deleted) {
                 /* handler is one-shot, so delete it */
                 _handler_item_remove(&conn->handlers, item);
                 _free_handlist_item(conn->ctx, item);
@@ -140,6 +182,8 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
         }
         item = next;
     }
+
+    _handlers_fire_end(conn->ctx);
 }
 
 /** Fire off all timed handlers that are ready.
@@ -160,6 +204,8 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
 
     min = (uint64_t)(-1);
 
+    _handlers_fire_begin(ctx);
+
     connitem = ctx->connlist;
     while (connitem) {
         conn = connitem->conn;
@@ -193,10 +239,10 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
                 ret = ((xmpp_timed_handler)item->handler)(conn, item->userdata);
                 /* list may be changed during execution of a handler */
                 next = item->next;
-                if (!ret) {
+                if (!ret && !item->deleted) {
                     /* delete handler if it returned false */
                     _handler_item_remove(&conn->timed_handlers, item);
-                    strophe_free(ctx, item);
+                    _free_item(ctx, item);
                 }
             } else if (min > (item->u.period - elapsed))
                 min = item->u.period - elapsed;
@@ -215,6 +261,12 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
     item = ctx->timed_handlers;
     while (item) {
         next = item->next;
+        /* skip handlers that were deleted by the previous one */
+        if (item->deleted) {
+            item = next;
+            continue;
+        }
+
         timestamp = time_stamp();
         elapsed = time_elapsed(item->u.last_stamp, timestamp);
         if (elapsed >= item->u.period) {
@@ -224,10 +276,10 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
                 ((xmpp_global_timed_handler)item->handler)(ctx, item->userdata);
             /* list may be changed during execution of a handler */
             next = item->next;
-            if (!ret) {
+            if (!ret && !item->deleted) {
                 /* delete handler if it returned false */
                 _handler_item_remove(&ctx->timed_handlers, item);
-                strophe_free(ctx, item);
+                _free_item(ctx, item);
             }
         } else if (min > (item->u.period - elapsed))
             min = item->u.period - elapsed;
@@ -235,6 +287,8 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
         item = next;
     }
 
+    _handlers_fire_end(ctx);
+
     return min;
 }
 
@@ -285,6 +339,7 @@ static void _timed_handler_add(xmpp_ctx_t *ctx,
     item->handler = handler;
     item->userdata = userdata;
     item->enabled = 0;
+    item->deleted = 0;
 
     item->u.period = period;
     item->u.last_stamp = time_stamp();
@@ -304,7 +359,7 @@ static void _timed_handler_delete(xmpp_ctx_t *ctx,
         item = *handlers_list;
         if (item->handler == handler) {
             *handlers_list = item->next;
-            strophe_free(ctx, item);
+            _free_item(ctx, item);
         } else {
             handlers_list = &item->next;
         }
@@ -352,6 +407,7 @@ static void _id_handler_add(xmpp_conn_t *conn,
     item->handler = handler;
     item->userdata = userdata;
     item->enabled = 0;
+    item->deleted = 0;
     item->next = NULL;
 
     item->u.id = strophe_strdup(conn->ctx, id);
@@ -401,8 +457,7 @@ void xmpp_id_handler_delete(xmpp_conn_t *conn,
                 hash_add(conn->id_handlers, id, next);
             }
 
-            strophe_free(conn->ctx, item->u.id);
-            strophe_free(conn->ctx, item);
+            _free_id_item(conn->ctx, item);
             item = next;
         } else {
             prev = item;
@@ -675,7 +730,7 @@ void handler_system_delete_all(xmpp_conn_t *conn)
         if (!item->user_handler) {
             next = item->next;
             _handler_item_remove(&conn->timed_handlers, item);
-            strophe_free(conn->ctx, item);
+            _free_item(conn->ctx, item);
             item = next;
         } else
             item = item->next;
@@ -690,8 +745,7 @@ void handler_system_delete_all(xmpp_conn_t *conn)
             if (!item->user_handler) {
                 next = item->next;
                 _handler_item_remove(&head, item);
-                strophe_free(conn->ctx, item->u.id);
-                strophe_free(conn->ctx, item);
+                _free_id_item(conn->ctx, item);
                 item = next;
             } else
                 item = item->next;
-- 
2.43.0


From 194880b7f6904c973721dcf67fda7759691150b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 17/76] fix: event: data left over from a closed stream must
 not end the next one

---
 src/event.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index b51a6e2..1dd5257 100644
--- a/src/event.c
+++ b/src/event.c
@@ -316,7 +316,9 @@ next_item:
                 if (ret > 0) {
                     int len = ret;
                     ret = parser_feed(conn->parser, buf, len);
-                    if (!ret) {
+                    /* the stream may have been closed, and opened again by the
+                     * user, while the data was parsed */
+                    if (!ret && conn->state == XMPP_STATE_CONNECTED) {
                         strophe_debug(ctx, "xmpp", "parse error [%.*s]", len,
                                       buf);
                         xmpp_send_error(conn, XMPP_SE_INVALID_XML,
-- 
2.43.0


From 6f8553a80b50aa406d74584aa3bd20da6827392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:00 +0000
Subject: [PATCH 18/76] fix: conn: xmpp_send_raw() must not write during the
 negotiation

---
 src/conn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 9e1bf0d..64d0373 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1033,6 +1033,9 @@ void xmpp_send_raw_string(xmpp_conn_t *conn, const char *fmt, ...)
  */
 void xmpp_send_raw(xmpp_conn_t *conn, const char *data, size_t len)
 {
+    if (!_is_connected(conn, XMPP_QUEUE_USER))
+        return;
+
     send_raw(conn, data, len, XMPP_QUEUE_USER, NULL);
 }
 
-- 
2.43.0


From 924b757d91f036adf8f40faf16bdb8d3717a5df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:00 +0000
Subject: [PATCH 19/76] fix: auth: ignore stream features that arrive after the
 timeout

---
 src/auth.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/auth.c b/src/auth.c
index 4dcd953..29ac624 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -199,12 +199,18 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
 }
 
 /* stream:features handlers */
+static int
+_handle_features(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata);
+
 static int _handle_missing_features(xmpp_conn_t *conn, void *userdata)
 {
     UNUSED(userdata);
 
     strophe_debug(conn->ctx, "xmpp", "didn't get stream features");
 
+    /* features that arrive later must not start a second authentication */
+    xmpp_handler_delete(conn, _handle_features);
+
     /* legacy auth will be attempted */
     _auth(conn);
 
-- 
2.43.0


From f2807107c9ca62fbebadca4664d03813524fed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:00 +0000
Subject: [PATCH 20/76] fix: auth: don't authenticate again if the features
 after SASL are missing

---
 src/auth.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 29ac624..29a7760 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -982,7 +982,8 @@ static void _handle_open_compress(xmpp_conn_t *conn)
     /* setup stream:features handlers */
     handler_add(conn, _handle_features_compress, XMPP_NS_STREAMS, "features",
                 NULL, NULL);
-    handler_add_timed(conn, _handle_missing_features, FEATURES_TIMEOUT, NULL);
+    handler_add_timed(conn, _handle_missing_features_sasl, FEATURES_TIMEOUT,
+                      NULL);
 }
 
 static int _do_bind(xmpp_conn_t *conn, xmpp_stanza_t *bind)
@@ -1077,7 +1078,7 @@ static int _handle_features_compress(xmpp_conn_t *conn,
     xmpp_stanza_t *child;
 
     /* remove missing features handler */
-    xmpp_timed_handler_delete(conn, _handle_missing_features);
+    xmpp_timed_handler_delete(conn, _handle_missing_features_sasl);
 
     /* check for compression */
     child = xmpp_stanza_get_child_by_name_and_ns(stanza, "compression",
-- 
2.43.0


From 829a748557e445218debc8e7c23198a01fc7072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:00 +0000
Subject: [PATCH 21/76] fix: auth: don't copy the server's bind feature into
 the bind request

---
 src/auth.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auth.c b/src/auth.c
index 29a7760..c69957e 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1115,11 +1115,13 @@ _handle_features_sasl(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
     bind = xmpp_stanza_get_child_by_name_and_ns(stanza, "bind", XMPP_NS_BIND);
     if (bind) {
         conn->bind_required = 1;
-        bind = xmpp_stanza_copy(bind);
+        bind = xmpp_stanza_new(conn->ctx);
         if (!bind) {
             disconnect_mem_error(conn);
             return 0;
         }
+        xmpp_stanza_set_name(bind, "bind");
+        xmpp_stanza_set_ns(bind, XMPP_NS_BIND);
     } else {
         conn->bind_required = 0;
     }
-- 
2.43.0


From 91fd8d08e1d3a4a81489f81808a3e4770b2b505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 22/76] fix: sm: only resume a session if the server offers
 stream management

---
 src/auth.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index c69957e..2e22153 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1151,8 +1151,9 @@ _handle_features_sasl(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
        XMPP style connection or we <resume/> the previous session */
 
     /* Check whether we can <resume/> the previous session */
-    if (!conn->sm_disable && conn->sm_state->can_resume &&
-        conn->sm_state->previd && conn->sm_state->bound_jid) {
+    if (!conn->sm_disable && conn->sm_state->sm_support &&
+        conn->sm_state->can_resume && conn->sm_state->previd &&
+        conn->sm_state->bound_jid) {
         resume = xmpp_stanza_new(conn->ctx);
         if (!resume) {
             disconnect_mem_error(conn);
-- 
2.43.0


From c5aa61f2438982b81deafd82aecc41fae615dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 23/76] fix: sm: evaluate the value of the 'resume' attribute

---
 src/auth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auth.c b/src/auth.c
index 2e22153..f8d2301 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1411,7 +1411,8 @@ static int _handle_sm(xmpp_conn_t *const conn,
     if (strcmp(name, "enabled") == 0) {
         conn->sm_state->sm_handled_nr = 0;
         resume = xmpp_stanza_get_attribute(stanza, "resume");
-        if (resume && (strcasecmp(resume, "true") || strcmp(resume, "1"))) {
+        if (resume &&
+            (strcasecmp(resume, "true") == 0 || strcmp(resume, "1") == 0)) {
             id = xmpp_stanza_get_attribute(stanza, "id");
             if (!id) {
                 strophe_error(conn->ctx, "xmpp",
-- 
2.43.0


From 18fe34f3b904da4ec6e10650d325ff8168f491fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 24/76] fix: sm: ignore answers that do not belong to the
 request

---
 src/auth.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/auth.c b/src/auth.c
index f8d2301..43a886b 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1409,6 +1409,11 @@ static int _handle_sm(xmpp_conn_t *const conn,
         goto err_sm;
 
     if (strcmp(name, "enabled") == 0) {
+        if (conn->sm_state->resume) {
+            /* that's no answer to <resume/> */
+            name = NULL;
+            goto err_sm;
+        }
         conn->sm_state->sm_handled_nr = 0;
         resume = xmpp_stanza_get_attribute(stanza, "resume");
         if (resume &&
@@ -1430,7 +1435,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
          */
         _sm_queue_resend(conn);
         _stream_negotiation_success(conn);
-    } else if (strcmp(name, "resumed") == 0) {
+    } else if (strcmp(name, "resumed") == 0 && conn->sm_state->resume) {
         previd = xmpp_stanza_get_attribute(stanza, "previd");
         if (!previd || strcmp(previd, conn->sm_state->previd)) {
             strophe_error(conn->ctx, "xmpp",
@@ -1443,6 +1448,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
             name = NULL;
             goto err_sm;
         }
+        conn->sm_state->resume = 0;
         conn->sm_state->sm_enabled = 1;
         conn->sm_state->id = conn->sm_state->previd;
         conn->sm_state->previd = NULL;
-- 
2.43.0


From b6afe5a2bbd8a31462e7149b76223335e8e6053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:55 +0000
Subject: [PATCH 25/76] fix: sm: continue the negotiation after every kind of
 <failed/>

---
 src/auth.c | 54 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 43a886b..153a9e6 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1398,7 +1398,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
                       xmpp_stanza_t *const stanza,
                       void *const userdata)
 {
-    xmpp_stanza_t *failed_cause, *bind = NULL;
+    xmpp_stanza_t *failed_cause, *bind;
     const char *name, *id, *previd, *resume, *cause;
     unsigned long ul_h = 0;
 
@@ -1466,39 +1466,46 @@ static int _handle_sm(xmpp_conn_t *const conn,
         name = NULL;
         conn->sm_state->sm_enabled = 0;
 
-        failed_cause =
-            xmpp_stanza_get_child_by_ns(stanza, XMPP_NS_STANZAS_IETF);
-        if (!failed_cause)
+        if (!conn->sm_state->resume) {
+            /* <enable/> was refused, go on without stream-management */
+            _sm_queue_resend(conn);
+            _stream_negotiation_success(conn);
             goto err_sm;
+        }
 
-        cause = xmpp_stanza_get_name(failed_cause);
-        if (!cause)
-            goto err_sm;
+        failed_cause =
+            xmpp_stanza_get_child_by_ns(stanza, XMPP_NS_STANZAS_IETF);
+        cause = failed_cause ? xmpp_stanza_get_name(failed_cause) : NULL;
 
-        if (!strcmp(cause, "item-not-found")) {
-            if (conn->sm_state->resume) {
-                /* It's no error if there's no `h` attribute included
-                 * but if there is, it gives a hint at what the server
-                 * already received.
-                 */
-                if (!_get_h_attribute(stanza, &ul_h)) {
-                    /* In cases there's no `h` included, drop all elements. */
-                    ul_h = (unsigned long)-1;
-                }
-                _sm_queue_cleanup(conn, ul_h);
+        if (cause && !strcmp(cause, "item-not-found")) {
+            /* It's no error if there's no `h` attribute included
+             * but if there is, it gives a hint at what the server
+             * already received.
+             */
+            if (!_get_h_attribute(stanza, &ul_h)) {
+                /* In cases there's no `h` included, drop all elements. */
+                ul_h = (unsigned long)-1;
             }
-        } else if (!strcmp(cause, "feature-not-implemented")) {
-            conn->sm_state->resume = 0;
-            conn->sm_state->can_resume = 0;
+            _sm_queue_cleanup(conn, ul_h);
+        } else if (cause && !strcmp(cause, "feature-not-implemented")) {
             /* remember that the server reports having support
              * for resumption, but actually it doesn't ...
              */
             conn->sm_state->dont_request_resume = 1;
         }
+        conn->sm_state->resume = 0;
+        conn->sm_state->can_resume = 0;
         bind = conn->sm_state->bind;
         conn->sm_state->bind = NULL;
         reset_sm_state(conn->sm_state);
-        _do_bind(conn, bind);
+        if (bind) {
+            _do_bind(conn, bind);
+        } else {
+            strophe_error(conn->ctx, "xmpp",
+                          "Stream features does not allow "
+                          "resource bind.");
+            xmpp_disconnect(conn);
+        }
     } else {
         /* unknown stanza received */
         name = NULL;
@@ -1525,8 +1532,7 @@ err_sm:
                      buf);
         if (buf != err)
             strophe_free(conn->ctx, buf);
-        /* Don't disable for <failure> cases, they're no hard errors */
-        conn->sm_state->sm_enabled = bind != NULL;
+        conn->sm_state->sm_enabled = 0;
     }
     return 0;
 }
-- 
2.43.0


From d908cc135ed2a115d44b9af285ecce84aaa07532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:55 +0000
Subject: [PATCH 26/76] fix: sm: keep what the server didn't handle when a
 session can't be resumed

---
 src/auth.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 153a9e6..79dbb23 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1482,11 +1482,8 @@ static int _handle_sm(xmpp_conn_t *const conn,
              * but if there is, it gives a hint at what the server
              * already received.
              */
-            if (!_get_h_attribute(stanza, &ul_h)) {
-                /* In cases there's no `h` included, drop all elements. */
-                ul_h = (unsigned long)-1;
-            }
-            _sm_queue_cleanup(conn, ul_h);
+            if (!_get_h_attribute(stanza, &ul_h))
+                _sm_queue_cleanup(conn, ul_h);
         } else if (cause && !strcmp(cause, "feature-not-implemented")) {
             /* remember that the server reports having support
              * for resumption, but actually it doesn't ...
-- 
2.43.0


From f0bc01f6ca9ac8f8a6c5f4f647af2c0beaaee2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:54 +0000
Subject: [PATCH 27/76] fix: parser: forget unfinished text when the parser is
 reset

---
 src/parser_expat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index c1d1d38..2c25758 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -352,6 +352,8 @@ int parser_reset(parser_t *parser)
         strophe_free(parser->ctx, parser->inner_text);
         parser->inner_text = NULL;
     }
+    parser->inner_text_size = 0;
+    parser->inner_text_used = 0;
 
     if (!parser->expat)
         return 0;
-- 
2.43.0


From 824b8f55de8a1831bf57cfd29b60ae1670e9b12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:57 +0000
Subject: [PATCH 28/76] fix: conn: xmpp_send_raw() must still work for raw
 connections

---
 src/conn.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 64d0373..117e873 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1033,7 +1033,9 @@ void xmpp_send_raw_string(xmpp_conn_t *conn, const char *fmt, ...)
  */
 void xmpp_send_raw(xmpp_conn_t *conn, const char *data, size_t len)
 {
-    if (!_is_connected(conn, XMPP_QUEUE_USER))
+    /* raw connections may send before a stream has been negotiated */
+    if (!conn->is_raw && conn->type != XMPP_UNKNOWN &&
+        !_is_connected(conn, XMPP_QUEUE_USER))
         return;
 
     send_raw(conn, data, len, XMPP_QUEUE_USER, NULL);
-- 
2.43.0


From d64a3a1bf7c9fdc7351cadee9125c65486cc1ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:56 +0000
Subject: [PATCH 29/76] fix: sm: continue counting at the h the server resumed
 with

---
 src/auth.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 79dbb23..535463f 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1454,11 +1454,9 @@ static int _handle_sm(xmpp_conn_t *const conn,
         conn->sm_state->previd = NULL;
         conn->bound_jid = conn->sm_state->bound_jid;
         conn->sm_state->bound_jid = NULL;
-        if (conn->sm_state->sm_queue.head)
-            conn->sm_state->sm_sent_nr = conn->sm_state->sm_queue.head->sm_h;
-        else
-            conn->sm_state->sm_sent_nr = ul_h;
+        /* the server has counted `h` stanzas, what's sent again comes next */
         _sm_queue_cleanup(conn, ul_h);
+        conn->sm_state->sm_sent_nr = ul_h;
         _sm_queue_resend(conn);
         strophe_debug(conn->ctx, "xmpp", "Session resumed successfully.");
         _stream_negotiation_success(conn);
-- 
2.43.0


From c68fe0155f9dba721f4b18f844b57c9b1280d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 30/76] fix: sm: an acknowledgement without a valid h
 acknowledges nothing

---
 src/auth.c   |  2 +-
 src/common.h |  1 +
 src/conn.c   | 23 ++++++++++++++++++-----
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 535463f..7925b14 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1359,7 +1359,7 @@ static int _handle_missing_legacy(xmpp_conn_t *conn, void *userdata)
 static int _get_h_attribute(xmpp_stanza_t *stanza, unsigned long *ul_h)
 {
     const char *h = xmpp_stanza_get_attribute(stanza, "h");
-    if (!h || string_to_ul(h, ul_h)) {
+    if (!h || sm_string_to_h(h, ul_h)) {
         strophe_error(
             stanza->ctx, "xmpp",
             "SM error: failed parsing 'h', \"%s\" got converted to %llu.",
diff --git a/src/common.h b/src/common.h
index ba7df36..f98934e 100644
--- a/src/common.h
+++ b/src/common.h
@@ -388,6 +388,7 @@ void handler_system_delete_all(xmpp_conn_t *conn);
 
 /* utility functions */
 void trigger_sm_callback(xmpp_conn_t *conn);
+int sm_string_to_h(const char *s, unsigned long *ul_h);
 void reset_sm_state(xmpp_sm_state_t *sm_state);
 void disconnect_mem_error(xmpp_conn_t *conn);
 
diff --git a/src/conn.c b/src/conn.c
index 117e873..27c4777 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2076,6 +2076,20 @@ static void _handle_stream_stanza(xmpp_stanza_t *stanza, void *userdata)
         _conn_sm_handle_stanza(conn, stanza);
 }
 
+/* Convert the value of an 'h' attribute, an unsigned 32 bit number. */
+int sm_string_to_h(const char *s, unsigned long *ul_h)
+{
+    size_t len = strspn(s, "0123456789");
+
+    *ul_h = 0;
+    if (len == 0 || s[len] != '\0')
+        return -1;
+    errno = 0;
+    if (string_to_ul(s, ul_h) || errno || *ul_h > UINT32_MAX)
+        return -1;
+    return 0;
+}
+
 /* XEP-0198 stream management */
 static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
                                    xmpp_stanza_t *stanza)
@@ -2111,15 +2125,14 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
                 strophe_debug(conn->ctx, "conn", "Didn't find 'h' attribute.");
                 return;
             }
-            if (string_to_ul(attr_h, &ul_h)) {
+            if (sm_string_to_h(attr_h, &ul_h)) {
                 strophe_error(
                     conn->ctx, "conn",
                     "Error on strtoul() of '%s', returned value is %llu.",
                     attr_h, ul_h);
-                /* We continue here and drop the complete SM queue instead of
-                 * returning and letting the queue fill up.
-                 */
-                ul_h = ULONG_MAX;
+                /* This acknowledges nothing, ask again with the next stanza. */
+                conn->sm_state->r_sent = 0;
+                return;
             }
             while (conn->sm_state->sm_queue.head &&
                    conn->sm_state->sm_queue.head->sm_h < ul_h) {
-- 
2.43.0


From 869d45eb684bf7c2649cf4ecef65b86405f35335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 31/76] fix: sm: compare h modulo 2^32

---
 src/auth.c   | 2 +-
 src/common.h | 1 +
 src/conn.c   | 8 +++++++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 7925b14..977bad6 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1373,7 +1373,7 @@ static void _sm_queue_cleanup(xmpp_conn_t *conn, unsigned long ul_h)
 {
     xmpp_send_queue_t *e;
     while ((e = peek_queue_front(&conn->sm_state->sm_queue))) {
-        if (e->sm_h >= ul_h)
+        if (!sm_h_counts(ul_h, e))
             break;
         e = pop_queue_front(&conn->sm_state->sm_queue);
         strophe_free(conn->ctx, queue_element_free(conn->ctx, e));
diff --git a/src/common.h b/src/common.h
index f98934e..d84e094 100644
--- a/src/common.h
+++ b/src/common.h
@@ -389,6 +389,7 @@ void handler_system_delete_all(xmpp_conn_t *conn);
 /* utility functions */
 void trigger_sm_callback(xmpp_conn_t *conn);
 int sm_string_to_h(const char *s, unsigned long *ul_h);
+int sm_h_counts(unsigned long ul_h, const xmpp_send_queue_t *e);
 void reset_sm_state(xmpp_sm_state_t *sm_state);
 void disconnect_mem_error(xmpp_conn_t *conn);
 
diff --git a/src/conn.c b/src/conn.c
index 27c4777..0962b26 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2090,6 +2090,12 @@ int sm_string_to_h(const char *s, unsigned long *ul_h)
     return 0;
 }
 
+/* Did the server count the element? The counters wrap at 2^32. */
+int sm_h_counts(unsigned long ul_h, const xmpp_send_queue_t *e)
+{
+    return (int32_t)((uint32_t)ul_h - e->sm_h) > 0;
+}
+
 /* XEP-0198 stream management */
 static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
                                    xmpp_stanza_t *stanza)
@@ -2135,7 +2141,7 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
                 return;
             }
             while (conn->sm_state->sm_queue.head &&
-                   conn->sm_state->sm_queue.head->sm_h < ul_h) {
+                   sm_h_counts(ul_h, conn->sm_state->sm_queue.head)) {
                 e = pop_queue_front(&conn->sm_state->sm_queue);
                 strophe_debug_verbose(2, conn->ctx, "conn",
                                       "SM_Q_DROP: %p, h=%lu", e, e->sm_h);
-- 
2.43.0


From 31fb22961cf5a1639f84410ba80e0a3d2ae40211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 32/76] fix: sm: use the h of every failed resumption

---
 src/auth.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 977bad6..a32e703 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1475,14 +1475,15 @@ static int _handle_sm(xmpp_conn_t *const conn,
             xmpp_stanza_get_child_by_ns(stanza, XMPP_NS_STANZAS_IETF);
         cause = failed_cause ? xmpp_stanza_get_name(failed_cause) : NULL;
 
-        if (cause && !strcmp(cause, "item-not-found")) {
-            /* It's no error if there's no `h` attribute included
-             * but if there is, it gives a hint at what the server
-             * already received.
-             */
-            if (!_get_h_attribute(stanza, &ul_h))
-                _sm_queue_cleanup(conn, ul_h);
-        } else if (cause && !strcmp(cause, "feature-not-implemented")) {
+        /* It's no error if there's no `h` attribute included
+         * but if there is, it gives a hint at what the server
+         * already received.
+         */
+        if (xmpp_stanza_get_attribute(stanza, "h") &&
+            !_get_h_attribute(stanza, &ul_h))
+            _sm_queue_cleanup(conn, ul_h);
+
+        if (cause && !strcmp(cause, "feature-not-implemented")) {
             /* remember that the server reports having support
              * for resumption, but actually it doesn't ...
              */
-- 
2.43.0


From 48e9606c16ae4cf229cd5bafb74618c32200dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 33/76] fix: sm: a stream error is not a stanza

---
 src/conn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 0962b26..7cddbd5 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -127,7 +127,8 @@ void xmpp_send_error(xmpp_conn_t *conn, xmpp_error_type_t type, char *text)
 {
     xmpp_stanza_t *error = xmpp_error_new(conn->ctx, type, text);
 
-    send_stanza(conn, error, XMPP_QUEUE_STROPHE);
+    /* this is no stanza, stream management must not count or repeat it */
+    send_stanza(conn, error, XMPP_QUEUE_SM_STROPHE);
 }
 
 /** Create a new Strophe connection object.
-- 
2.43.0


From a931fa170f787c29973dd9907c50bd61d45b4eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 34/76] fix: sm: keep the resumption id until there is a new
 session

---
 src/auth.c |  2 +-
 src/conn.c | 20 +++++++++++---------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index a32e703..6360d2c 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1415,6 +1415,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
             goto err_sm;
         }
         conn->sm_state->sm_handled_nr = 0;
+        conn->sm_state->can_resume = 0;
         resume = xmpp_stanza_get_attribute(stanza, "resume");
         if (resume &&
             (strcasecmp(resume, "true") == 0 || strcmp(resume, "1") == 0)) {
@@ -1490,7 +1491,6 @@ static int _handle_sm(xmpp_conn_t *const conn,
             conn->sm_state->dont_request_resume = 1;
         }
         conn->sm_state->resume = 0;
-        conn->sm_state->can_resume = 0;
         bind = conn->sm_state->bind;
         conn->sm_state->bind = NULL;
         reset_sm_state(conn->sm_state);
diff --git a/src/conn.c b/src/conn.c
index 7cddbd5..3cf7fa8 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1618,20 +1618,21 @@ static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn)
 {
     xmpp_sm_state_t *s = conn->sm_state;
 
-    if (s->previd) {
-        strophe_free(conn->ctx, s->previd);
-        s->previd = NULL;
-    }
-
-    if (s->can_resume) {
+    if (!s->can_resume) {
+        strophe_free_and_null(conn->ctx, s->id);
+        strophe_free_and_null(conn->ctx, s->previd);
+        strophe_free_and_null(conn->ctx, s->bound_jid);
+    } else if (s->id) {
+        /* Without a new id the connection was lost before the session could be
+         * resumed, which may still be possible with the next connection.
+         */
+        strophe_free_and_null(conn->ctx, s->previd);
         s->previd = s->id;
         s->id = NULL;
 
+        strophe_free_and_null(conn->ctx, s->bound_jid);
         s->bound_jid = conn->bound_jid;
         conn->bound_jid = NULL;
-    } else if (s->id) {
-        strophe_free(conn->ctx, s->id);
-        s->id = NULL;
     }
 
     s->r_sent = s->sm_enabled = s->sm_support = s->resume = 0;
@@ -1721,6 +1722,7 @@ void reset_sm_state(xmpp_sm_state_t *sm_state)
     sm_state->sm_handled_nr = 0;
     sm_state->sm_sent_nr = 0;
     sm_state->r_sent = 0;
+    sm_state->can_resume = 0;
 }
 
 /**  c.f. \ref xmpp_conn_get_sm_state for usage documentation
-- 
2.43.0


From 75cbe949978dd6cafc9973ec8a5b9912a24639e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:32 +0000
Subject: [PATCH 35/76] fix: sm: resume the session of a restored state

---
 src/auth.c | 3 +--
 src/conn.c | 3 +++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 6360d2c..446dc23 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1152,8 +1152,7 @@ _handle_features_sasl(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
 
     /* Check whether we can <resume/> the previous session */
     if (!conn->sm_disable && conn->sm_state->sm_support &&
-        conn->sm_state->can_resume && conn->sm_state->previd &&
-        conn->sm_state->bound_jid) {
+        conn->sm_state->can_resume && conn->sm_state->previd) {
         resume = xmpp_stanza_new(conn->ctx);
         if (!resume) {
             disconnect_mem_error(conn);
diff --git a/src/conn.c b/src/conn.c
index 3cf7fa8..4eafb63 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2253,6 +2253,9 @@ static int _conn_connect(xmpp_conn_t *conn,
             return XMPP_EMEM;
         memset(conn->sm_state, 0, sizeof(*conn->sm_state));
         conn->sm_state->ctx = conn->ctx;
+    } else {
+        /* a restored state is still the one of an established session */
+        _reset_sm_state_for_reconnect(conn);
     }
 
     conn->type = type;
-- 
2.43.0


From a8f24f901b6198ad85f59023dd8e2811b1a21822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:32 +0000
Subject: [PATCH 36/76] fix: sm: don't lose what couldn't be sent again before
 the next disconnect

---
 src/auth.c   |  6 +++++-
 src/common.h |  1 +
 src/conn.c   | 24 +++++++++++++++++++++++-
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 446dc23..7e3b92f 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1381,14 +1381,18 @@ static void _sm_queue_cleanup(xmpp_conn_t *conn, unsigned long ul_h)
 
 static void _sm_queue_resend(xmpp_conn_t *conn)
 {
-    xmpp_send_queue_t *e;
+    xmpp_send_queue_t *e, *tail, *item;
     while ((e = pop_queue_front(&conn->sm_state->sm_queue))) {
         /* Re-send what was already sent out and is still in the
          * SM queue (i.e. it hasn't been ACK'ed by the server)
          */
         strophe_debug_verbose(2, conn->ctx, "conn", "SM_Q_RESEND: %p, h=%lu", e,
                               e->sm_h);
+        tail = conn->send_queue_tail;
         send_raw(conn, e->data, e->len, e->owner, NULL);
+        item = tail ? tail->next : conn->send_queue_head;
+        if (item)
+            item->resend = 1;
         strophe_free(conn->ctx, queue_element_free(conn->ctx, e));
     }
 }
diff --git a/src/common.h b/src/common.h
index d84e094..9b53ebc 100644
--- a/src/common.h
+++ b/src/common.h
@@ -167,6 +167,7 @@ struct _xmpp_send_queue_t {
     xmpp_send_queue_owner_t owner;
     void *userdata;
     uint32_t sm_h;
+    int resend; /* was sent before and is not acknowledged yet */
 
     xmpp_send_queue_t *prev, *next;
 };
diff --git a/src/conn.c b/src/conn.c
index 4eafb63..fe1e1ba 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -82,6 +82,7 @@
 static int _is_connected(xmpp_conn_t *conn, xmpp_send_queue_owner_t owner);
 static int _disconnect_cleanup(xmpp_conn_t *conn, void *userdata);
 static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn);
+static void _unlink_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e);
 static char *_conn_build_stream_tag(xmpp_conn_t *conn,
                                     char **attributes,
                                     size_t attributes_len);
@@ -1617,6 +1618,21 @@ void trigger_sm_callback(xmpp_conn_t *conn)
 static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn)
 {
     xmpp_sm_state_t *s = conn->sm_state;
+    xmpp_send_queue_t *e, *next;
+    uint32_t sm_h = s->sm_sent_nr;
+
+    /* What should have been sent again, but wasn't yet, must not get lost. */
+    for (e = conn->send_queue_head; e; e = next) {
+        next = e->next;
+        if (!e->resend)
+            continue;
+        _unlink_send_queue_element(conn, e);
+        e->written = 0;
+        e->wip = 0;
+        e->resend = 0;
+        e->sm_h = sm_h++;
+        add_queue_back(&s->sm_queue, e);
+    }
 
     if (!s->can_resume) {
         strophe_free_and_null(conn->ctx, s->id);
@@ -1764,7 +1780,7 @@ int xmpp_conn_send_queue_len(const xmpp_conn_t *conn)
         return conn->send_queue_user_len;
 }
 
-static char *_drop_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e)
+static void _unlink_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e)
 {
     if (e == conn->send_queue_head)
         conn->send_queue_head = e->next;
@@ -1779,6 +1795,11 @@ static char *_drop_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e)
     conn->send_queue_len--;
     if (e->owner == XMPP_QUEUE_USER)
         conn->send_queue_user_len--;
+}
+
+static char *_drop_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e)
+{
+    _unlink_send_queue_element(conn, e);
     return queue_element_free(conn->ctx, e);
 }
 
@@ -2440,6 +2461,7 @@ static int _send_raw(xmpp_conn_t *conn,
     item->wip = 0;
     item->userdata = userdata;
     item->owner = owner;
+    item->resend = 0;
 
     if (!conn->send_queue_tail) {
         /* first item, set head and tail */
-- 
2.43.0


From e32a895d022661ef0c97b7fe53ccda6db7543ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:46 +0000
Subject: [PATCH 37/76] fix: sm: serialize what is to be sent again as
 unacknowledged

---
 src/auth.c |  5 +++++
 src/conn.c | 49 +++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 7e3b92f..1671f1c 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1382,6 +1382,11 @@ static void _sm_queue_cleanup(xmpp_conn_t *conn, unsigned long ul_h)
 static void _sm_queue_resend(xmpp_conn_t *conn)
 {
     xmpp_send_queue_t *e, *tail, *item;
+    uint32_t sm_h = conn->sm_state->sm_sent_nr;
+
+    /* the numbers they're going to have */
+    for (e = peek_queue_front(&conn->sm_state->sm_queue); e; e = e->next)
+        e->sm_h = sm_h++;
     while ((e = pop_queue_front(&conn->sm_state->sm_queue))) {
         /* Re-send what was already sent out and is still in the
          * SM queue (i.e. it hasn't been ACK'ed by the server)
diff --git a/src/conn.c b/src/conn.c
index fe1e1ba..212fcbd 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1511,6 +1511,21 @@ static int sm_store_u32(unsigned char **next_,
     return 0;
 }
 
+static int sm_store_element(unsigned char **next,
+                            const unsigned char *const end,
+                            uint32_t sm_h,
+                            const xmpp_send_queue_t *e)
+{
+    if (sm_store_u32(next, end, 0x1a, sm_h) ||
+        sm_store_u32(next, end, 0x7a, (uint32_t)e->len))
+        return 1;
+    if (*next + e->len > end)
+        return 1;
+    memcpy(*next, e->data, e->len);
+    *next += e->len;
+    return 0;
+}
+
 static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
 {
     if (!conn->sm_state->sm_support || !conn->sm_state->sm_enabled ||
@@ -1523,6 +1538,8 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
     xmpp_send_queue_t *peek = conn->sm_state->sm_queue.head;
     size_t sm_queue_len = 0;
     size_t sm_queue_size = 0;
+    xmpp_send_queue_t *e;
+    uint32_t resend_h = conn->sm_state->sm_sent_nr;
     while (peek) {
         sm_queue_len++;
         sm_queue_size += 10 + peek->len;
@@ -1533,8 +1550,14 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
     size_t send_queue_size = 0;
     peek = conn->send_queue_head;
     while (peek) {
-        send_queue_len++;
-        send_queue_size += 5 + peek->len;
+        if (peek->resend) {
+            /* unacknowledged as well */
+            sm_queue_len++;
+            sm_queue_size += 10 + peek->len;
+        } else {
+            send_queue_len++;
+            send_queue_size += 5 + peek->len;
+        }
         peek = peek->next;
     }
 
@@ -1570,6 +1593,10 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
 
     peek = conn->send_queue_head;
     while (peek) {
+        if (peek->resend) {
+            peek = peek->next;
+            continue;
+        }
         if (sm_store_u32(&next, end, 0x7a, (uint32_t)peek->len))
             goto err_serialize;
         if (next + peek->len > end)
@@ -1582,18 +1609,20 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
     if (sm_store_u32(&next, end, 0xba, sm_queue_len))
         goto err_serialize;
 
+    /* sent, to be sent again, and about to be queued for that */
     peek = conn->sm_state->sm_queue.head;
-    while (peek) {
-        if (sm_store_u32(&next, end, 0x1a, peek->sm_h))
+    for (; peek && sm_h_counts(conn->sm_state->sm_sent_nr, peek);
+         peek = peek->next) {
+        if (sm_store_element(&next, end, peek->sm_h, peek))
             goto err_serialize;
-
-        if (sm_store_u32(&next, end, 0x7a, (uint32_t)peek->len))
+    }
+    for (e = conn->send_queue_head; e; e = e->next) {
+        if (e->resend && sm_store_element(&next, end, resend_h++, e))
             goto err_serialize;
-        if (next + peek->len > end)
+    }
+    for (; peek; peek = peek->next) {
+        if (sm_store_element(&next, end, peek->sm_h, peek))
             goto err_serialize;
-        memcpy(next, peek->data, peek->len);
-        next += peek->len;
-        peek = peek->next;
     }
 
     return buf_size;
-- 
2.43.0


From 28d281c74f9e8128e8c68fc9754f4a7483348798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:13 +0000
Subject: [PATCH 38/76] fix: sm: only count stanzas as handled

---
 src/conn.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 212fcbd..653207e 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2160,13 +2160,16 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
     char h[11];
     unsigned long ul_h;
 
+    name = xmpp_stanza_get_name(stanza);
+    if (!name)
+        return;
     ns = xmpp_stanza_get_ns(stanza);
-    if (ns && strcmp(ns, XMPP_NS_SM) != 0)
-        ++conn->sm_state->sm_handled_nr;
-    else {
-        name = xmpp_stanza_get_name(stanza);
-        if (!name)
-            return;
+    if (ns && strcmp(ns, XMPP_NS_SM) != 0) {
+        /* only stanzas count, e.g. a stream error is none */
+        if (strcmp(name, "message") == 0 || strcmp(name, "presence") == 0 ||
+            strcmp(name, "iq") == 0)
+            ++conn->sm_state->sm_handled_nr;
+    } else {
         if (strcmp(name, "r") == 0) {
             a = xmpp_stanza_new(conn->ctx);
             if (!a) {
-- 
2.43.0


From a15f9b317ec6567ca93017c015e258c8ba997dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 39/76] fix: parser: do not wait for more input when an element
 is complete

---
 src/parser_expat.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index 2c25758..2ab074f 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -363,6 +363,12 @@ int parser_reset(parser_t *parser)
     XML_SetUserData(parser->expat, parser);
     XML_SetElementHandler(parser->expat, _start_element, _end_element);
     XML_SetCharacterDataHandler(parser->expat, _characters);
+#if XML_MAJOR_VERSION > 2 || \
+    (XML_MAJOR_VERSION == 2 && XML_MINOR_VERSION >= 6)
+    /* Expat must not wait for further input if it has a complete element, the
+     * server may be waiting for our answer. */
+    XML_SetReparseDeferralEnabled(parser->expat, XML_FALSE);
+#endif
 
     return 1;
 }
-- 
2.43.0


From 1c9c47b0011963f5dc65ca872aafab97d9ffdf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 40/76] fix: sm: do not read beyond the end of a state to be
 restored

---
 src/conn.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 653207e..ebb3553 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1317,19 +1317,19 @@ struct sm_restore {
 
 static int sm_load_u32(struct sm_restore *sm, uint8_t type, uint32_t *val)
 {
+    if (sm->state_end - sm->state < 5) {
+        strophe_error(sm->conn->ctx, "conn",
+                      "Provided sm_state data is too short");
+        return XMPP_EINVOP;
+    }
     if (*sm->state != type) {
         strophe_error(
             sm->conn->ctx, "conn",
             "Invalid CBOR type at position %u: 0x%02x, expected: 0x%02x",
-            sm->state - sm->orig, *sm->state, type);
+            (unsigned int)(sm->state - sm->orig), *sm->state, type);
         return XMPP_EINVOP;
     }
     sm->state++;
-    if ((sm->state + 4) > sm->state_end) {
-        strophe_error(sm->conn->ctx, "conn",
-                      "Provided sm_state data is too short");
-        return XMPP_EINVOP;
-    }
     uint32_t v;
     memcpy(&v, sm->state, 4);
     sm->state += 4;
@@ -1343,12 +1343,12 @@ static int sm_load_string(struct sm_restore *sm, char **val, size_t *len)
     int ret = sm_load_u32(sm, 0x7a, &l);
     if (ret)
         return ret;
-    if ((sm->state + l) > sm->state_end) {
+    if (l > (size_t)(sm->state_end - sm->state)) {
         strophe_error(sm->conn->ctx, "conn",
                       "Provided sm_state data is too short");
         return XMPP_EINVOP;
     }
-    *val = strophe_alloc(sm->conn->ctx, l + 1);
+    *val = strophe_alloc(sm->conn->ctx, (size_t)l + 1);
     if (!*val)
         return XMPP_EMEM;
     memcpy(*val, sm->state, l);
-- 
2.43.0


From 5c1940230b3f8592de5e7afb03b6e2d29f4cc550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 41/76] fix: sm: refuse to restore a state that is no state

---
 src/conn.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index ebb3553..18d60db 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1436,6 +1436,11 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
     ret = sm_load_string(&sm, &conn->sm_state->id, &id_len);
     if (ret)
         goto err_reload;
+    if (strlen(conn->sm_state->id) != id_len) {
+        strophe_error(conn->ctx, "conn", "Invalid id in sm_state data");
+        ret = XMPP_EINVOP;
+        goto err_reload;
+    }
 
     uint32_t len, i;
     ret = sm_load_u32(&sm, 0x9a, &len);
@@ -1488,6 +1493,13 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
         item->owner = XMPP_QUEUE_USER;
     }
 
+    if (sm.state != sm.state_end) {
+        strophe_error(conn->ctx, "conn",
+                      "Unexpected data at the end of sm_state");
+        ret = XMPP_EINVOP;
+        goto err_reload;
+    }
+
     return XMPP_EOK;
 
 err_reload:
-- 
2.43.0


From 6652a9b0ef34840a8e4fa445e9f57bd5a1f54be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:57 +0000
Subject: [PATCH 42/76] fix: sm: a refused state must leave nothing behind,
 link the restored send queue completely

---
 src/conn.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 18d60db..a552b18 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1411,6 +1411,10 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
     }
     sm.state += 5;
 
+    xmpp_queue_t send_queue = {NULL, NULL};
+    xmpp_send_queue_t *item;
+    int send_queue_len = 0;
+
     conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
     if (!conn->sm_state)
         return XMPP_EMEM;
@@ -1446,22 +1450,16 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
     ret = sm_load_u32(&sm, 0x9a, &len);
     if (ret)
         goto err_reload;
-    conn->send_queue_user_len = conn->send_queue_len = len;
     for (i = 0; i < len; i++) {
-        xmpp_send_queue_t *item = strophe_alloc(conn->ctx, sizeof(*item));
+        item = strophe_alloc(conn->ctx, sizeof(*item));
         if (!item) {
             ret = XMPP_EMEM;
             goto err_reload;
         }
         memset(item, 0, sizeof(*item));
 
-        if (!conn->send_queue_tail) {
-            conn->send_queue_head = item;
-            conn->send_queue_tail = item;
-        } else {
-            conn->send_queue_tail->next = item;
-            conn->send_queue_tail = item;
-        }
+        add_queue_back(&send_queue, item);
+        send_queue_len++;
 
         ret = sm_load_string(&sm, &item->data, &item->len);
         if (ret)
@@ -1474,7 +1472,7 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
     if (ret)
         goto err_reload;
     for (i = 0; i < len; i++) {
-        xmpp_send_queue_t *item = strophe_alloc(conn->ctx, sizeof(*item));
+        item = strophe_alloc(conn->ctx, sizeof(*item));
         if (!item) {
             ret = XMPP_EMEM;
             goto err_reload;
@@ -1500,10 +1498,24 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
         goto err_reload;
     }
 
+    if (send_queue.head) {
+        send_queue.head->prev = conn->send_queue_tail;
+        if (conn->send_queue_tail)
+            conn->send_queue_tail->next = send_queue.head;
+        else
+            conn->send_queue_head = send_queue.head;
+        conn->send_queue_tail = send_queue.tail;
+        conn->send_queue_len += send_queue_len;
+        conn->send_queue_user_len += send_queue_len;
+    }
+
     return XMPP_EOK;
 
 err_reload:
+    while ((item = pop_queue_front(&send_queue)))
+        strophe_free(conn->ctx, queue_element_free(conn->ctx, item));
     xmpp_free_sm_state(conn->sm_state);
+    conn->sm_state = NULL;
     return ret;
 }
 
-- 
2.43.0


From 233159e62cd37094791e9e0033652883c67f7367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:57 +0000
Subject: [PATCH 43/76] fix: sm: allow to drop queue elements without an SM
 state

---
 src/conn.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index a552b18..90e3a74 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1659,7 +1659,8 @@ err_serialize:
 
 void trigger_sm_callback(xmpp_conn_t *conn)
 {
-    if (!conn || !conn->sm_callback)
+    /* the state may have been taken by xmpp_conn_get_sm_state() */
+    if (!conn || !conn->sm_callback || !conn->sm_state)
         return;
 
     unsigned char *buf;
@@ -1924,7 +1925,8 @@ char *xmpp_conn_send_queue_drop_element(xmpp_conn_t *conn,
     if (t->next && t->next->userdata == t) {
         strophe_free(conn->ctx, _drop_send_queue_element(conn, t->next));
         /* reset the flag, so we restart to send `<r>` stanzas */
-        conn->sm_state->r_sent = 0;
+        if (conn->sm_state)
+            conn->sm_state->r_sent = 0;
     }
     /* Finally drop the element */
     char *r = _drop_send_queue_element(conn, t);
-- 
2.43.0


From c64868343fbecad3c9d6406d3e2aaf1d82a52551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 44/76] fix: sock: try the next target if one can't be resolved

---
 src/sock.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sock.c b/src/sock.c
index 90b0431..f1c2b65 100644
--- a/src/sock.c
+++ b/src/sock.c
@@ -212,10 +212,10 @@ sock_t sock_connect(xmpp_sock_t *xsock)
     char buf[64];
 
     do {
-        if (!xsock->ainfo_cur) {
+        /* skip targets that can't be resolved */
+        while (!xsock->ainfo_cur && xsock->srv_rr_cur) {
             sock_getaddrinfo(xsock);
-            if (xsock->srv_rr_cur)
-                xsock->srv_rr_cur = xsock->srv_rr_cur->next;
+            xsock->srv_rr_cur = xsock->srv_rr_cur->next;
         }
         if (!xsock->ainfo_cur) {
             /* We tried all available addresses. */
-- 
2.43.0


From 33abae64dc8191c4cb0a241b40d24c0073c98a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 45/76] fix: sock: don't wait for a socket the user's callback
 refused

---
 src/sock.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sock.c b/src/sock.c
index f1c2b65..4d218d4 100644
--- a/src/sock.c
+++ b/src/sock.c
@@ -243,10 +243,13 @@ sock_t sock_connect(xmpp_sock_t *xsock)
             }
             if (rc == 0)
                 rc = sock_set_nonblocking(sock);
-            if (rc == 0)
+            if (rc == 0) {
                 rc = connect(sock, ainfo->ai_addr, ainfo->ai_addrlen);
-            /* Assume only connect() can cause "in progress" error. */
-            if (rc != 0 && !_in_progress(sock_error(NULL))) {
+                /* Only connect() can cause "in progress" error. */
+                if (rc != 0 && _in_progress(sock_error(NULL)))
+                    rc = 0;
+            }
+            if (rc != 0) {
                 sock_close(sock);
                 sock = INVALID_SOCKET;
             }
-- 
2.43.0


From 01d7a3c2a9f69663cb99e26162b2a67d1ba77f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 46/76] fix: ctx: free the global timed handlers with their
 context

---
 src/ctx.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ctx.c b/src/ctx.c
index ef4dff1..2f2ec15 100644
--- a/src/ctx.c
+++ b/src/ctx.c
@@ -497,6 +497,13 @@ xmpp_ctx_t *xmpp_ctx_new(const xmpp_mem_t *mem, const xmpp_log_t *log)
  */
 void xmpp_ctx_free(xmpp_ctx_t *ctx)
 {
+    xmpp_handlist_t *item;
+
+    while ((item = ctx->timed_handlers)) {
+        ctx->timed_handlers = item->next;
+        strophe_free(ctx, item);
+    }
+
     /* mem and log are owned by their suppliers */
     xmpp_rand_free(ctx, ctx->rand);
     strophe_free(ctx, ctx); /* pull the hole in after us */
-- 
2.43.0


From b0103bcc929b92f64782f2ec48b8735733f4be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 47/76] fix: handler: a handler added by an id handler must not
 see the same stanza

---
 src/handler.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/handler.c b/src/handler.c
index 99cf0af..0caa92b 100644
--- a/src/handler.c
+++ b/src/handler.c
@@ -110,6 +110,11 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
 
     _handlers_fire_begin(conn->ctx);
 
+    /* enable all added handlers, those that are added from now on shall not
+     * see this stanza */
+    for (item = conn->handlers; item; item = item->next)
+        item->enabled = 1;
+
     /* call id handlers */
     id = xmpp_stanza_get_id(stanza);
     if (id) {
@@ -151,10 +156,6 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
     name = xmpp_stanza_get_name(stanza);
     type = xmpp_stanza_get_type(stanza);
 
-    /* enable all added handlers */
-    for (item = conn->handlers; item; item = item->next)
-        item->enabled = 1;
-
     item = conn->handlers;
     while (item) {
         /* don't fire user handlers until stream negotiation has completed and
-- 
2.43.0


From 42092ac65bd7d0de90fcdfe59281db9e2ffa1208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 48/76] fix: auth: a stream error without children must not
 crash the client

---
 src/auth.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 1671f1c..e0e0566 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -127,13 +127,9 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
     conn->stream_error->type = XMPP_SE_UNDEFINED_CONDITION;
 
     if (conn->stream_error) {
-        child = xmpp_stanza_get_children(stanza);
-        do {
-            const char *ns = NULL;
-
-            if (child) {
-                ns = xmpp_stanza_get_ns(child);
-            }
+        for (child = xmpp_stanza_get_children(stanza); child;
+             child = xmpp_stanza_get_next(child)) {
+            const char *ns = xmpp_stanza_get_ns(child);
 
             if (ns && strcmp(ns, XMPP_NS_STREAMS_IETF) == 0) {
                 name = xmpp_stanza_get_name(child);
@@ -190,7 +186,7 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
                 else if (strcmp(name, "xml-not-well-formed") == 0)
                     conn->stream_error->type = XMPP_SE_XML_NOT_WELL_FORMED;
             }
-        } while ((child = xmpp_stanza_get_next(child)));
+        }
 
         conn->stream_error->stanza = xmpp_stanza_clone(stanza);
     }
-- 
2.43.0


From 4191828e77054a053f2774a0b35c726a4b738509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 49/76] fix: auth: refuse an empty DIGEST-MD5 challenge

---
 src/auth.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auth.c b/src/auth.c
index e0e0566..ce1b004 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -392,12 +392,16 @@ static int _handle_digestmd5_challenge(xmpp_conn_t *conn,
 
     if (strcmp(name, "challenge") == 0) {
         text = xmpp_stanza_get_text(stanza);
+        if (!text) {
+            disconnect_mem_error(conn);
+            return 0;
+        }
         response = sasl_digest_md5(conn->ctx, text, conn->jid, conn->pass);
+        strophe_free(conn->ctx, text);
         if (!response) {
             disconnect_mem_error(conn);
             return 0;
         }
-        strophe_free(conn->ctx, text);
 
         auth = xmpp_stanza_new(conn->ctx);
         if (!auth) {
-- 
2.43.0


From 437da968459d046987866704cfdd5d3d51d042df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 50/76] fix: sasl: refuse a DIGEST-MD5 challenge without nonce

---
 src/sasl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sasl.c b/src/sasl.c
index a280a7f..25f5e65 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -258,6 +258,11 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
         strophe_error(ctx, "SASL", "couldn't parse digest challenge");
         return NULL;
     }
+    if (hash_get(table, "nonce") == NULL) {
+        strophe_error(ctx, "SASL", "digest challenge has no nonce");
+        hash_release(table);
+        return NULL;
+    }
 
     node = xmpp_jid_node(ctx, jid);
     domain = xmpp_jid_domain(ctx, jid);
-- 
2.43.0


From 0798bd9f0df2f22830fe16e0240819f1257d156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 51/76] fix: scram: do not abort on a salt longer than 124
 bytes

---
 src/scram.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/scram.c b/src/scram.c
index 35a62db..b0cbc57 100644
--- a/src/scram.c
+++ b/src/scram.c
@@ -121,12 +121,15 @@ union common_hash_ctx {
     sha512_context sha512;
 };
 
-static void crypto_HMAC(const struct hash_alg *alg,
-                        const uint8_t *key,
-                        size_t key_len,
-                        const uint8_t *text,
-                        size_t len,
-                        uint8_t *digest)
+/* HMAC of the concatenation of text and text2 */
+static void crypto_HMAC2(const struct hash_alg *alg,
+                         const uint8_t *key,
+                         size_t key_len,
+                         const uint8_t *text,
+                         size_t len,
+                         const uint8_t *text2,
+                         size_t len2,
+                         uint8_t *digest)
 {
     uint8_t key_pad[HMAC_BLOCK_SIZE_MAX];
     uint8_t key_ipad[HMAC_BLOCK_SIZE_MAX];
@@ -155,6 +158,7 @@ static void crypto_HMAC(const struct hash_alg *alg,
     alg->init((void *)&ctx);
     alg->update((void *)&ctx, key_ipad, blocksize);
     alg->update((void *)&ctx, text, len);
+    alg->update((void *)&ctx, text2, len2);
     alg->final((void *)&ctx, sha_digest);
 
     alg->init((void *)&ctx);
@@ -163,6 +167,16 @@ static void crypto_HMAC(const struct hash_alg *alg,
     alg->final((void *)&ctx, digest);
 }
 
+static void crypto_HMAC(const struct hash_alg *alg,
+                        const uint8_t *key,
+                        size_t key_len,
+                        const uint8_t *text,
+                        size_t len,
+                        uint8_t *digest)
+{
+    crypto_HMAC2(alg, key, key_len, text, len, (const uint8_t *)"", 0, digest);
+}
+
 static void SCRAM_Hi(const struct hash_alg *alg,
                      const uint8_t *text,
                      size_t len,
@@ -173,23 +187,17 @@ static void SCRAM_Hi(const struct hash_alg *alg,
 {
     size_t k;
     uint32_t j;
-    uint8_t tmp[128];
+    uint8_t tmp[SCRAM_DIGEST_SIZE];
 
     static uint8_t int1[] = {0x0, 0x0, 0x0, 0x1};
 
-    /* assume salt + INT(1) isn't longer than sizeof(tmp) */
-    assert(salt_len <= sizeof(tmp) - sizeof(int1));
-
     memset(digest, 0, alg->digest_size);
     if (i == 0) {
         return;
     }
 
-    memcpy(tmp, salt, salt_len);
-    memcpy(&tmp[salt_len], int1, sizeof(int1));
-
     /* 'text' for Hi is a 'key' for HMAC */
-    crypto_HMAC(alg, text, len, tmp, salt_len + sizeof(int1), digest);
+    crypto_HMAC2(alg, text, len, salt, salt_len, int1, sizeof(int1), digest);
     memcpy(tmp, digest, alg->digest_size);
 
     for (j = 1; j < i; j++) {
-- 
2.43.0


From e534d001fafab1d0f8c704f1cf2ad47e0735eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 52/76] fix: parser: limit the nesting depth of inbound
 elements

---
 src/parser_expat.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index 2ab074f..d4dd5f2 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -30,6 +30,10 @@
  * number of re-allocations in 2 times for multi-line texts. */
 #define INNER_TEXT_PADDING 2
 
+/* Stanzas are rendered, copied and released recursively, deeper documents are
+ * treated as a parse error in order to not exhaust the stack. */
+#define MAX_DEPTH 2048
+
 struct _parser_t {
     xmpp_ctx_t *ctx;
     XML_Parser expat;
@@ -207,6 +211,8 @@ _start_element(void *userdata, const XML_Char *nsname, const XML_Char **attrs)
         strophe_free(parser->ctx, name);
 
     parser->depth++;
+    if (parser->depth > MAX_DEPTH)
+        XML_StopParser(parser->expat, XML_FALSE);
 }
 
 static void _end_element(void *userdata, const XML_Char *name)
-- 
2.43.0


From 5530abb945c8082858676b525a866697389a99d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 53/76] fix: sasl: refuse an invalid SCRAM iteration count

---
 src/sasl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sasl.c b/src/sasl.c
index 25f5e65..ced6bed 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -434,6 +434,10 @@ char *sasl_scram(xmpp_ctx_t *ctx,
         goto out;
     }
     ival = strtol(i, &saveptr, 10);
+    if (saveptr == i || *saveptr != '\0' || ival < 1 || ival > INT32_MAX) {
+        strophe_error(ctx, "SASL", "invalid SCRAM iteration count '%s'", i);
+        goto out_sval;
+    }
 
     /* "c=<channel_binding>," + r + ",p=" + sign_b64 + '\0' */
     response_len = 3 + strlen(channel_binding) + strlen(r) + 3 +
-- 
2.43.0


From 4e5b9cb040954d9053026cbd5e827405091442d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 54/76] fix: event: a read that would block is no closed
 connection

---
 src/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 1dd5257..ba57d40 100644
--- a/src/event.c
+++ b/src/event.c
@@ -333,7 +333,7 @@ next_item:
                                       err);
                         conn->error = err;
                         conn_disconnect(conn);
-                    } else if (!conn->tls) {
+                    } else if (ret == 0 && !conn->tls) {
                         /* return of 0 means socket closed by server */
                         strophe_debug(ctx, "xmpp",
                                       "Socket closed by remote host.");
-- 
2.43.0


From a653d72b4245376e0179dad1021abef55ff64c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 55/76] fix: event: read what is pending in the compression
 layer

---
 src/event.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/event.c b/src/event.c
index ba57d40..d17fee7 100644
--- a/src/event.c
+++ b/src/event.c
@@ -246,9 +246,13 @@ next_item:
             break;
         }
 
-        /* Check if there is something in the SSL buffer. */
-        if (conn->tls)
-            tls_read_bytes += tls_pending(intf);
+        /* Check if there is something in the buffers of TLS or compression,
+         * then there's no need to wait for the socket. */
+        if (conn->state == XMPP_STATE_CONNECTED && intf->pending(intf)) {
+            tls_read_bytes++;
+            tv.tv_sec = 0;
+            tv.tv_usec = 0;
+        }
 
         if (conn->state != XMPP_STATE_DISCONNECTED && conn->sock > max)
             max = conn->sock;
-- 
2.43.0


From f82e82c2939e3a8bf87427251523c114dee16a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 56/76] fix: compression: deliver everything inflated, and only
 that

---
 src/compression.c | 83 +++++++++++++++++++----------------------------
 1 file changed, 34 insertions(+), 49 deletions(-)

diff --git a/src/compression.c b/src/compression.c
index 234d430..4bbcc77 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -33,59 +33,41 @@ struct xmpp_compression {
     xmpp_conn_t *conn;
     struct zlib_compression compression, decompression;
     struct conn_interface next;
+    /* error of this layer, EAGAIN if there's no data to return yet */
+    int error;
 };
 
-static int _conn_decompress(struct xmpp_compression *comp,
-                            size_t c_len,
-                            void *buff,
-                            size_t len)
-{
-    if (comp->decompression.stream.next_in == NULL) {
-        comp->decompression.stream.next_in = comp->decompression.buffer;
-        comp->decompression.buffer_end =
-            comp->decompression.stream.next_in + c_len;
-        comp->decompression.stream.avail_in = c_len;
-    } else if (c_len) {
-        strophe_error(comp->conn->ctx, "zlib",
-                      "_conn_decompress() called with c_len=%zu", c_len);
-    }
-    comp->decompression.stream.next_out = buff;
-    comp->decompression.stream.avail_out = len;
-    int ret = inflate(&comp->decompression.stream, Z_SYNC_FLUSH);
-    switch (ret) {
-    case Z_STREAM_END:
-    case Z_OK:
-        if (comp->decompression.buffer_end ==
-            comp->decompression.stream.next_in)
-            comp->decompression.stream.next_in = NULL;
-        return comp->decompression.stream.next_out - (Bytef *)buff;
-    case Z_BUF_ERROR:
-        break;
-    default:
-        strophe_error(comp->conn->ctx, "zlib", "inflate error %d", ret);
-        comp->conn->error = ret;
-        conn_disconnect(comp->conn);
-        break;
-    }
-    return 0;
-}
-
 static int compression_read(struct conn_interface *intf, void *buff, size_t len)
 {
     xmpp_conn_t *conn = intf->conn;
     struct xmpp_compression *comp = conn->compression.state;
-    void *dbuff = buff;
-    size_t dlen = len;
-    if (comp->decompression.stream.next_in != NULL) {
-        return _conn_decompress(comp, 0, buff, len);
+    z_stream *stream = &comp->decompression.stream;
+    int ret;
+
+    comp->error = 0;
+    if (stream->next_in == NULL) {
+        ret = comp->next.read(intf, comp->decompression.buffer,
+                              STROPHE_COMPRESSION_BUFFER_SIZE);
+        if (ret <= 0)
+            return ret;
+        stream->next_in = comp->decompression.buffer;
+        stream->avail_in = ret;
     }
-    dbuff = comp->decompression.buffer;
-    dlen = STROPHE_COMPRESSION_BUFFER_SIZE;
-    int ret = comp->next.read(intf, dbuff, dlen);
-    if (ret > 0) {
-        return _conn_decompress(comp, ret, buff, len);
+    stream->next_out = buff;
+    stream->avail_out = len;
+    ret = inflate(stream, Z_SYNC_FLUSH);
+    /* there may be more to get if there was no room for all the output */
+    if (stream->avail_in == 0 && stream->avail_out != 0)
+        stream->next_in = NULL;
+    if (stream->avail_out != len)
+        return len - stream->avail_out;
+    if (ret == Z_OK || ret == Z_BUF_ERROR) {
+        comp->error = EAGAIN;
+    } else {
+        strophe_error(conn->ctx, "zlib", "inflate error %d", ret);
+        comp->error = ret;
     }
-    return ret;
+    return -1;
 }
 
 static int _try_compressed_write_to_network(xmpp_conn_t *conn, int force)
@@ -169,14 +151,17 @@ static int compression_pending(struct conn_interface *intf)
 
 static int compression_get_error(struct conn_interface *intf)
 {
-    struct conn_interface *next = &intf->conn->compression.state->next;
-    return next->get_error(next);
+    struct xmpp_compression *comp = intf->conn->compression.state;
+    struct conn_interface *next = &comp->next;
+    return comp->error ? comp->error : next->get_error(next);
 }
 
 static int compression_is_recoverable(struct conn_interface *intf, int err)
 {
-    struct conn_interface *next = &intf->conn->compression.state->next;
-    return next->error_is_recoverable(next, err);
+    struct xmpp_compression *comp = intf->conn->compression.state;
+    struct conn_interface *next = &comp->next;
+    return comp->error ? comp->error == EAGAIN
+                       : next->error_is_recoverable(next, err);
 }
 
 static const struct conn_interface compression_intf = {
-- 
2.43.0


From cb60a0a03f66faf812b7d3efbeffdc1fbaeb1a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 57/76] fix: compression: keep what the transport did not
 accept

---
 src/common.h            |  2 +
 src/compression.c       | 81 +++++++++++++++++++++--------------------
 src/compression_dummy.c |  6 +++
 src/event.c             |  2 +-
 4 files changed, 50 insertions(+), 41 deletions(-)

diff --git a/src/common.h b/src/common.h
index 9b53ebc..3c653e1 100644
--- a/src/common.h
+++ b/src/common.h
@@ -236,6 +236,8 @@ int conn_int_nop(struct conn_interface *intf);
 
 int compression_init(xmpp_conn_t *conn);
 void compression_free(xmpp_conn_t *conn);
+/* true if there is compressed data the transport didn't accept yet */
+int compression_unsent(xmpp_conn_t *conn);
 void compression_handle_feature_children(xmpp_conn_t *conn, const char *text);
 
 struct _xmpp_conn_t {
diff --git a/src/compression.c b/src/compression.c
index 4bbcc77..250d176 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -25,7 +25,7 @@
 #endif
 
 struct zlib_compression {
-    void *buffer, *buffer_end;
+    void *buffer;
     z_stream stream;
 };
 
@@ -70,60 +70,62 @@ static int compression_read(struct conn_interface *intf, void *buff, size_t len)
     return -1;
 }
 
-static int _try_compressed_write_to_network(xmpp_conn_t *conn, int force)
+/* Forward what is in the staging buffer. What the transport doesn't accept now
+ * remains there. */
+static int _write_to_network(xmpp_conn_t *conn)
 {
     struct xmpp_compression *comp = conn->compression.state;
-    int ret = 0;
-    ptrdiff_t len =
-        comp->compression.stream.next_out - (Bytef *)comp->compression.buffer;
-    int buffer_full =
-        comp->compression.stream.next_out == comp->compression.buffer_end;
-    if ((buffer_full || force) && len > 0) {
-        ret = conn_interface_write(&comp->next, comp->compression.buffer, len);
-        if (ret < 0)
+    z_stream *stream = &comp->compression.stream;
+    Bytef *buffer = comp->compression.buffer;
+    size_t len;
+    int ret;
+
+    while ((len = stream->next_out - buffer) > 0) {
+        ret = conn_interface_write(&comp->next, buffer, len);
+        if (ret <= 0)
             return ret;
-        comp->compression.stream.next_out = comp->compression.buffer;
-        comp->compression.stream.avail_out = STROPHE_COMPRESSION_BUFFER_SIZE;
+        memmove(buffer, buffer + ret, len - ret);
+        stream->next_out -= ret;
+        stream->avail_out += ret;
     }
-    return ret;
+    return 0;
 }
 
+/* returns the number of bytes taken from buff */
 static int
 _compression_write(xmpp_conn_t *conn, const void *buff, size_t len, int flush)
 {
-    int ret;
-    const void *buff_end = buff + len;
     struct xmpp_compression *comp = conn->compression.state;
-    comp->compression.stream.next_in = (Bytef *)buff;
-    comp->compression.stream.avail_in = len;
+    z_stream *stream = &comp->compression.stream;
+    int ret;
+
+    stream->next_in = (Bytef *)buff;
+    stream->avail_in = len;
     do {
-        ret = _try_compressed_write_to_network(conn, 0);
-        if (ret < 0) {
-            return ret;
+        if (stream->avail_out == 0) {
+            _write_to_network(conn);
+            if (stream->avail_out == 0)
+                break; /* the transport doesn't accept anything now */
         }
 
-        ret = deflate(&comp->compression.stream, flush);
-        if (ret == Z_STREAM_END) {
-            break;
-        }
-        if (flush && ret == Z_BUF_ERROR) {
-            break;
-        }
-        if (ret != Z_OK) {
+        ret = deflate(stream, flush);
+        if (ret != Z_OK && ret != Z_BUF_ERROR) {
             strophe_error(conn->ctx, "zlib", "deflate error %d", ret);
             conn->error = ret;
-            conn_disconnect(conn);
-            return ret;
-        }
-        ret = comp->compression.stream.next_in - (Bytef *)buff;
-    } while (comp->compression.stream.next_in < (Bytef *)buff_end);
-    if (flush) {
-        ret = _try_compressed_write_to_network(conn, 1);
-        if (ret < 0) {
-            return ret;
+            break;
         }
-    }
-    return ret;
+        /* it's complete only if there's still room in the buffer */
+    } while (stream->avail_in > 0 || (flush && stream->avail_out == 0));
+    if (flush)
+        _write_to_network(conn);
+    return conn->error ? -1 : (int)(len - stream->avail_in);
+}
+
+int compression_unsent(xmpp_conn_t *conn)
+{
+    struct xmpp_compression *comp = conn->compression.state;
+    return comp && comp->compression.stream.next_out !=
+                       (Bytef *)comp->compression.buffer;
 }
 
 static int
@@ -186,7 +188,6 @@ static void *_zlib_alloc(void *opaque, unsigned int items, unsigned int size)
 static void _init_zlib_compression(xmpp_ctx_t *ctx, struct zlib_compression *s)
 {
     s->buffer = strophe_alloc(ctx, STROPHE_COMPRESSION_BUFFER_SIZE);
-    s->buffer_end = s->buffer + STROPHE_COMPRESSION_BUFFER_SIZE;
 
     s->stream.opaque = ctx;
     s->stream.zalloc = _zlib_alloc;
diff --git a/src/compression_dummy.c b/src/compression_dummy.c
index 994ef6b..f2ac201 100644
--- a/src/compression_dummy.c
+++ b/src/compression_dummy.c
@@ -29,6 +29,12 @@ void compression_free(xmpp_conn_t *conn)
     UNUSED(conn);
 }
 
+int compression_unsent(xmpp_conn_t *conn)
+{
+    UNUSED(conn);
+    return 0;
+}
+
 void compression_handle_feature_children(xmpp_conn_t *conn, const char *text)
 {
     UNUSED(text);
diff --git a/src/event.c b/src/event.c
index d17fee7..7d0d5bc 100644
--- a/src/event.c
+++ b/src/event.c
@@ -237,7 +237,7 @@ next_item:
             break;
         case XMPP_STATE_CONNECTED:
             FD_SET(conn->sock, &rfds);
-            if (conn->send_queue_len > 0)
+            if (conn->send_queue_len > 0 || compression_unsent(conn))
                 FD_SET(conn->sock, &wfds);
             break;
         case XMPP_STATE_DISCONNECTED:
-- 
2.43.0


From ef16c4d4c485725c2bfe16dcf9f36b719b258de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 58/76] fix: compression: do not flush into an almost full
 buffer

---
 src/compression.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compression.c b/src/compression.c
index 250d176..064c620 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -102,9 +102,10 @@ _compression_write(xmpp_conn_t *conn, const void *buff, size_t len, int flush)
     stream->next_in = (Bytef *)buff;
     stream->avail_in = len;
     do {
-        if (stream->avail_out == 0) {
+        /* zlib repeats the flush marker if there's not enough room for it */
+        if (stream->avail_out <= 6) {
             _write_to_network(conn);
-            if (stream->avail_out == 0)
+            if (stream->avail_out <= 6)
                 break; /* the transport doesn't accept anything now */
         }
 
-- 
2.43.0


From 1ea4daccc797ac6db3d9a2192bdff1c5e832d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 59/76] fix: expat: a prefixed attribute must not replace the
 plain one

'x:type' has nothing to do with 'type', and 'x:xmlns' is no namespace.
---
 src/parser_expat.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index d4dd5f2..8892eb2 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -140,9 +140,18 @@ static void _set_attributes(xmpp_stanza_t *stanza, const XML_Char **attrs)
         return;
 
     for (i = 0; attrs[i]; i += 2) {
-        /* namespaced attributes aren't used in xmpp, discard namespace */
+        if (strchr(attrs[i], namespace_sep) == NULL)
+            xmpp_stanza_set_attribute(stanza, attrs[i], attrs[i + 1]);
+    }
+    for (i = 0; attrs[i]; i += 2) {
+        if (strchr(attrs[i], namespace_sep) == NULL)
+            continue;
+        /* namespaced attributes aren't used in xmpp, discard namespace, but
+         * don't let them replace the attribute which has none */
         attr = _xml_name(stanza->ctx, attrs[i]);
-        xmpp_stanza_set_attribute(stanza, attr, attrs[i + 1]);
+        if (attr && strcmp(attr, "xmlns") != 0 &&
+            xmpp_stanza_get_attribute(stanza, attr) == NULL)
+            xmpp_stanza_set_attribute(stanza, attr, attrs[i + 1]);
         strophe_free(stanza->ctx, attr);
     }
 }
-- 
2.43.0


From 9c3eed192e8609685e6d182c9d131e11496c4ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 60/76] fix: event: report a parse error once, ignore what
 follows it

The rest of the stream can't be parsed. Every further read sent another
stream error, after the stream was closed.
---
 src/common.h | 1 +
 src/conn.c   | 1 +
 src/event.c  | 5 +++++
 3 files changed, 7 insertions(+)

diff --git a/src/common.h b/src/common.h
index 3c653e1..2296152 100644
--- a/src/common.h
+++ b/src/common.h
@@ -312,6 +312,7 @@ struct _xmpp_conn_t {
 
     /* xml parser */
     int reset_parser;
+    int parse_error; /* the rest of the stream can't be parsed */
     parser_t *parser;
 
     /* timeouts */
diff --git a/src/conn.c b/src/conn.c
index 90e3a74..79a0acf 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -971,6 +971,7 @@ void conn_prepare_reset(xmpp_conn_t *conn, xmpp_open_handler handler)
 void conn_parser_reset(xmpp_conn_t *conn)
 {
     conn->reset_parser = 0;
+    conn->parse_error = 0;
     parser_reset(conn->parser);
 }
 
diff --git a/src/event.c b/src/event.c
index 7d0d5bc..e887b32 100644
--- a/src/event.c
+++ b/src/event.c
@@ -319,10 +319,15 @@ next_item:
 
                 if (ret > 0) {
                     int len = ret;
+                    /* what follows a parse error is no XML anymore */
+                    if (conn->parse_error)
+                        break;
                     ret = parser_feed(conn->parser, buf, len);
                     /* the stream may have been closed, and opened again by the
                      * user, while the data was parsed */
                     if (!ret && conn->state == XMPP_STATE_CONNECTED) {
+                        conn->parse_error = 1;
+                        conn->reset_parser = 0;
                         strophe_debug(ctx, "xmpp", "parse error [%.*s]", len,
                                       buf);
                         xmpp_send_error(conn, XMPP_SE_INVALID_XML,
-- 
2.43.0


From c71a2aedfcfa2f93f05f542ff68f4914d6841cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 61/76] fix: libxml2: replace entities in attribute values

'&amp;' was delivered as '&#38;'.
---
 src/parser_libxml2.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser_libxml2.c b/src/parser_libxml2.c
index 27f63de..022243b 100644
--- a/src/parser_libxml2.c
+++ b/src/parser_libxml2.c
@@ -292,6 +292,9 @@ int parser_reset(parser_t *parser)
 
     parser->xmlctx =
         xmlCreatePushParserCtxt(&parser->handlers, parser, NULL, 0, NULL);
+    /* '&amp;' in an attribute value is reported as '&#38;' otherwise */
+    if (parser->xmlctx)
+        xmlCtxtUseOptions(parser->xmlctx, XML_PARSE_NOENT | XML_PARSE_NONET);
 
     return parser->xmlctx ? 1 : 0;
 }
-- 
2.43.0


From 008e8a437b2365e1d08f778ad3afa162eb24d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 62/76] fix: libxml2: a prefixed attribute must not replace the
 plain one

---
 src/parser_libxml2.c | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/parser_libxml2.c b/src/parser_libxml2.c
index 022243b..aade9cc 100644
--- a/src/parser_libxml2.c
+++ b/src/parser_libxml2.c
@@ -37,25 +37,42 @@ struct _parser_t {
     xmpp_stanza_t *stanza;
 };
 
+static void _set_attribute(xmpp_stanza_t *stanza, const xmlChar **attr)
+{
+    int len;
+    char *value;
+
+    len = attr[4] - attr[3];
+    value = strophe_alloc(stanza->ctx, len + 1);
+    if (value) {
+        memcpy(value, attr[3], len);
+        value[len] = '\0';
+        xmpp_stanza_set_attribute(stanza, (const char *)attr[0], value);
+        strophe_free(stanza->ctx, value);
+    }
+}
+
 static void
 _set_attributes(xmpp_stanza_t *stanza, int nattrs, const xmlChar **attrs)
 {
-    int i, len;
-    char *value;
+    int i;
+    const char *name;
 
     if (!attrs)
         return;
 
     /* SAX2 uses array of localname/prefix/uri/value_begin/value_end */
     for (i = 0; i < nattrs * 5; i += 5) {
-        len = attrs[i + 4] - attrs[i + 3];
-        value = strophe_alloc(stanza->ctx, len + 1);
-        if (value) {
-            memcpy(value, attrs[i + 3], len);
-            value[len] = '\0';
-            xmpp_stanza_set_attribute(stanza, (const char *)attrs[i], value);
-            strophe_free(stanza->ctx, value);
-        }
+        if (attrs[i + 1] == NULL)
+            _set_attribute(stanza, &attrs[i]);
+    }
+    /* namespaced attributes aren't used in xmpp, discard namespace, but don't
+     * let them replace the attribute which has none */
+    for (i = 0; i < nattrs * 5; i += 5) {
+        name = (const char *)attrs[i];
+        if (attrs[i + 1] != NULL && strcmp(name, "xmlns") != 0 &&
+            xmpp_stanza_get_attribute(stanza, name) == NULL)
+            _set_attribute(stanza, &attrs[i]);
     }
 }
 
-- 
2.43.0


From 11e2ae31ffac5cb468cbfd1537d40f02cca7ce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 63/76] fix: stanza: detach children from a parent that is
 freed

A child which outlives its parent kept a pointer to it, rendering such a
child used freed memory.
---
 src/stanza.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stanza.c b/src/stanza.c
index 6c6d6df..845aca3 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -178,6 +178,9 @@ int xmpp_stanza_release(xmpp_stanza_t *stanza)
         while (child) {
             tchild = child;
             child = child->next;
+            /* someone else may still hold a reference to the child */
+            tchild->parent = NULL;
+            tchild->prev = NULL;
             tchild->next = NULL;
             xmpp_stanza_release(tchild);
         }
-- 
2.43.0


From 5bd9eecfcaeae8c4a693bd7ee9ea6c8b036a9349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 64/76] fix: stanza: render the namespace of a child that is
 rendered alone

The namespace was left out if the stanza has a parent with the same one,
even if the parent isn't rendered.
---
 src/stanza.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/stanza.c b/src/stanza.c
index 845aca3..e360164 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -312,9 +312,12 @@ static void _render_update(
  * written if the buffer was large enough
  * return values < 0 indicate some error occurred,
  * and return values > buflen indicate buffer was not large enough
+ * parent is the element which is rendered around the stanza, if there is one
  */
-static int
-_render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
+static int _render_stanza_recursive(xmpp_stanza_t *stanza,
+                                    const xmpp_stanza_t *parent,
+                                    char *buf,
+                                    size_t buflen)
 {
     char *ptr = buf;
     size_t left = buflen;
@@ -356,14 +359,13 @@ _render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
             while ((key = hash_iter_next(iter))) {
                 if (!strcmp(key, "xmlns")) {
                     /* don't output namespace if parent stanza is the same */
-                    if (stanza->parent && stanza->parent->attributes &&
-                        hash_get(stanza->parent->attributes, key) &&
-                        !strcmp(
-                            (char *)hash_get(stanza->attributes, key),
-                            (char *)hash_get(stanza->parent->attributes, key)))
+                    if (parent && parent->attributes &&
+                        hash_get(parent->attributes, key) &&
+                        !strcmp((char *)hash_get(stanza->attributes, key),
+                                (char *)hash_get(parent->attributes, key)))
                         continue;
                     /* or if this is the stream namespace */
-                    if (!stanza->parent &&
+                    if (!parent &&
                         !strcmp((char *)hash_get(stanza->attributes, key),
                                 XMPP_NS_CLIENT))
                         continue;
@@ -403,7 +405,7 @@ _render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
             /* iterate and recurse over child stanzas */
             child = stanza->children;
             while (child) {
-                ret = _render_stanza_recursive(child, ptr, left);
+                ret = _render_stanza_recursive(child, stanza, ptr, left);
                 if (ret < 0)
                     return ret;
 
@@ -454,7 +456,7 @@ int xmpp_stanza_to_text(xmpp_stanza_t *stanza, char **buf, size_t *buflen)
         return XMPP_EMEM;
     }
 
-    ret = _render_stanza_recursive(stanza, buffer, length);
+    ret = _render_stanza_recursive(stanza, NULL, buffer, length);
     if (ret < 0) {
         strophe_free(stanza->ctx, buffer);
         *buf = NULL;
@@ -473,7 +475,7 @@ int xmpp_stanza_to_text(xmpp_stanza_t *stanza, char **buf, size_t *buflen)
         length = ret + 1;
         buffer = tmp;
 
-        ret = _render_stanza_recursive(stanza, buffer, length);
+        ret = _render_stanza_recursive(stanza, NULL, buffer, length);
         if ((size_t)ret > length - 1) {
             strophe_free(stanza->ctx, buffer);
             *buf = NULL;
-- 
2.43.0


From 8584b204ddcf43496e7f007cfc25110fb84a0457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 65/76] fix: parser: keep the absence of a namespace

An element without a namespace inside of an element which has one was
rendered as if it inherited that namespace.
---
 src/parser_expat.c   | 3 +++
 src/parser_libxml2.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index 8892eb2..4199edc 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -205,6 +205,9 @@ _start_element(void *userdata, const XML_Char *nsname, const XML_Char **attrs)
             _set_attributes(child, attrs);
             if (ns)
                 xmpp_stanza_set_ns(child, ns);
+            else if (parser->stanza && xmpp_stanza_get_ns(parser->stanza))
+                /* it doesn't inherit the namespace of its parent */
+                xmpp_stanza_set_ns(child, "");
 
             if (parser->stanza != NULL) {
                 complete_inner_text(parser);
diff --git a/src/parser_libxml2.c b/src/parser_libxml2.c
index aade9cc..189bcd9 100644
--- a/src/parser_libxml2.c
+++ b/src/parser_libxml2.c
@@ -180,6 +180,9 @@ static void _start_element(void *userdata,
             _set_attributes(child, nattrs, attrs);
             if (uri)
                 xmpp_stanza_set_ns(child, (char *)uri);
+            else if (xmpp_stanza_get_ns(parser->stanza))
+                /* it doesn't inherit the namespace of its parent */
+                xmpp_stanza_set_ns(child, "");
 
             /* add child to parent */
             xmpp_stanza_add_child_ex(parser->stanza, child, 0);
-- 
2.43.0


From 53ff270d26985f258e37ea16347d323740f1ad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 66/76] fix: stanza: allow own pointers as new name and text

xmpp_stanza_set_text(s, xmpp_stanza_get_text_ptr(s)) and the like read the
data after freeing it.
---
 src/stanza.c | 53 +++++++++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/stanza.c b/src/stanza.c
index e360164..c9f4eed 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -492,6 +492,22 @@ int xmpp_stanza_to_text(xmpp_stanza_t *stanza, char **buf, size_t *buflen)
     return XMPP_EOK;
 }
 
+/* replace the data; data is NULL if it couldn't be allocated. The old data is
+ * freed last, what the user has given may be a part of it */
+static int _stanza_set_data(xmpp_stanza_t *stanza,
+                            xmpp_stanza_type_t type,
+                            char *data)
+{
+    char *old = stanza->data;
+
+    stanza->type = type;
+    stanza->data = data;
+    if (old)
+        strophe_free(stanza->ctx, old);
+
+    return data == NULL ? XMPP_EMEM : XMPP_EOK;
+}
+
 /** Set the name of a stanza.
  *
  *  @param stanza a Strophe stanza object
@@ -507,13 +523,8 @@ int xmpp_stanza_set_name(xmpp_stanza_t *stanza, const char *name)
     if (stanza->type == XMPP_STANZA_TEXT)
         return XMPP_EINVOP;
 
-    if (stanza->data)
-        strophe_free(stanza->ctx, stanza->data);
-
-    stanza->type = XMPP_STANZA_TAG;
-    stanza->data = strophe_strdup(stanza->ctx, name);
-
-    return stanza->data == NULL ? XMPP_EMEM : XMPP_EOK;
+    return _stanza_set_data(stanza, XMPP_STANZA_TAG,
+                            strophe_strdup(stanza->ctx, name));
 }
 
 /** Get the stanza name.
@@ -727,13 +738,8 @@ int xmpp_stanza_set_text(xmpp_stanza_t *stanza, const char *text)
     if (stanza->type == XMPP_STANZA_TAG)
         return XMPP_EINVOP;
 
-    stanza->type = XMPP_STANZA_TEXT;
-
-    if (stanza->data)
-        strophe_free(stanza->ctx, stanza->data);
-    stanza->data = strophe_strdup(stanza->ctx, text);
-
-    return stanza->data == NULL ? XMPP_EMEM : XMPP_EOK;
+    return _stanza_set_data(stanza, XMPP_STANZA_TEXT,
+                            strophe_strdup(stanza->ctx, text));
 }
 
 /** Set the text data for a text stanza.
@@ -754,21 +760,18 @@ int xmpp_stanza_set_text_with_size(xmpp_stanza_t *stanza,
                                    const char *text,
                                    size_t size)
 {
+    char *data;
+
     if (stanza->type == XMPP_STANZA_TAG)
         return XMPP_EINVOP;
 
-    stanza->type = XMPP_STANZA_TEXT;
-
-    if (stanza->data)
-        strophe_free(stanza->ctx, stanza->data);
-    stanza->data = strophe_alloc(stanza->ctx, size + 1);
-    if (!stanza->data)
-        return XMPP_EMEM;
-
-    memcpy(stanza->data, text, size);
-    stanza->data[size] = 0;
+    data = strophe_alloc(stanza->ctx, size + 1);
+    if (data) {
+        memcpy(data, text, size);
+        data[size] = 0;
+    }
 
-    return XMPP_EOK;
+    return _stanza_set_data(stanza, XMPP_STANZA_TEXT, data);
 }
 
 /** Get the 'id' attribute of the stanza object.
-- 
2.43.0


From e72138605aa827ab1ea4d7194fd749653a494907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 67/76] fix: auth: free the SCRAM data if the server does not
 finish

The data leaked if the connection was lost or closed before the server
answered with success or failure.
---
 src/auth.c   | 44 ++++++++++++++++++++++++++++++++++++++------
 src/common.h |  2 ++
 src/conn.c   |  1 +
 3 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index ce1b004..7e233f9 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -473,8 +473,40 @@ struct scram_user_data {
     char *channel_binding;
     const char *first_bare;
     const struct hash_alg *alg;
+    struct scram_user_data *next;
 };
 
+/* take an attempt out of the list of the connection */
+static void _scram_unlink(xmpp_conn_t *conn, struct scram_user_data *scram_ctx)
+{
+    struct scram_user_data **p;
+
+    for (p = &conn->scram_ctx; *p; p = &(*p)->next) {
+        if (*p == scram_ctx) {
+            *p = scram_ctx->next;
+            break;
+        }
+    }
+}
+
+static void _scram_free(xmpp_conn_t *conn, struct scram_user_data *scram_ctx)
+{
+    strophe_free_and_null(conn->ctx, scram_ctx->channel_binding);
+    strophe_free_and_null(conn->ctx, scram_ctx->scram_init);
+    strophe_free(conn->ctx, scram_ctx);
+}
+
+/* free the attempts which the server didn't answer */
+void auth_free_scram(xmpp_conn_t *conn)
+{
+    struct scram_user_data *scram_ctx;
+
+    while ((scram_ctx = conn->scram_ctx)) {
+        conn->scram_ctx = scram_ctx->next;
+        _scram_free(conn, scram_ctx);
+    }
+}
+
 /* handle the challenge phase of SCRAM-SHA-1 auth */
 static int _handle_scram_challenge(xmpp_conn_t *conn,
                                    xmpp_stanza_t *stanza,
@@ -537,11 +569,10 @@ static int _handle_scram_challenge(xmpp_conn_t *conn,
          * current handler is not removed yet. As result, libstrophe wouldn't
          * handle incoming challenge stanza.
          */
+        _scram_unlink(conn, scram_ctx);
         rc = _handle_sasl_result(conn, stanza,
                                  (void *)scram_ctx->alg->scram_name);
-        strophe_free_and_null(conn->ctx, scram_ctx->channel_binding);
-        strophe_free_and_null(conn->ctx, scram_ctx->scram_init);
-        strophe_free(conn->ctx, scram_ctx);
+        _scram_free(conn, scram_ctx);
     }
 
     return rc;
@@ -551,9 +582,8 @@ err_release_auth:
 err_free_response:
     strophe_free(conn->ctx, response);
 err:
-    strophe_free_and_null(conn->ctx, scram_ctx->channel_binding);
-    strophe_free_and_null(conn->ctx, scram_ctx->scram_init);
-    strophe_free(conn->ctx, scram_ctx);
+    _scram_unlink(conn, scram_ctx);
+    _scram_free(conn, scram_ctx);
     disconnect_mem_error(conn);
     return 0;
 }
@@ -858,6 +888,8 @@ static void _auth(xmpp_conn_t *conn)
 
         handler_add(conn, _handle_scram_challenge, XMPP_NS_SASL, NULL, NULL,
                     (void *)scram_ctx);
+        scram_ctx->next = conn->scram_ctx;
+        conn->scram_ctx = scram_ctx;
 
         send_stanza(conn, auth, XMPP_QUEUE_STROPHE);
 
diff --git a/src/common.h b/src/common.h
index 2296152..890ca78 100644
--- a/src/common.h
+++ b/src/common.h
@@ -273,6 +273,7 @@ struct _xmpp_conn_t {
     int sasl_support; /* if true, field is a bitfield of supported
                          mechanisms */
     int auth_legacy_enabled;
+    struct scram_user_data *scram_ctx; /* SCRAM attempts in progress */
     int secured; /* set when stream is secured with TLS */
     xmpp_certfail_handler certfail_handler;
     xmpp_password_callback password_callback;
@@ -402,6 +403,7 @@ void auth_handle_open(xmpp_conn_t *conn);
 void auth_handle_component_open(xmpp_conn_t *conn);
 void auth_handle_open_raw(xmpp_conn_t *conn);
 void auth_handle_open_stub(xmpp_conn_t *conn);
+void auth_free_scram(xmpp_conn_t *conn);
 
 /* queue functions */
 void add_queue_back(xmpp_queue_t *queue, xmpp_send_queue_t *item);
diff --git a/src/conn.c b/src/conn.c
index 79a0acf..88a862f 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2310,6 +2310,7 @@ static void _conn_reset(xmpp_conn_t *conn)
     conn->session_required = 0;
 
     handler_system_delete_all(conn);
+    auth_free_scram(conn);
 }
 
 static int _conn_connect(xmpp_conn_t *conn,
-- 
2.43.0


From 5186d2f15084efe73a1e4a38751d5f5fe39d0490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 68/76] fix: expat: use the allocator of the context of each
 parser

Only the first context of a process had its allocator used by expat, every
other context and any context created after the first one was freed got
memory from the C library.
---
 src/parser_expat.c | 52 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index 4199edc..d952d79 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -53,14 +53,27 @@ struct _parser_t {
 /* Use the Unit Separator to delimit namespace and name in our XML */
 const XML_Char namespace_sep = '\x1F';
 
-/*
- * Cached strophe ctx. It is used for memory suite.
- * Note, expat doesn't support userdata in memory suite, therefore,
- * we can support only one strophe context. If user creates more than one
- * context, this module will fallback to default library allocator for all
- * contexts other than mem_ctx.
+/* Expat's memory functions get no userdata. Therefore the context whose
+ * allocator has to be used is set around every call of expat which may
+ * allocate or free memory. The calls may be nested, for example when a handler
+ * parses a string in another context.
  */
-static xmpp_ctx_t *mem_ctx = NULL;
+#if defined(__GNUC__)
+#define PARSER_THREAD_LOCAL __thread
+#elif defined(_MSC_VER)
+#define PARSER_THREAD_LOCAL __declspec(thread)
+#else
+#define PARSER_THREAD_LOCAL
+#endif
+static PARSER_THREAD_LOCAL xmpp_ctx_t *mem_ctx = NULL;
+
+static xmpp_ctx_t *_mem_ctx_set(xmpp_ctx_t *ctx)
+{
+    xmpp_ctx_t *old = mem_ctx;
+
+    mem_ctx = ctx;
+    return old;
+}
 
 static void *parser_mem_malloc(size_t size)
 {
@@ -325,8 +338,13 @@ static void _free_parent_stanza(xmpp_stanza_t *stanza)
 /* free a parser */
 void parser_free(parser_t *parser)
 {
-    if (parser->expat)
+    xmpp_ctx_t *old;
+
+    if (parser->expat) {
+        old = _mem_ctx_set(parser->ctx);
         XML_ParserFree(parser->expat);
+        _mem_ctx_set(old);
+    }
 
     if (parser->stanza) {
         _free_parent_stanza(parser->stanza);
@@ -345,7 +363,7 @@ void parser_free(parser_t *parser)
 int parser_reset(parser_t *parser)
 {
     XML_Bool ret;
-    const XML_Memory_Handling_Suite *mem = NULL;
+    xmpp_ctx_t *old = _mem_ctx_set(parser->ctx);
 
     if (parser->expat) {
         ret = XML_ParserReset(parser->expat, NULL);
@@ -354,12 +372,10 @@ int parser_reset(parser_t *parser)
             parser->expat = NULL;
         }
     } else {
-        if (mem_ctx == NULL)
-            mem_ctx = parser->ctx;
-        if (parser->ctx == mem_ctx)
-            mem = &parser_mem_suite;
-        parser->expat = XML_ParserCreate_MM(NULL, mem, &namespace_sep);
+        parser->expat =
+            XML_ParserCreate_MM(NULL, &parser_mem_suite, &namespace_sep);
     }
+    _mem_ctx_set(old);
 
     if (parser->stanza) {
         _free_parent_stanza(parser->stanza);
@@ -393,5 +409,11 @@ int parser_reset(parser_t *parser)
 
 int parser_feed(parser_t *parser, char *chunk, int len)
 {
-    return XML_Parse(parser->expat, chunk, len, 0);
+    xmpp_ctx_t *old = _mem_ctx_set(parser->ctx);
+    int ret;
+
+    ret = XML_Parse(parser->expat, chunk, len, 0);
+    _mem_ctx_set(old);
+
+    return ret;
 }
-- 
2.43.0


From a3944fec09e1aace45238efb4b24d6343366111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 69/76] fix: sasl: don't answer a SCRAM challenge with a
 foreign nonce

The nonce of the server-first-message must start with the client's one and a
mandatory extension must fail the authentication (RFC 5802, section 5.1).
---
 src/sasl.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sasl.c b/src/sasl.c
index ced6bed..1b02299 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -388,6 +388,7 @@ char *sasl_scram(xmpp_ctx_t *ctx,
 {
     uint8_t key[SCRAM_DIGEST_SIZE];
     uint8_t sign[SCRAM_DIGEST_SIZE];
+    const char *nonce;
     char *r = NULL;
     char *s = NULL;
     char *i = NULL;
@@ -421,6 +422,9 @@ char *sasl_scram(xmpp_ctx_t *ctx,
             s = ptr + 2;
         } else if (strncmp(ptr, "i=", 2) == 0) {
             i = ptr + 2;
+        } else if (strncmp(ptr, "m=", 2) == 0) {
+            strophe_error(ctx, "SASL", "unknown mandatory SCRAM extension");
+            goto out;
         }
         ptr = strtok_r(NULL, ",", &saveptr);
     }
@@ -429,6 +433,13 @@ char *sasl_scram(xmpp_ctx_t *ctx,
         goto out;
     }
 
+    /* the nonce must start with the one that we've sent (RFC 5802, 5.1) */
+    nonce = strstr(first_bare, ",r=");
+    if (!nonce || strncmp(r, nonce + 1, strlen(nonce + 1)) != 0) {
+        strophe_error(ctx, "SASL", "the server changed our SCRAM nonce");
+        goto out;
+    }
+
     xmpp_base64_decode_bin(ctx, s, strlen(s), &sval, &sval_len);
     if (!sval) {
         goto out;
-- 
2.43.0


From 37d8d4a28337be238a634741f018d0843e79f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 70/76] fix: auth: escape the user name in SCRAM messages

A ',' or '=' in the local part made the client-first-message malformed.
---
 src/auth.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 7e233f9..126ee35 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -588,13 +588,34 @@ err:
     return 0;
 }
 
+/* escape ',' and '=' of a user name (RFC 5802, saslname) */
+static char *_make_saslname(xmpp_ctx_t *ctx, const char *name)
+{
+    char *result, *p;
+
+    result = strophe_alloc(ctx, 3 * strlen(name) + 1);
+    if (!result)
+        return NULL;
+    for (p = result; *name; ++name) {
+        if (*name == ',' || *name == '=') {
+            memcpy(p, *name == ',' ? "=2C" : "=3D", 3);
+            p += 3;
+        } else {
+            *p++ = *name;
+        }
+    }
+    *p = '\0';
+
+    return result;
+}
+
 static int _make_scram_init_msg(struct scram_user_data *scram)
 {
     xmpp_conn_t *conn = scram->conn;
     xmpp_ctx_t *ctx = conn->ctx;
     const void *binding_data;
     const char *binding_type;
-    char *node, *message;
+    char *str, *node, *message;
     size_t message_len, binding_type_len = 0, binding_data_len;
     int l, is_secured = xmpp_conn_is_secured(conn);
     /* This buffer must be able to hold:
@@ -619,7 +640,12 @@ static int _make_scram_init_msg(struct scram_user_data *scram)
         binding_type_len += 1;
     }
 
-    node = xmpp_jid_node(ctx, conn->jid);
+    str = xmpp_jid_node(ctx, conn->jid);
+    if (!str) {
+        return -1;
+    }
+    node = _make_saslname(ctx, str);
+    strophe_free(ctx, str);
     if (!node) {
         return -1;
     }
-- 
2.43.0


From f534bc35d5062e77a58e5093dfa57fae74bff6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 71/76] fix: auth: send the bare JID as identity of SASL
 EXTERNAL

---
 src/auth.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 126ee35..1433956 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -831,8 +831,12 @@ static void _auth(xmpp_conn_t *conn)
             xmpp_stanza_set_text(authdata, "=");
         } else {
             strophe_free(conn->ctx, str);
-            str = xmpp_base64_encode(conn->ctx, (void *)conn->jid,
-                                     strlen(conn->jid));
+            /* the authorization identity is the bare JID (RFC 6120, 6.3.8) */
+            authid = xmpp_jid_bare(conn->ctx, conn->jid);
+            str = authid ? xmpp_base64_encode(conn->ctx, (void *)authid,
+                                              strlen(authid))
+                         : NULL;
+            strophe_free(conn->ctx, authid);
             if (!str) {
                 xmpp_stanza_release(authdata);
                 xmpp_stanza_release(auth);
-- 
2.43.0


From 98d1cb998e9f8fdda4f7dfe27e9f9909f1823fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 72/76] fix: sasl: DIGEST-MD5: answer with qop 'auth', omit an
 absent charset

The list of the challenge was echoed as qop and 'charset=' was sent without a
value if the challenge had none.
---
 src/sasl.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/sasl.c b/src/sasl.c
index 1b02299..bd17aff 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -159,6 +159,21 @@ static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
     return result;
 }
 
+/* is the token in the comma separated list? */
+static int _list_contains(const char *list, const char *token)
+{
+    size_t len;
+
+    while (*list) {
+        list += strspn(list, ", \t\r\n");
+        len = strcspn(list, ", \t\r\n");
+        if (len == strlen(token) && strncasecmp(list, token, len) == 0)
+            return 1;
+        list += len;
+    }
+    return 0;
+}
+
 /** expand a 16 byte MD5 digest to a 32 byte hex representation */
 static void _digest_to_hex(const char *digest, char *hex)
 {
@@ -263,6 +278,13 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
         hash_release(table);
         return NULL;
     }
+    /* the server offers a list, we don't implement any security layer */
+    value = hash_get(table, "qop");
+    if (value != NULL && !_list_contains(value, "auth")) {
+        strophe_error(ctx, "SASL", "digest challenge doesn't offer qop 'auth'");
+        hash_release(table);
+        return NULL;
+    }
 
     node = xmpp_jid_node(ctx, jid);
     domain = xmpp_jid_domain(ctx, jid);
@@ -280,8 +302,7 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     xmpp_rand_nonce(ctx->rand, cnonce, sizeof(cnonce));
     hash_add(table, "cnonce", strophe_strdup(ctx, cnonce));
     hash_add(table, "nc", strophe_strdup(ctx, "00000001"));
-    if (hash_get(table, "qop") == NULL)
-        hash_add(table, "qop", strophe_strdup(ctx, "auth"));
+    hash_add(table, "qop", strophe_strdup(ctx, "auth"));
     value = strophe_alloc(ctx, 5 + strlen(domain) + 1);
     memcpy(value, "xmpp/", 5);
     memcpy(value + 5, domain, strlen(domain));
@@ -319,10 +340,6 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     MD5Update(&MD5, (unsigned char *)"AUTHENTICATE:", 13);
     value = hash_get(table, "digest-uri");
     MD5Update(&MD5, (unsigned char *)value, strlen(value));
-    if (strcmp(hash_get(table, "qop"), "auth") != 0) {
-        MD5Update(&MD5, (unsigned char *)":00000000000000000000000000000000",
-                  33);
-    }
     MD5Final(digest, &MD5);
 
     memcpy(HA2, digest, 16);
@@ -364,7 +381,8 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     result = _add_key(ctx, table, "qop", result, 0);
     result = _add_key(ctx, table, "digest-uri", result, 1);
     result = _add_key(ctx, table, "response", result, 0);
-    result = _add_key(ctx, table, "charset", result, 0);
+    if (hash_get(table, "charset") != NULL)
+        result = _add_key(ctx, table, "charset", result, 0);
 
     strophe_free(ctx, node);
     strophe_free(ctx, domain);
-- 
2.43.0


From 5dd5cf20f8acfc21855f92a56f47d8616b6239dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 73/76] fix: sasl: DIGEST-MD5: handle quoted pairs and linear
 white space

Backslashes and quotes in a user name or realm made the response malformed,
a quoted pair in the challenge ended the value.
---
 src/sasl.c | 51 +++++++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/sasl.c b/src/sasl.c
index bd17aff..71f1651 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -14,6 +14,7 @@
  *  SASL authentication.
  */
 
+#include <ctype.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -80,15 +81,20 @@ static char *_make_string(xmpp_ctx_t *ctx, const char *s, unsigned len)
 /* create a new, null-terminated string quoting another string */
 static char *_make_quoted(xmpp_ctx_t *ctx, const char *s)
 {
-    char *result;
+    char *result, *p;
     size_t len = strlen(s);
 
-    result = strophe_alloc(ctx, len + 3);
+    result = strophe_alloc(ctx, 2 * len + 3);
     if (result != NULL) {
-        result[0] = '"';
-        memcpy(result + 1, s, len);
-        result[len + 1] = '"';
-        result[len + 2] = '\0';
+        p = result;
+        *p++ = '"';
+        for (; *s; ++s) {
+            if (*s == '"' || *s == '\\')
+                *p++ = '\\';
+            *p++ = *s;
+        }
+        *p++ = '"';
+        *p = '\0';
     }
     return result;
 }
@@ -98,8 +104,8 @@ static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
 {
     hash_t *result;
     unsigned char *text;
-    char *key, *value;
-    unsigned char *s, *t;
+    char *key, *value, *c;
+    unsigned char *s, *t, *u;
 
     text = (unsigned char *)xmpp_base64_decode_str(ctx, msg, strlen(msg));
     if (text == NULL) {
@@ -112,8 +118,7 @@ static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
         s = text;
         while (*s != '\0') {
             /* skip any leading commas and spaces */
-            while ((*s == ',') || (*s == ' '))
-                s++;
+            s += strspn((char *)s, ", \t\r\n");
             /* accumulate a key ending at '=' */
             t = s;
             while ((*t != '=') && (*t != '\0'))
@@ -123,24 +128,26 @@ static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
             key = _make_string(ctx, (char *)s, (t - s));
             if (key == NULL)
                 break;
+            /* names are case-insensitive */
+            for (c = key; *c; c++)
+                *c = (char)tolower((unsigned char)*c);
             /* advance our start pointer past the key */
             s = t + 1;
             t = s;
             /* if we see quotes, grab the string in between */
-            if ((*s == '\'') || (*s == '"')) {
-                t++;
-                while ((*t != *s) && (*t != '\0'))
-                    t++;
-                value = _make_string(ctx, (char *)s + 1, (t - s - 1));
-                if (*t == *s) {
-                    s = t + 1;
-                } else {
-                    s = t;
+            if (*s == '"') {
+                t = u = ++s;
+                while ((*t != '"') && (*t != '\0')) {
+                    /* a backslash quotes the next character */
+                    if (*t == '\\' && t[1] != '\0')
+                        t++;
+                    *u++ = *t++;
                 }
-                /* otherwise, accumulate a value ending in ',' or '\0' */
+                value = _make_string(ctx, (char *)s, (u - s));
+                s = *t == '"' ? t + 1 : t;
+                /* otherwise, accumulate a value ending in ',' or a space */
             } else {
-                while ((*t != ',') && (*t != '\0'))
-                    t++;
+                t += strcspn((char *)t, ", \t\r\n");
                 value = _make_string(ctx, (char *)s, (t - s));
                 s = t;
             }
-- 
2.43.0


From d80ae44b4623697a699afcc7fdf53080b0c84141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 74/76] fix: sasl: DIGEST-MD5: use ISO 8859-1 where RFC 2831
 demands it

User name and password are hashed in ISO 8859-1 if they can be expressed in
it, and sent in it if the server doesn't support UTF-8.
---
 src/sasl.c | 61 +++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/src/sasl.c b/src/sasl.c
index 71f1651..903e887 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -166,6 +166,31 @@ static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
     return result;
 }
 
+/* ISO 8859-1 form of an UTF-8 string, NULL if there is none */
+static char *_utf8_to_latin1(xmpp_ctx_t *ctx, const char *s)
+{
+    const unsigned char *in = (const unsigned char *)s;
+    char *result, *out;
+
+    result = out = strophe_alloc(ctx, strlen(s) + 1);
+    if (result == NULL)
+        return NULL;
+    for (; *in; ++in) {
+        if (*in < 0x80) {
+            *out++ = (char)*in;
+        } else if ((*in == 0xc2 || *in == 0xc3) && (in[1] & 0xc0) == 0x80) {
+            *out++ = (char)((*in & 0x03) << 6 | (in[1] & 0x3f));
+            ++in;
+        } else {
+            strophe_free(ctx, result);
+            return NULL;
+        }
+    }
+    *out = '\0';
+
+    return result;
+}
+
 /* is the token in the comma separated list? */
 static int _list_contains(const char *list, const char *token)
 {
@@ -256,8 +281,9 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     hash_t *table;
     char *result = NULL;
     char *node, *domain, *realm;
+    char *node_latin1, *password_latin1;
     char *value;
-    char *response;
+    char *response = NULL;
     struct MD5Context MD5;
     unsigned char digest[16], HA1[16], HA2[16];
     char hex[32];
@@ -296,6 +322,16 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     node = xmpp_jid_node(ctx, jid);
     domain = xmpp_jid_domain(ctx, jid);
 
+    /* ISO 8859-1 is the encoding of the hashed strings whenever they have one
+       and of the response unless the server supports UTF-8 (RFC 2831) */
+    node_latin1 = _utf8_to_latin1(ctx, node);
+    password_latin1 = _utf8_to_latin1(ctx, password);
+    if (hash_get(table, "charset") == NULL &&
+        (node_latin1 == NULL || password_latin1 == NULL)) {
+        strophe_error(ctx, "SASL", "the server doesn't support UTF-8");
+        goto out;
+    }
+
     /* generate default realm of domain if one didn't come from the
        server */
     realm = hash_get(table, "realm");
@@ -305,7 +341,9 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     }
 
     /* add our response fields */
-    hash_add(table, "username", strophe_strdup(ctx, node));
+    hash_add(table, "username",
+             strophe_strdup(
+                 ctx, hash_get(table, "charset") == NULL ? node_latin1 : node));
     xmpp_rand_nonce(ctx->rand, cnonce, sizeof(cnonce));
     hash_add(table, "cnonce", strophe_strdup(ctx, cnonce));
     hash_add(table, "nc", strophe_strdup(ctx, "00000001"));
@@ -320,11 +358,13 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
 
     /* construct MD5(node : realm : password) */
     MD5Init(&MD5);
-    MD5Update(&MD5, (unsigned char *)node, strlen(node));
+    value = node_latin1 ? node_latin1 : node;
+    MD5Update(&MD5, (unsigned char *)value, strlen(value));
     MD5Update(&MD5, (unsigned char *)":", 1);
     MD5Update(&MD5, (unsigned char *)realm, strlen(realm));
     MD5Update(&MD5, (unsigned char *)":", 1);
-    MD5Update(&MD5, (unsigned char *)password, strlen(password));
+    value = password_latin1 ? password_latin1 : (char *)password;
+    MD5Update(&MD5, (unsigned char *)value, strlen(value));
     MD5Final(digest, &MD5);
 
     /* digest now contains the first field of A1 */
@@ -391,14 +431,19 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     if (hash_get(table, "charset") != NULL)
         result = _add_key(ctx, table, "charset", result, 0);
 
-    strophe_free(ctx, node);
-    strophe_free(ctx, domain);
-    hash_release(table); /* also frees value strings */
-
     /* reuse response for the base64 encode of our result */
     response = xmpp_base64_encode(ctx, (unsigned char *)result, strlen(result));
     strophe_free(ctx, result);
 
+out:
+    if (node_latin1)
+        strophe_free(ctx, node_latin1);
+    if (password_latin1)
+        strophe_free(ctx, password_latin1);
+    strophe_free(ctx, node);
+    strophe_free(ctx, domain);
+    hash_release(table); /* also frees value strings */
+
     return response;
 }
 
-- 
2.43.0


From 4d882e0e604459da0c0fa1ddaf3974cc8c69eead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 75/76] fix: do not send in the clear after a failed TLS
 handshake

---
 src/event.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/event.c b/src/event.c
index e887b32..b964156 100644
--- a/src/event.c
+++ b/src/event.c
@@ -133,6 +133,15 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
             }
         }
 
+        /* a connection whose TLS handshake failed is not continued in the
+         * clear, whatever is still queued */
+        if (conn->tls_failed) {
+            strophe_debug(ctx, "xmpp", "TLS handshake failed, disconnecting.");
+            conn->error = ECONNABORTED;
+            conn_disconnect(conn);
+            goto next_item;
+        }
+
         /* write all data from the send queue to the socket */
         sq = conn->send_queue_head;
         while (sq) {
-- 
2.43.0


From 9a5af669d5c75cbbe1eeee54dff7914478eb6e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 76/76] fix: refuse to connect to an empty or dotted domain

---
 src/conn.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 88a862f..dc6c1eb 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -709,6 +709,14 @@ static int _connect_client(xmpp_conn_t *conn,
     if (!domain)
         return XMPP_EMEM;
 
+    /* An empty name would match every certificate and one with a leading dot
+     * those of all subdomains. Neither is a domain. */
+    if (domain[0] == '\0' || domain[0] == '.') {
+        strophe_error(conn->ctx, "xmpp", "JID has no valid domain.");
+        strophe_free(conn->ctx, domain);
+        return XMPP_EINVOP;
+    }
+
     if (altdomain != NULL)
         strophe_debug(conn->ctx, "conn", "Connecting via altdomain.");
 
-- 
2.43.0

