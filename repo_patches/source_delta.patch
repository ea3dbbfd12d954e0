From d66c53a3606bcc31e977b08b8aa346e5e0ba9ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:18 +0000
Subject: [PATCH 01/50] fix: place a new outgoing message right after the
 unsent bytes

The position of the next outgoing message was computed with message_t
pointer arithmetic, and from the start of the send buffer.  With unsent
bytes pending, the message was built far past them and garbage was sent
instead, or the write landed outside the buffer.

The status byte is also cleared: it was left over from whatever occupied
that place before and leaked into forwarded messages.
---
 src/connection.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 0e8882c..c473b09 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -240,8 +240,9 @@ unsigned char *get_send_buf(conn_info_t *pc, size_t size) {
 }
 
 message_t* conn_send_message(conn_info_t *conn) {
-    message_t* m = (message_t*) conn->send_buf + conn->curr_send_size;
+    message_t* m = (message_t*) (conn->curr_send_buf + conn->curr_send_size);
     m->req_size = BUF_SIZE - (conn->curr_send_buf - conn->send_buf + conn->curr_send_size);
+    m->status = 0;
     return m;
 }
 
@@ -272,7 +273,7 @@ message_t* conn_next_message(conn_info_t *conn) {
 // start sending a message, assume the head of the curr_send_buffer is a message_t type
 // returns the number of bytes sent, -1 if an error occured
 int conn_start_send(conn_info_t *conn, struct sockaddr_in target) {
-    message_t *m = (message_t*) conn->send_buf + conn->curr_send_size;
+    message_t *m = (message_t*) (conn->curr_send_buf + conn->curr_send_size);
     conn->target = target;
     dw_log("SEND starting, conn_id: %d, status: %s, msg_size: %d\n", conn_get_id_by_ptr(conn), conn_status_str(conn->status), m->req_size);
     if (conn->curr_send_size == 0)
-- 
2.43.0


From 00a8cfd6289972d13bf10f9dd2851ba6ce284c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:18 +0000
Subject: [PATCH 02/50] fix: wait for writability on the connection that has
 unsent data

The first entry of the connection table was used instead of the one the
event belongs to, so the wrong socket was watched for writability.
---
 src/dw_node.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 428de73..5bb282e 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -755,8 +755,8 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
         ev2.data.u64 = i2l(SOCKET, conn_id);
         ev2.events = EPOLLIN | EPOLLOUT;
         dw_log("adding EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
-               conns->sock, conn_id, conns->curr_send_size);
-        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conns->sock, &ev2));
+               conn->sock, conn_id, conn->curr_send_size);
+        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
         conn_set_status(conn, SENDING);
     }
     if (conn->curr_send_size == 0 && conn_get_status(conn) == SENDING) {
@@ -773,7 +773,7 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     return;
 
  err:
-    if (conns->proto == TCP && conn_get_status(conn) == READY) {
+    if (conn->proto == TCP && conn_get_status(conn) == READY) {
         infos->active_conns--;
     }
     close_and_forget(epollfd, conn->sock);
-- 
2.43.0


From e24c56c62c8539009b404fbecaa7fb89bf21e8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:03 +0000
Subject: [PATCH 03/50] fix: tell a send that would block from one that failed

conn_send() returned 0 both when the socket was full and when the peer
had gone, and an assignment in place of a comparison made every error
look like the latter.  The callers closed the connection in the first
case and carried on in the second.

It now returns 0 when it would block and -1 on errors.  Data that could
not be sent is watched for writability on whatever connection it was
meant for, not only on the one the current event belongs to.  A forward
that cannot be sent is a lost message, it no longer closes the
connection of the client.  A non-blocking client waits for room.
---
 src/connection.c |  7 ++++---
 src/dw_client.c  | 10 +++++++++-
 src/dw_node.c    | 37 +++++++++++++++++++++++--------------
 3 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index c473b09..a2ea272 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -112,7 +112,7 @@ int conn_find_existing(struct sockaddr_in target, proto_t proto) {
 
     pthread_t curr_thread = pthread_self();
     for (int i = 0; i < MAX_CONNS; i++) {
-        if (conns[i].sock == -1)
+        if (conns[i].sock == -1 || conns[i].status == CLOSE)
             continue;
         if (proto == UDP && conns[i].parent_thread == curr_thread) {
             rv = i;
@@ -287,6 +287,7 @@ int conn_start_send(conn_info_t *conn, struct sockaddr_in target) {
         return conn_send(conn);
 }
 
+// returns the number of bytes sent, 0 if it would block, -1 if an error occurred
 int conn_send(conn_info_t *conn) {
     int sock = conn->sock;
     dw_log("SEND conn_id=%d, status=%d (%s), curr_send_size=%lu, sock=%d\n", conn_get_id_by_ptr(conn), conn->status, conn_status_str(conn->status), conn->curr_send_size, sock);
@@ -303,10 +304,10 @@ int conn_send(conn_info_t *conn) {
             return 0;
         } 
 
-        if (errno = EPIPE || errno == ECONNRESET) {
+        if (errno == EPIPE || errno == ECONNRESET) {
             dw_log("SEND Connection closed by remote end conn_id=%d\n", conn_get_id_by_ptr(conn));
             conn->status = CLOSE;
-            return 0;
+            return -1;
         }
 
         fprintf(stderr, "SEND Unexpected error: %s\n", strerror(errno));
diff --git a/src/dw_client.c b/src/dw_client.c
index 09a6d1e..081e786 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -5,6 +5,7 @@
 #include <netdb.h>
 #include <netinet/in.h>
 #include <netinet/tcp.h>
+#include <poll.h>
 #include <pthread.h>
 #include <signal.h>
 #include <stdio.h>
@@ -144,7 +145,14 @@ void *thread_sender(void *data) {
 #ifdef DW_DEBUG
         msg_log(m, "Sending msg: ");
 #endif
-        if (!conn_start_send(conn, conn->target)) {
+        int rv = conn_start_send(conn, conn->target);
+        // a non-blocking socket may take only part of the data
+        while (rv >= 0 && conn->curr_send_size > 0) {
+            struct pollfd pfd = { .fd = conn->sock, .events = POLLOUT };
+            poll(&pfd, 1, -1);
+            rv = conn_send(conn);
+        }
+        if (rv < 0) {
             fprintf(stderr,
                     "Forcing premature termination of sender thread while "
                     "attempting to send pkt %d\n",
diff --git a/src/dw_node.c b/src/dw_node.c
index 5bb282e..b931257 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -261,6 +261,19 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
 
 void setnonblocking(int fd);
 
+// if some data could not be sent, have the rest sent as soon as conn gets writable
+void watch_pending_send(int epollfd, conn_info_t *conn) {
+    if (conn->curr_send_size > 0 && conn_get_status(conn) == READY) {
+        struct epoll_event ev;
+        ev.data.u64 = i2l(SOCKET, conn_get_id_by_ptr(conn));
+        ev.events = EPOLLIN | EPOLLOUT;
+        dw_log("adding EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
+               conn->sock, conn_get_id_by_ptr(conn), conn->curr_send_size);
+        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev));
+        conn_set_status(conn, SENDING);
+    }
+}
+
 // cmd_id is the index of the FORWARD item within m->cmds[] here, we
 // remove the first (cmd_id+1) commands from cmds[], and forward the
 // rest to the next hop
@@ -346,9 +359,10 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     dw_log("  f: cmds[] has %d items, pkt_size is %u\n", msg_num_cmd(m_dst),
            m_dst->req_size);
 
-    if (conn_start_send(&conns[fwd_conn_id], addr) < 0)
-        return 0;
-        
+    // a message that cannot be sent is lost, recovering is up to the timeout
+    if (conn_start_send(&conns[fwd_conn_id], addr) >= 0)
+        watch_pending_send(epollfd, &conns[fwd_conn_id]);
+
     if (fwd.timeout) {
         insert_timeout(infos, req->req_id, epollfd, fwd.timeout);
     }
@@ -423,7 +437,10 @@ int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* inf
     conn_info_t *conn = conn_get_by_id(req->conn_id);
     conn_req_remove(conn, req);
     infos->active_reqs--;
-    return conn_start_send(&conns[req->conn_id], req->target);
+    if (conn_start_send(conn, req->target) < 0)
+        return 0;
+    watch_pending_send(infos->epollfd, conn);
+    return 1;
 }
 
 void compute_for(unsigned long usecs) {
@@ -741,7 +758,7 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     }
     if (p_ev->events & EPOLLOUT && conn->curr_send_size > 0 && conn_get_status(conn) != CONNECTING && conn_get_status(conn) != NOT_INIT) {
         dw_log("calling send_mesg()\n");
-        if (!conn_send(conn))
+        if (conn_send(conn) < 0)
             goto err;
     }
     dw_log("conns[%d].status=%d (%s)\n", conn_id, conn_get_status(conn), conn_status_str(conn_get_status(conn)));
@@ -750,15 +767,7 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     if (!obtain_messages(conn_id, epollfd, infos))
         goto err;
 
-    if (conn->curr_send_size > 0 && conn_get_status(conn) == READY) {
-        struct epoll_event ev2;
-        ev2.data.u64 = i2l(SOCKET, conn_id);
-        ev2.events = EPOLLIN | EPOLLOUT;
-        dw_log("adding EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
-               conn->sock, conn_id, conn->curr_send_size);
-        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
-        conn_set_status(conn, SENDING);
-    }
+    watch_pending_send(epollfd, conn);
     if (conn->curr_send_size == 0 && conn_get_status(conn) == SENDING) {
         struct epoll_event ev2;
         ev2.data.u64 = i2l(SOCKET, conn_id);
-- 
2.43.0


From 81641565f8b1ed19f985553dc4cbf383e200de02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:03 +0000
Subject: [PATCH 04/50] fix: count each active connection exactly once

A connection was counted again whenever its pending output had been
flushed, and not discounted when closed while sending or after a failed
send.  In parent accept mode it was counted for the accepting worker but
discounted from the one serving it.
---
 src/dw_node.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index b931257..684f40f 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -327,12 +327,9 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
                     dw_log("unexpected error from connect(): %s\n", strerror(errno));
                     return 0;
                 }
-                // normal case of asynchronous connect
-                conn_set_status_by_id(fwd_conn_id, CONNECTING);
-            } else {
-                conn_set_status_by_id(fwd_conn_id, READY);
-                infos->active_conns++;
             }
+            // normal case of asynchronous connect, the CONNECT event follows in any case
+            conn_set_status_by_id(fwd_conn_id, CONNECTING);
         }
     }
 
@@ -776,13 +773,12 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
                conn->sock, conn_id, conn->curr_send_size);
         sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
         conn_set_status(conn, READY);
-        infos->active_conns++;
     }
 
     return;
 
  err:
-    if (conn->proto == TCP && conn_get_status(conn) == READY) {
+    if (conn->proto == TCP && conn_get_status(conn) != CONNECTING && conn_get_status(conn) != NOT_INIT) {
         infos->active_conns--;
     }
     close_and_forget(epollfd, conn->sock);
@@ -1027,11 +1023,11 @@ void* conn_worker(void* args) {
                 }
 
                 conn_set_status_by_id(conn_id, READY);
-                infos->active_conns++;
                 ev.events = EPOLLIN;
                 ev.data.u64 = i2l(SOCKET, conn_id);
 
                 int next_thread_id = accept_mode == AM_PARENT ? (atomic_fetch_add(&next_thread_cnt, 1) % conn_threads) : (infos - conn_worker_infos);
+                conn_worker_infos[next_thread_id].active_conns++;
                 if (epoll_ctl(conn_worker_infos[next_thread_id].epollfd, EPOLL_CTL_ADD, conn_sock, &ev) < 0)
                         perror("epoll_ctl() failed");
                 dw_log("conn_id: %d assigned to connw-%d\n", conn_id, conn_worker_infos[next_thread_id].worker_id);
-- 
2.43.0


From e2c870f612ae09b952fe08be254c768d14f43bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:03 +0000
Subject: [PATCH 05/50] fix: abandon the requests of a closed connection
 completely

Closing a connection left its list of requests dangling, so the next
connection using the same entry inherited and later freed them.  It also
left their timeouts armed and kept counting them as active.
---
 src/connection.c | 1 +
 src/dw_node.c    | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/connection.c b/src/connection.c
index a2ea272..faf9615 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -76,6 +76,7 @@ req_info_t* conn_req_add(conn_info_t *conn) {
 static void conn_reset(conn_info_t *conn) {
     for (req_info_t *temp = conn->req_list; temp != NULL; temp = req_free(temp))
         ;
+    conn->req_list = NULL;
 }
 
 req_info_t* conn_req_remove(conn_info_t *conn, req_info_t *req) {
diff --git a/src/dw_node.c b/src/dw_node.c
index 684f40f..9cfbf92 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -781,6 +781,11 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     if (conn->proto == TCP && conn_get_status(conn) != CONNECTING && conn_get_status(conn) != NOT_INIT) {
         infos->active_conns--;
     }
+    // requests still in progress are abandoned
+    for (req_info_t *req = conn->req_list; req != NULL; req = req->next) {
+        remove_timeout(infos, req->req_id, epollfd);
+        infos->active_reqs--;
+    }
     close_and_forget(epollfd, conn->sock);
     conn_free(conn_id);
 }
-- 
2.43.0


From c91884c56d76fbb10a3a09ffe322af496d4cb4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:03 +0000
Subject: [PATCH 06/50] fix: keep newer requests on their next command when one
 is removed

Removing a completed request moves the later ones of the same connection
within the receive buffer.  Only their message pointer was adjusted, the
pointer to the command to resume from kept its old value and ended up in
the middle of another request.
---
 src/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/connection.c b/src/connection.c
index faf9615..587a2cf 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -98,6 +98,7 @@ req_info_t* conn_req_remove(conn_info_t *conn, req_info_t *req) {
                temp->message_ptr - req_size,
                temp->message_ptr - req_size + req_get_message(temp)->req_size);
         temp->message_ptr -= req_size;
+        temp->curr_cmd = (command_t*) ((unsigned char*) temp->curr_cmd - req_size);
     }
 
     if (conn->req_list == req)
-- 
2.43.0


From 4e978b27b3ecafdcfaa3a6ddf7031278ad12a8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:03 +0000
Subject: [PATCH 07/50] fix: hand storage commands over to the storage thread
 by value

The storage thread got a pointer into the receive buffer of the
connection.  By the time it looked, the worker could have moved other
data there, or freed the buffer with the connection, and the wrong bytes
were stored or loaded.

A load was also tested for the sync flag of a store, which lies past its
own options, and could wait for the next periodic sync.
---
 src/dw_node.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 9cfbf92..d373c63 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -124,7 +124,11 @@ typedef struct {
 } storage_worker_info_t;
 
 typedef struct {
-    command_t *cmd;
+    command_type_t cmd;
+    union {
+        store_opts_t store;
+        load_opts_t load;
+    } opts;
     int worker_id;
     int req_id;
 } storage_req_t;
@@ -580,7 +584,11 @@ int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *inf
         case STORE:
         case LOAD: {
             storage_req_t w;
-            w.cmd = cmd;
+            w.cmd = cmd->cmd;
+            if (cmd->cmd == STORE)
+                w.opts.store = *cmd_get_opts(store_opts_t, cmd);
+            else
+                w.opts.load = *cmd_get_opts(load_opts_t, cmd);
             w.worker_id = infos->worker_id;
             w.req_id = req->req_id;
 
@@ -897,7 +905,6 @@ void* storage_worker(void* args) {
                 dw_log("storage sync...\n");
             } else if (type == STORAGE) {
                 storage_req_t w;
-                command_t *storage_cmd;
                 int worker_id;
                 int req_id;
 
@@ -907,22 +914,21 @@ void* storage_worker(void* args) {
                     break;
                 }
 
-                storage_cmd = w.cmd;
                 worker_id = w.worker_id;
                 req_id = w.req_id;
 
                 dw_log("STORAGE cmd from conn_id %d\n", req_id);
 
-                if (storage_cmd->cmd == STORE) {
-                    store(infos, infos->store_buf, cmd_get_opts(store_opts_t, storage_cmd));
-                } else if (storage_cmd->cmd == LOAD) {
-                    load(infos, infos->store_buf, cmd_get_opts(load_opts_t, storage_cmd));
+                if (w.cmd == STORE) {
+                    store(infos, infos->store_buf, &w.opts.store);
+                } else if (w.cmd == LOAD) {
+                    load(infos, infos->store_buf, &w.opts.load);
                 } else { // error
                     fprintf(stderr, "Unknown command sent to storage server - skipping");
                     continue;
                 }
 
-                if (!cmd_get_opts(store_opts_t, storage_cmd)->wait_sync || infos->periodic_sync_msec <= 0) {
+                if (w.cmd != STORE || !w.opts.store.wait_sync || infos->periodic_sync_msec <= 0) {
                     safe_write(infos->store_replyfd[worker_id], (unsigned char*) &req_id, sizeof(req_id));
                 } else {
                     data_t data = {.value=req_id};
-- 
2.43.0


From 87face35c9e01d1f5db124cacbb26702b75064e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:58 +0000
Subject: [PATCH 08/50] fix: ignore a storage completion whose request is gone

When a client disconnected while its store or load was in progress, the
completion was processed with a null request and crashed the node.
---
 src/dw_node.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index d373c63..4a8d726 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1052,8 +1052,9 @@ void* conn_worker(void* args) {
                 }
 
                 dw_log("STORAGE ACK for req_id %d\n", req_id_ACK);
-                process_messages(req_get_by_id(req_id_ACK), infos->epollfd, infos);
-                //exec_request(infos->epollfd, &events[i], infos);
+                req_info_t *req = req_get_by_id(req_id_ACK);
+                if (req) // may be gone along with its connection
+                    process_messages(req, infos->epollfd, infos);
             } else if (type == TERMINATION) {
                 // no need to disarm signal, since we are killing the node anyway
                 dw_log("TERMINATION\n");
-- 
2.43.0


From 79a446d7b78f2449402ef1bcde4e9d00868202e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:58 +0000
Subject: [PATCH 09/50] fix: match the answers to a forward with that very
 forward

Answers were matched by request id alone, and the count of answers to
wait for was not reset once reached.  With more answers than needed, or
an answer arriving after the timeout, the surplus one was counted for
the next forward of the same request, or for whatever the request was
doing by then.  Once a forward is over, its request now changes id.

Also look for a free request entry instead of failing when the next one
in turn is still in use.
---
 src/dw_node.c | 10 +++++++++-
 src/request.c | 21 ++++++++++++++-------
 src/request.h |  5 +++++
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 4a8d726..9c085f8 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -391,11 +391,17 @@ int start_forward(req_info_t *req, message_t *m, command_t *cmd, int epollfd, co
 int process_messages(req_info_t *req, int epollfd, conn_worker_info_t* infos);
 int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos);
 
+// Further replies to the forward being waited for, if any, are to be ignored
+void end_forward(req_info_t *req) {
+    req->fwd_replies_left = -1;
+    req_renew_id(req);
+}
+
 // Call this once we received a REPLY from a socket matching a req_id we forwarded
 int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
     req_info_t *req = req_get_by_id(req_id);
 
-    if (!req) {
+    if (!req || req->fwd_replies_left == -1) {
         dw_log("Could not match a response to FORWARD, req_id:%d - Dropped\n", req_id);
         return 1;
     }
@@ -408,6 +414,7 @@ int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
         req->curr_cmd = message_skip_cmds(m, req->curr_cmd, 1);
         
         remove_timeout(infos, req_id, epollfd);
+        end_forward(req);
 
         return process_messages(req, epollfd, infos);
     }
@@ -717,6 +724,7 @@ void handle_timeout(int epollfd, conn_worker_info_t *infos) {
         dw_log("TIMEOUT expired, failed, skipping: %d\n", fwd->on_fail_skip);
         
         req->curr_cmd = message_skip_cmds(m, req->curr_cmd, fwd->on_fail_skip);
+        end_forward(req);
         m->status = -1;
         process_messages(req, epollfd, infos);
     } else {
diff --git a/src/request.c b/src/request.c
index 5b61fe7..c1f7d2e 100644
--- a/src/request.c
+++ b/src/request.c
@@ -29,16 +29,23 @@ req_info_t* req_free(req_info_t* r) {
     return next;
 }
 
-req_info_t* req_alloc() {
-    int req_id = atomic_fetch_add(&last_reqs, 1);
-    req_info_t *r = &reqs[req_id % MAX_REQS];
-
-    if (r->req_id != -1)
-        return NULL;
+void req_renew_id(req_info_t *r) {
+    r->req_id = (r - reqs) + MAX_REQS * (r->num_ids++ % MAX_IDS_PER_REQ);
+}
 
-    r->req_id = req_id;
+req_info_t* req_alloc() {
+    req_info_t *r;
+    int tries = 0;
+    do {
+        if (tries++ == MAX_REQS)
+            return NULL;
+        r = &reqs[atomic_fetch_add(&last_reqs, 1) % MAX_REQS];
+    } while (r->req_id != -1);
+
+    req_renew_id(r);
     r->curr_cmd = NULL;
     r->fwd_replies_left = -1;
+    r->timeout_node = NULL;
     r->next = NULL;
     r->prev = NULL;
 
diff --git a/src/request.h b/src/request.h
index a8973ee..fb62c42 100644
--- a/src/request.h
+++ b/src/request.h
@@ -7,12 +7,14 @@
 #include <stdatomic.h>
 
 #define MAX_REQS (1u << 16)
+#define MAX_IDS_PER_REQ (1u << 15)
 
 
 typedef struct req_info_t req_info_t;
 
 struct req_info_t {
     int req_id;
+    unsigned int num_ids; // ids this entry has had so far
     int conn_id;
     struct sockaddr_in target;
     int fwd_replies_left;
@@ -30,6 +32,9 @@ void req_init();
 req_info_t* req_alloc();
 req_info_t* req_free(req_info_t *r);
 
+// give r an id not used recently, so that what refers to its previous one does not match anymore
+void req_renew_id(req_info_t *r);
+
 static inline message_t* req_get_message(req_info_t *r) {
     return (message_t*)r->message_ptr;
 }
-- 
2.43.0


From c7267e89dcde4516fb3a2001a65197ea0449d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:58 +0000
Subject: [PATCH 10/50] fix: make forward timeouts work with several requests

- The time elapsed on the timer was added twice to new timeouts.
- Two timeouts due at the same time disarmed the timer.
- A timeout was ignored unless the id of the client's request happened
  to equal the internal one, or if it was for a multi-target forward.
- A multi-target forward armed one timeout per target and forgot all
  but the last one.
- A timer event reported before the timer was set again expired the
  next timeout in line too early.
---
 src/dw_node.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 9c085f8..1fb9f42 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -206,7 +206,6 @@ void insert_timeout(conn_worker_info_t* infos, int req_id, int epollfd, int micr
     if (pqueue_size(infos->timeout_queue) > 0) {
         struct itimerspec timerspec = {0};
         sys_check(timerfd_gettime(infos->timerfd, &timerspec));
-        new_micros += infos->time_elapsed;
         new_micros += pqueue_node_key(pqueue_top(infos->timeout_queue));
         new_micros -= its_to_us(timerspec);
     } else {
@@ -249,7 +248,8 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
         int next_timeout = pqueue_node_key(pqueue_top(infos->timeout_queue));
         sys_check(timerfd_gettime(infos->timerfd, &timerspec));
         infos->time_elapsed = time_elapsed;
-        timerspec = us_to_its(next_timeout - time_elapsed);
+        // setting 0 would disarm the timer
+        timerspec = us_to_its(next_timeout > time_elapsed ? next_timeout - time_elapsed : 1);
         sys_check(timerfd_settime(infos->timerfd, 0, &timerspec, NULL));
         dw_log("TIMEOUT removed, req_id: %d, next interrupt: %dus\n", req_id, next_timeout - time_elapsed);
     } else {
@@ -364,7 +364,8 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     if (conn_start_send(&conns[fwd_conn_id], addr) >= 0)
         watch_pending_send(epollfd, &conns[fwd_conn_id]);
 
-    if (fwd.timeout) {
+    // a single timeout covers all the targets of a MULTI_FORWARD
+    if (fwd.timeout && !req->timeout_node) {
         insert_timeout(infos, req->req_id, epollfd, fwd.timeout);
     }
 
@@ -696,6 +697,11 @@ void setnonblocking(int fd) {
 }
 
 void handle_timeout(int epollfd, conn_worker_info_t *infos) {
+    // the timer may have been set again since the event was reported
+    uint64_t expirations;
+    if (read(infos->timerfd, &expirations, sizeof(expirations)) < 0)
+        return;
+
     if (!pqueue_size(infos->timeout_queue))
         return;
 
@@ -710,9 +716,7 @@ void handle_timeout(int epollfd, conn_worker_info_t *infos) {
     remove_timeout(infos, req_id, epollfd);
 
     command_t *p_cmd = req->curr_cmd;
-    // if curr_cmd is no more on MULTI_FORWARD, ignore
-    // TODO: case with 2 independent (non-nested) forwards in same req
-    if (p_cmd->cmd != FORWARD || m->req_id != req_id)
+    if (p_cmd->cmd != FORWARD && p_cmd->cmd != MULTI_FORWARD)
         return;
     fwd_opts_t *fwd = cmd_get_opts(fwd_opts_t, p_cmd);
     if (fwd->retries > 0) {
-- 
2.43.0


From 8ed376debc42f7bad769464444b857737d4082d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:58 +0000
Subject: [PATCH 11/50] fix: keep the connection to a forward target open after
 an answer

Connections to forward targets are shared among requests, but the first
answer received on one closed it.  The answers to all the other requests
that were using it got lost and these never completed.

The answers are now removed from the receive buffer, which they would
otherwise fill up.
---
 src/connection.c |  8 ++++++++
 src/connection.h |  3 ++-
 src/dw_node.c    | 16 ++++++----------
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 587a2cf..152df5c 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -272,6 +272,14 @@ message_t* conn_next_message(conn_info_t *conn) {
     return m;
 }
 
+void conn_remove_message(conn_info_t *conn, message_t *m) {
+    unsigned long size = m->req_size;
+    memmove(m, conn->curr_proc_buf, conn->curr_recv_buf - conn->curr_proc_buf);
+    conn->curr_recv_buf -= size;
+    conn->curr_proc_buf -= size;
+    conn->curr_recv_size += size;
+}
+
 // start sending a message, assume the head of the curr_send_buffer is a message_t type
 // returns the number of bytes sent, -1 if an error occured
 int conn_start_send(conn_info_t *conn, struct sockaddr_in target) {
diff --git a/src/connection.h b/src/connection.h
index ef2988d..b42b379 100644
--- a/src/connection.h
+++ b/src/connection.h
@@ -68,7 +68,8 @@ unsigned char *get_send_buf(conn_info_t *pc, size_t size);
 message_t* conn_send_message(conn_info_t *conn);
 /* retrieve next received message in conn's recv buffer */
 message_t* conn_next_message(conn_info_t *conn);
-void conn_remove_message(conn_info_t *conn);
+/* drop m, the last message retrieved, from conn's recv buffer */
+void conn_remove_message(conn_info_t *conn, message_t *m);
 
 int conn_find_existing(struct sockaddr_in target, proto_t proto);
 int conn_find_sock(int sock);
diff --git a/src/dw_node.c b/src/dw_node.c
index 1fb9f42..7c127a4 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -633,17 +633,13 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos) {
     for (message_t *m = conn_next_message(conn); m != NULL; m = conn_next_message(conn)) {
         // FORWARD finished
         if (message_first_cmd(m)->cmd == EOM) {
+            int req_id = m->req_id;
             dw_log("Handling response to FORWARD from %s:%d, req_id=%d\n", inet_ntoa((struct in_addr) {conns[conn_id].target.sin_addr.s_addr}), 
-                                                                           ntohs(conns[conn_id].target.sin_port), m->req_id);
-            if (!handle_forward_reply(m->req_id, epollfd, infos)) {
-                    dw_log("handle_forward_reply() failed\n");
-                    return 0;
-            }
-            //TODO: This causes a disconnection right after the forwad-reply concludes.
-            // This should be removed ASAP, since it deteriorates the performance of subsequent forwards to the same node,
-            // However keeping the connection open causes performance deterioration for all the other operations; 
-            // The reason why has yet to be properly investigated
-            return 0;
+                                                                           ntohs(conns[conn_id].target.sin_port), req_id);
+            conn_remove_message(conn, m);
+            // a failure concerns the connection of the request, not this one
+            if (handle_forward_reply(req_id, epollfd, infos) < 0)
+                dw_log("handle_forward_reply() failed\n");
         } else {
             req_info_t *req = conn_req_add(conn);
             if (req == NULL) {
-- 
2.43.0


From d651404b87f70e3fed16bb9b57d68c04462130b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:58 +0000
Subject: [PATCH 12/50] fix: forward over a connection of the right protocol
 and thread

A forward over UDP used any connection of the thread, even the one of a
TCP client.  One over TCP used the connection another thread had opened
to the same target, with both of them reading and writing its buffers,
and its answers going to the wrong thread.  A new UDP socket was never
polled for answers.
---
 src/connection.c | 9 ++++++---
 src/dw_node.c    | 7 ++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 152df5c..f006d94 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -116,10 +116,13 @@ int conn_find_existing(struct sockaddr_in target, proto_t proto) {
     for (int i = 0; i < MAX_CONNS; i++) {
         if (conns[i].sock == -1 || conns[i].status == CLOSE)
             continue;
-        if (proto == UDP && conns[i].parent_thread == curr_thread) {
+        // connections are not shared among threads
+        if (conns[i].parent_thread != curr_thread || conns[i].proto != proto)
+            continue;
+        if (proto == UDP) {
             rv = i;
             break;
-        } else if (proto == TCP && conns[i].target.sin_port == target.sin_port && conns[i].target.sin_addr.s_addr == target.sin_addr.s_addr && conns[i].proto == proto) {
+        } else if (conns[i].target.sin_port == target.sin_port && conns[i].target.sin_addr.s_addr == target.sin_addr.s_addr) {
             rv = i;
             break;
         }
@@ -208,13 +211,13 @@ int conn_alloc(int conn_sock, struct sockaddr_in target, proto_t proto) {
     if (!new_recv_buf || !new_send_buf)
         goto continue_free;
 
+    conns[conn_id].parent_thread = pthread_self(); 
     conns[conn_id].proto = proto;
     conns[conn_id].target = target;
     conns[conn_id].sock = conn_sock;
     conns[conn_id].status = (proto == TCP ? NOT_INIT : READY);
     conns[conn_id].recv_buf = new_recv_buf;
     conns[conn_id].send_buf = new_send_buf;
-    conns[conn_id].parent_thread = pthread_self(); 
 
     dw_log("CONN allocated, conn_id: %d\n", conn_id);
     conns[conn_id].curr_recv_buf = conns[conn_id].recv_buf;
diff --git a/src/dw_node.c b/src/dw_node.c
index 7c127a4..167894e 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -314,7 +314,12 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
             return 0;
         }
 
-        if (fwd.proto == TCP) {
+        if (fwd.proto == UDP) {
+            struct epoll_event ev;
+            ev.events = EPOLLIN;
+            ev.data.u64 = i2l(SOCKET, fwd_conn_id);
+            sys_check(epoll_ctl(epollfd, EPOLL_CTL_ADD, clientSocket, &ev));
+        } else {
             struct epoll_event ev;
             ev.events = EPOLLOUT | EPOLLONESHOT;
             ev.data.u64 = i2l(CONNECT, fwd_conn_id);
-- 
2.43.0


From f20c64ce86115e90ecd3790eed07287a344fae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:58 +0000
Subject: [PATCH 13/50] fix: do not block or exit when there is no connection
 to accept

In shared accept mode several workers wake up for one connection.  All
but one of them blocked in accept(), stopping the connections they were
serving.  A connection reset before being accepted terminated the node.
---
 src/dw_node.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 167894e..32784f0 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1030,7 +1030,13 @@ void* conn_worker(void* args) {
                 struct sockaddr_in addr;
                 socklen_t addr_size = sizeof(addr);
                 int conn_sock;
-                sys_check(conn_sock = accept(infos->listen_sock, (struct sockaddr *)&addr, &addr_size));
+                conn_sock = accept(infos->listen_sock, (struct sockaddr *)&addr, &addr_size);
+                if (conn_sock < 0) {
+                    // taken by another worker, or gone in the meantime
+                    if (errno != EAGAIN && errno != EWOULDBLOCK)
+                        perror("accept() failed");
+                    continue;
+                }
 
                 dw_log("Accepted connection from: %s:%d\n",
                        inet_ntoa(addr.sin_addr), ntohs(addr.sin_port));
@@ -1275,8 +1281,10 @@ void init_listen_sock(int i, accept_mode_t accept_mode, proto_t proto, struct so
         dw_log("Node bound to %s:%d (with protocol: %s)\n", inet_ntoa(serverAddr.sin_addr), ntohs(serverAddr.sin_port), proto_str(proto));
 
         /*---- Listen on the socket, with 5 max connection requests queued ----*/
-        if (proto == TCP)
+        if (proto == TCP) {
             sys_check(listen(conn_worker_infos[i].listen_sock, listen_backlog));
+            setnonblocking(conn_worker_infos[i].listen_sock);
+        }
         dw_log("Accepting new connections (max backlog: %d)...\n", listen_backlog);
     } else if (accept_mode == AM_SHARED) {
         conn_worker_infos[i].listen_sock = conn_worker_infos[0].listen_sock;
-- 
2.43.0


From d5d199187d438e143b80e6cfe7ff08b2fe68b799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:58 +0000
Subject: [PATCH 14/50] fix: handle the events reported together with a
 statistics request

They were dropped, which for a connection being established meant
forever, as its event is reported only once.
---
 src/dw_node.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 32784f0..e71e251 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1102,8 +1102,6 @@ void* conn_worker(void* args) {
                 }
                 printf("[%ld.%09ld][%s] STATS total-active-conns: %d, total-active-reqs: %d\n", ts.tv_sec, ts.tv_nsec, thread_name, 
                                                                                             total_active_conns, total_active_reqs);
-
-                break;
             } else {
                 exec_request(infos->epollfd, &events[i], infos);
             }
-- 
2.43.0


From eeabfe89c50b865150f2858c202b4065af1abf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:58 +0000
Subject: [PATCH 15/50] fix: keep serving UDP after an empty or unsendable
 datagram

An empty datagram was taken for the end of a connection, and a reply
that does not fit a datagram for a broken one.  Either closed the socket
the node receives all its requests from.
---
 src/connection.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/connection.c b/src/connection.c
index f006d94..0cf259d 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -324,6 +324,12 @@ int conn_send(conn_info_t *conn) {
         }
 
         fprintf(stderr, "SEND Unexpected error: %s\n", strerror(errno));
+        if (conn->proto == UDP) {
+            // only this datagram is lost
+            conn->curr_send_buf = conn->send_buf;
+            conn->curr_send_size = 0;
+            return 0;
+        }
         return -1;
     }
     dw_log("SEND returned: %d\n", (int)sent);
@@ -342,7 +348,7 @@ int conn_recv(conn_info_t *conn) {
     size_t received = recvfrom(sock, conn->curr_recv_buf, conn->curr_recv_size, 0,
                                (struct sockaddr*)&conn->target, (socklen_t*)&recvsize);
     dw_log("RECV returned: %d\n", (int)received);
-    if (received == 0) {
+    if (received == 0 && conn->proto == TCP) {
         dw_log("RECV connection closed by remote end\n");
         return 0;
     } else if (received == -1 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
-- 
2.43.0


From fd374fc16604856b9896da1a9c2fb98a10c4a23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:35 +0000
Subject: [PATCH 16/50] fix: store and load at the right place of the storage
 file

- Explicit offsets were cut to 32 bits.
- With direct I/O, the rounding turned "no offset" into offset 0, so
  that sequential stores all went to the start of the file.
- With direct I/O, loads were not rounded to whole blocks, which makes
  the read fail and the node exit.
- A load that reached the end of the file and continued from its start
  left the file position different from the tracked one, and later
  sequential operations followed the former.
---
 src/dw_node.c | 53 +++++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index e71e251..31f5474 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -472,31 +472,31 @@ void compute_for(unsigned long usecs) {
 // (Essential, since O_DIRECT bypasses the page caches)
 unsigned long blk_size = 0;
 
+// Round-up bytes to the nearest multiple of blk_size when using O_DIRECT
+static size_t storage_round_up(storage_info_t *storage_info, size_t bytes) {
+    if (storage_info->use_odirect)
+        bytes = (bytes + blk_size - 1) / blk_size * blk_size;
+    return bytes;
+}
+
 void store(storage_worker_info_t *infos, unsigned char* buf, store_opts_t *store_opts) {
     storage_info_t* storage_info = &(infos->storage_info);
 
-    size_t total_bytes = store_opts->store_nbytes;
-    uint32_t offset = store_opts->offset;
+    size_t total_bytes = storage_round_up(storage_info, store_opts->store_nbytes);
+    uint64_t offset = store_opts->offset;
     uint8_t wait_sync = store_opts->wait_sync;
 
-    // Round-up total_bytes to the nearest multiple of blk_size when using O_DIRECT
-    if (storage_info->use_odirect) {
-        total_bytes = (total_bytes + blk_size - 1) / blk_size * blk_size;
-        offset = (offset + blk_size - 1) / blk_size * blk_size;
-    }
-
     if (offset != -1) {
-        if (lseek(storage_info->storage_fd, offset, SEEK_SET) < 0) {
-            perror("lseek() failed");
-            return; // @todo propagate error
-        }
-        storage_info->storage_offset = offset;
+        storage_info->storage_offset = storage_round_up(storage_info, offset);
     } else {
-        if (storage_info->storage_offset + total_bytes > storage_info->max_storage_size) {
-            lseek(storage_info->storage_fd, 0, SEEK_SET);
+        if (storage_info->storage_offset + total_bytes > storage_info->max_storage_size)
             storage_info->storage_offset = 0;
-        }
-    }  
+    }
+
+    if (lseek(storage_info->storage_fd, storage_info->storage_offset, SEEK_SET) < 0) {
+        perror("lseek() failed");
+        return; // @todo propagate error
+    }
 
     dw_log("STORE: storing %lu bytes from %d offset\n", total_bytes, (int) storage_info->storage_offset);
 
@@ -527,21 +527,20 @@ void store(storage_worker_info_t *infos, unsigned char* buf, store_opts_t *store
 void load(storage_worker_info_t *infos, unsigned char* buf, load_opts_t *load_opts) {
     storage_info_t* storage_info = &(infos->storage_info);
 
-    size_t total_bytes = load_opts->load_nbytes;
-    uint32_t offset = load_opts->offset;
+    size_t total_bytes = storage_round_up(storage_info, load_opts->load_nbytes);
+    uint64_t offset = load_opts->offset;
 
     dw_log("LOAD: loading %lu bytes from %d offset\n", total_bytes, (int) offset);
     if (offset != -1) {
-        if (lseek(storage_info->storage_fd, offset, SEEK_SET) < 0) {
-            perror("lseek() failed");
-            return; // @todo propagate error
-        }
-        storage_info->storage_offset = offset;
+        storage_info->storage_offset = storage_round_up(storage_info, offset);
     } else {
-        if (storage_info->storage_offset + total_bytes > storage_info->storage_eof) {
-            lseek(storage_info->storage_fd, 0, SEEK_SET);
+        if (storage_info->storage_offset + total_bytes > storage_info->storage_eof)
             storage_info->storage_offset = 0;
-        }
+    }
+
+    if (lseek(storage_info->storage_fd, storage_info->storage_offset, SEEK_SET) < 0) {
+        perror("lseek() failed");
+        return; // @todo propagate error
     }
 
     size_t read_bytes = 0;
-- 
2.43.0


From b2dae3b37d3cea39aaf4443b7e6ec21ee07ea8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:35 +0000
Subject: [PATCH 17/50] fix: let the timeout handle a forward target that
 cannot be reached

When connecting to a target failed at once (e.g., network unreachable),
the connection of the client was closed, the connection entry leaked and
the other targets of the forward were not tried.  It is now like a
target refusing the connection or not answering.
---
 src/dw_node.c | 50 ++++++++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 31f5474..b5332cc 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -264,6 +264,7 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
 }
 
 void setnonblocking(int fd);
+void close_and_forget(int epollfd, int sock);
 
 // if some data could not be sent, have the rest sent as soon as conn gets writable
 void watch_pending_send(int epollfd, conn_info_t *conn) {
@@ -334,6 +335,8 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
             if (rv == -1) {
                 if (errno != EAGAIN && errno != EINPROGRESS) {
                     dw_log("unexpected error from connect(): %s\n", strerror(errno));
+                    close_and_forget(epollfd, clientSocket);
+                    conn_free(fwd_conn_id);
                     return 0;
                 }
             }
@@ -352,7 +355,7 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
         c = cmd_next(c);
     }
 
-    command_t* reply_cmd = message_copy_tail(m, m_dst, c);
+    message_copy_tail(m, m_dst, c);
     m_dst->req_id = req->req_id;
     m_dst->req_size = fwd.pkt_size;
 
@@ -369,29 +372,28 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     if (conn_start_send(&conns[fwd_conn_id], addr) >= 0)
         watch_pending_send(epollfd, &conns[fwd_conn_id]);
 
-    // a single timeout covers all the targets of a MULTI_FORWARD
-    if (fwd.timeout && !req->timeout_node) {
-        insert_timeout(infos, req->req_id, epollfd, fwd.timeout);
-    }
-
-    if (req->fwd_replies_left == -1)
-        req->fwd_replies_left = cmd_get_opts(reply_opts_t, reply_cmd)->n_ack;
-
     return 1;
 }
 
-// return 1 if OK, 0 if an error occurred in at least one forward operation
-int start_forward(req_info_t *req, message_t *m, command_t *cmd, int epollfd, conn_worker_info_t *infos) {
-    if (cmd->cmd == FORWARD)
-        return single_start_forward(req, m, cmd, epollfd, infos);
-    assert(cmd->cmd == MULTI_FORWARD);
+// forward to all the targets, one that cannot be reached is handled as one that does not answer
+void start_forward(req_info_t *req, message_t *m, command_t *cmd, int epollfd, conn_worker_info_t *infos) {
+    command_type_t type = cmd->cmd;
+    uint32_t timeout = cmd_get_opts(fwd_opts_t, cmd)->timeout;
+    assert(type == FORWARD || type == MULTI_FORWARD);
     do {
-        int rv = single_start_forward(req, m, cmd, epollfd, infos);
-        if (rv == 0)
-            return 0;
+        if (!single_start_forward(req, m, cmd, epollfd, infos))
+            fprintf(stderr, "Error: could not execute FORWARD\n");
         cmd = cmd_next(cmd);
-    } while (cmd->cmd == MULTI_FORWARD);
-    return 1;
+    } while (type == MULTI_FORWARD && cmd->cmd == MULTI_FORWARD);
+
+    // a single timeout covers all the targets of a MULTI_FORWARD
+    if (timeout && !req->timeout_node)
+        insert_timeout(infos, req->req_id, epollfd, timeout);
+
+    while (cmd->cmd != EOM && cmd->cmd != REPLY)
+        cmd = message_skip_cmds(m, cmd, 1);
+    if (req->fwd_replies_left == -1)
+        req->fwd_replies_left = cmd_get_opts(reply_opts_t, cmd)->n_ack;
 }
 
 int process_messages(req_info_t *req, int epollfd, conn_worker_info_t* infos);
@@ -577,14 +579,10 @@ int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *inf
             compute_for(cmd_get_opts(comp_opts_t, cmd)->comp_time_us);
             break;
         case FORWARD:
-        case MULTI_FORWARD: {
-            int rv = start_forward(req, m, cmd, epollfd, infos);
-            if (rv == 0) {
-                fprintf(stderr, "Error: could not execute FORWARD\n");
-                return -1;
-            }
+        case MULTI_FORWARD:
+            start_forward(req, m, cmd, epollfd, infos);
             req->curr_cmd = cmd;
-            return 0; }
+            return 0;
         case REPLY:
             dw_log("Handling REPLY: req_id=%d\n", m->req_id);
             if (conn_get_status_by_id(req->conn_id) != CLOSE && !reply(req, m, cmd, infos)) {
-- 
2.43.0


From d526a3d35aebc8154add5e24a9e95da00a16d6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:35 +0000
Subject: [PATCH 18/50] fix: survive a client or a target that does not read

The space of sent data at the start of the send buffer was reclaimed
only when all of it had been sent, and running out of space terminated
the node.  It is now reclaimed as soon as it is worth moving the rest.
When replies do not fit anyway, only that client is given up.
---
 src/connection.c | 10 ++++++++++
 src/connection.h |  1 +
 src/dw_node.c    | 18 ++++++++++++++++--
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 0cf259d..850576c 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -245,6 +245,16 @@ unsigned char *get_send_buf(conn_info_t *pc, size_t size) {
 }
 
 message_t* conn_send_message(conn_info_t *conn) {
+    // reclaim the space of what has been sent already
+    unsigned long sent = conn->curr_send_buf - conn->send_buf;
+    if (sent >= conn->curr_send_size) {
+        memmove(conn->send_buf, conn->curr_send_buf, conn->curr_send_size);
+        conn->curr_send_buf = conn->send_buf;
+    }
+    // no room even for an empty message
+    if (conn->curr_send_buf - conn->send_buf + conn->curr_send_size + sizeof(message_t) + sizeof(command_t) > BUF_SIZE)
+        return NULL;
+
     message_t* m = (message_t*) (conn->curr_send_buf + conn->curr_send_size);
     m->req_size = BUF_SIZE - (conn->curr_send_buf - conn->send_buf + conn->curr_send_size);
     m->status = 0;
diff --git a/src/connection.h b/src/connection.h
index b42b379..a296c2d 100644
--- a/src/connection.h
+++ b/src/connection.h
@@ -65,6 +65,7 @@ req_info_t* conn_req_remove(conn_info_t *conn, req_info_t *req);
 
 unsigned char *get_send_buf(conn_info_t *pc, size_t size);
 
+/* place for the next message to send, with the space available as its size, NULL if none */
 message_t* conn_send_message(conn_info_t *conn);
 /* retrieve next received message in conn's recv buffer */
 message_t* conn_next_message(conn_info_t *conn);
diff --git a/src/dw_node.c b/src/dw_node.c
index b5332cc..03dd177 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -348,7 +348,10 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     int sock = conns[fwd_conn_id].sock;
     assert(sock != -1);
     message_t *m_dst = conn_send_message(&conns[fwd_conn_id]);
-    assert(m_dst->req_size >= fwd.pkt_size);
+    if (!m_dst || m_dst->req_size < fwd.pkt_size) {
+        dw_log("no room to forward, conn_id: %d\n", fwd_conn_id);
+        return 0;
+    }
 
     command_t *c = cmd_next(cmd);
     while (c->cmd != EOM && c->cmd == MULTI_FORWARD) {
@@ -434,7 +437,18 @@ int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
 int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* infos) {
     message_t *m_dst = conn_send_message(&conns[req->conn_id]);
     reply_opts_t *opts = cmd_get_opts(reply_opts_t, cmd);
-    assert(m_dst->req_size >= opts->resp_size);
+    if (!m_dst || m_dst->req_size < opts->resp_size) {
+        fprintf(stderr, "no room to reply, conn_id: %d\n", req->conn_id);
+        conn_info_t *conn = conn_get_by_id(req->conn_id);
+        conn_req_remove(conn, req);
+        infos->active_reqs--;
+        if (conn->proto == UDP)
+            return 1;
+        // too much unread by the client, give it up (the event that follows closes the connection)
+        shutdown(conn->sock, SHUT_RDWR);
+        conn_set_status(conn, CLOSE);
+        return 0;
+    }
 
     dw_log("conn_id:%d, m_dst: %p, send_buf: %p\n", req->conn_id, m_dst, conns[req->conn_id].send_buf);
 
-- 
2.43.0


From 77affab2db2e4ebca8b5f3ddb83a9cb4cc190867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:00 +0000
Subject: [PATCH 19/50] fix: stop reading from a connection while its receive
 buffer is full

Receiving with no room left returned 0 and was taken for the end of the
connection, so a client with enough unfinished requests lost them all.
Input is now left to the kernel until a request completes.
---
 src/connection.c |  1 +
 src/connection.h |  2 ++
 src/dw_node.c    | 51 ++++++++++++++++++++++++++----------------------
 3 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 850576c..a8e9a2a 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -223,6 +223,7 @@ int conn_alloc(int conn_sock, struct sockaddr_in target, proto_t proto) {
     conns[conn_id].curr_recv_buf = conns[conn_id].recv_buf;
     conns[conn_id].curr_proc_buf = conns[conn_id].recv_buf;
     conns[conn_id].curr_recv_size = BUF_SIZE;
+    conns[conn_id].recv_paused = 0;
     conns[conn_id].curr_send_buf = conns[conn_id].send_buf;
     conns[conn_id].curr_send_size = 0;
     conns[conn_id].serialize_request = 0;
diff --git a/src/connection.h b/src/connection.h
index a296c2d..44c3891 100644
--- a/src/connection.h
+++ b/src/connection.h
@@ -37,6 +37,8 @@ typedef struct {
     unsigned char *curr_send_buf; // curr ptr in send buffer while SENDING
     unsigned long curr_send_size; // size of leftover data to send
 
+    int recv_paused;              // not polled for input, as the receive buffer is full
+
     req_info_t *req_list;
     unsigned int serialize_request;
     pthread_t parent_thread;
diff --git a/src/dw_node.c b/src/dw_node.c
index 03dd177..6e618cd 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -266,17 +266,26 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
 void setnonblocking(int fd);
 void close_and_forget(int epollfd, int sock);
 
-// if some data could not be sent, have the rest sent as soon as conn gets writable
-void watch_pending_send(int epollfd, conn_info_t *conn) {
-    if (conn->curr_send_size > 0 && conn_get_status(conn) == READY) {
-        struct epoll_event ev;
-        ev.data.u64 = i2l(SOCKET, conn_get_id_by_ptr(conn));
-        ev.events = EPOLLIN | EPOLLOUT;
-        dw_log("adding EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
-               conn->sock, conn_get_id_by_ptr(conn), conn->curr_send_size);
-        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev));
-        conn_set_status(conn, SENDING);
-    }
+// poll conn for input as long as there is room for it, and for output as long as
+// there is data that could not be sent
+void watch_conn(int epollfd, conn_info_t *conn) {
+    conn_status_t status = conn_get_status(conn);
+    if (status != READY && status != SENDING)
+        return;
+
+    conn_status_t new_status = conn->curr_send_size > 0 ? SENDING : READY;
+    int recv_paused = conn->curr_recv_size == 0;
+    if (new_status == status && recv_paused == conn->recv_paused)
+        return;
+
+    struct epoll_event ev;
+    ev.data.u64 = i2l(SOCKET, conn_get_id_by_ptr(conn));
+    ev.events = (recv_paused ? 0 : EPOLLIN) | (new_status == SENDING ? EPOLLOUT : 0);
+    dw_log("polling sock=%d, conn_id=%d for events %x, curr_send_size=%lu\n",
+           conn->sock, conn_get_id_by_ptr(conn), ev.events, conn->curr_send_size);
+    sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev));
+    conn_set_status(conn, new_status);
+    conn->recv_paused = recv_paused;
 }
 
 // cmd_id is the index of the FORWARD item within m->cmds[] here, we
@@ -373,7 +382,7 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
 
     // a message that cannot be sent is lost, recovering is up to the timeout
     if (conn_start_send(&conns[fwd_conn_id], addr) >= 0)
-        watch_pending_send(epollfd, &conns[fwd_conn_id]);
+        watch_conn(epollfd, &conns[fwd_conn_id]);
 
     return 1;
 }
@@ -469,7 +478,7 @@ int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* inf
     infos->active_reqs--;
     if (conn_start_send(conn, req->target) < 0)
         return 0;
-    watch_pending_send(infos->epollfd, conn);
+    watch_conn(infos->epollfd, conn);
     return 1;
 }
 
@@ -749,6 +758,7 @@ void handle_timeout(int epollfd, conn_worker_info_t *infos) {
         m->status = -1;
         conn_req_remove(conn, req);
         infos->active_reqs--;
+        watch_conn(epollfd, conn);
     }
 }
 
@@ -796,16 +806,11 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     if (!obtain_messages(conn_id, epollfd, infos))
         goto err;
 
-    watch_pending_send(epollfd, conn);
-    if (conn->curr_send_size == 0 && conn_get_status(conn) == SENDING) {
-        struct epoll_event ev2;
-        ev2.data.u64 = i2l(SOCKET, conn_id);
-        ev2.events = EPOLLIN;
-        dw_log("removing EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
-               conn->sock, conn_id, conn->curr_send_size);
-        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
-        conn_set_status(conn, READY);
-    }
+    // the message being received is larger than the buffer
+    if (conn->curr_recv_size == 0 && conn->req_list == NULL)
+        goto err;
+
+    watch_conn(epollfd, conn);
 
     return;
 
-- 
2.43.0


From 2310e631d7dfe801f995f5165c767b2b240f3447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:20 +0000
Subject: [PATCH 20/50] fix: keep a multi-forward that comes first in what is
 forwarded

A FORWARD whose commands start with the targets of a nested multi-forward
was forwarded without those targets, as if they were its own.  Only the
other targets of a multi-forward must be left out.
---
 src/dw_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 6e618cd..c419f75 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -363,7 +363,7 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     }
 
     command_t *c = cmd_next(cmd);
-    while (c->cmd != EOM && c->cmd == MULTI_FORWARD) {
+    while (cmd->cmd == MULTI_FORWARD && c->cmd == MULTI_FORWARD) {
         c = cmd_next(c);
     }
 
-- 
2.43.0


From 1b858ef62207f83dfbcac075fe4ceaef2abb5cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:03 +0000
Subject: [PATCH 21/50] fix: give up only the rest of a failed client session

When the connection broke while the last reply of a session was being
waited for, the whole next session was skipped as well.
---
 src/dw_client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 081e786..f77581b 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -307,7 +307,7 @@ void *thread_receiver(void *data) {
         if (m == NULL) {
             printf("Error: cannot read received message\n");
             unsigned long skip_pkts =
-                pkts_per_session - ((i + 1) % pkts_per_session);
+                pkts_per_session - 1 - i % pkts_per_session;
             printf("Fast-forwarding i by %lu pkts\n", skip_pkts);
             i += skip_pkts;
             goto skip;
-- 
2.43.0


From af62b0e935d4ad87dafce5e15aee1c629bf8c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:04 +0000
Subject: [PATCH 22/50] fix: stop the sender before closing the connection it
 uses

A session that ended early freed its connection while the sender thread
was still running. The sender could then write to freed memory, or into
the connection of another thread that got the same descriptor.
---
 src/dw_client.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index f77581b..9f6121b 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -339,6 +339,10 @@ void *thread_receiver(void *data) {
             dw_log(
                 "Session is over (after receive of pkt %d), closing socket\n",
                 i);
+            // the sender may still be using the connection
+            shutdown(clientSocket[thread_id], SHUT_RDWR);
+            dw_log("Joining sender thread\n");
+            pthread_join(sender[thread_id], NULL);
             close(clientSocket[thread_id]);
             conn_free(thr_data.conn_id);
             if (use_per_session_output) {
@@ -361,8 +365,6 @@ void *thread_receiver(void *data) {
                 memset(&usecs_send[thread_id][0], 0, sizeof(usecs_send[thread_id][0]) * MAX_PKTS);
                 memset(&usecs_elapsed[thread_id][0], 0, sizeof(usecs_send[thread_id][0]) * MAX_PKTS);
             }
-            dw_log("Joining sender thread\n");
-            pthread_join(sender[thread_id], NULL);
         }
     }
 
-- 
2.43.0


From 5ee46e5050f6babe9cf24c1de36bb4c72da45b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:05 +0000
Subject: [PATCH 23/50] fix: reuse the client's receive buffer

Replies were never removed from the buffer, so that a session failed
once it had received 16 MB.
---
 src/connection.c | 10 ++++++++++
 src/connection.h |  2 ++
 src/dw_client.c  |  4 +++-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/connection.c b/src/connection.c
index a8e9a2a..8653dc3 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -294,6 +294,16 @@ void conn_remove_message(conn_info_t *conn, message_t *m) {
     conn->curr_recv_size += size;
 }
 
+void conn_drop_messages(conn_info_t *conn) {
+    unsigned long size = conn->curr_proc_buf - conn->recv_buf;
+    if (size == 0)
+        return;
+    memmove(conn->recv_buf, conn->curr_proc_buf, conn->curr_recv_buf - conn->curr_proc_buf);
+    conn->curr_recv_buf -= size;
+    conn->curr_proc_buf -= size;
+    conn->curr_recv_size += size;
+}
+
 // start sending a message, assume the head of the curr_send_buffer is a message_t type
 // returns the number of bytes sent, -1 if an error occured
 int conn_start_send(conn_info_t *conn, struct sockaddr_in target) {
diff --git a/src/connection.h b/src/connection.h
index 44c3891..6d1126d 100644
--- a/src/connection.h
+++ b/src/connection.h
@@ -73,6 +73,8 @@ message_t* conn_send_message(conn_info_t *conn);
 message_t* conn_next_message(conn_info_t *conn);
 /* drop m, the last message retrieved, from conn's recv buffer */
 void conn_remove_message(conn_info_t *conn, message_t *m);
+/* drop all the messages retrieved so far from conn's recv buffer */
+void conn_drop_messages(conn_info_t *conn);
 
 int conn_find_existing(struct sockaddr_in target, proto_t proto);
 int conn_find_sock(int sock);
diff --git a/src/dw_client.c b/src/dw_client.c
index 9f6121b..e6264b9 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -299,8 +299,10 @@ void *thread_receiver(void *data) {
         conn_info_t *conn = conn_get_by_id(thr_data.conn_id);
 
         do {
-            if (m == NULL)
+            if (m == NULL) {
+                conn_drop_messages(conn);
                 recv = conn_recv(conn);
+            }
             m = conn_next_message(conn);
         } while (recv > 0 && m == NULL);
 
-- 
2.43.0


From 45636cf7d91e4fcd1ee39beb8d9b4a83b908c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:05 +0000
Subject: [PATCH 24/50] fix: print zero times for requests never sent

The times of requests that were skipped after a failure came from
uninitialised memory.
---
 src/dw_client.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index e6264b9..b31f57a 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -846,8 +846,8 @@ int main(int argc, char *argv[]) {
     for (int i = 0; i < MAX_THREADS; i++) {
         clientSocket[i] = -1;
         if (i < input_args.num_threads) {
-            check(usecs_send[i] = malloc(sizeof(usecs_send[0][0]) * MAX_PKTS));
-            check(usecs_elapsed[i] = malloc(sizeof(usecs_send[0][0]) * MAX_PKTS));
+            check(usecs_send[i] = calloc(MAX_PKTS, sizeof(usecs_send[0][0])));
+            check(usecs_elapsed[i] = calloc(MAX_PKTS, sizeof(usecs_send[0][0])));
         } else {
             usecs_send[i] = NULL;
             usecs_elapsed[i] = NULL;
-- 
2.43.0


From e8028838d4bc8c464e4fccbed6ad650641e481ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:05 +0000
Subject: [PATCH 25/50] fix: keep the reply sizes of forwards while parsing
 options

They were kept as pointers to a local variable of a function that had
returned, shared by all the forwards.
---
 src/dw_client.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index b31f57a..45565f4 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -622,7 +622,9 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
         }
         
         // Reserve a forward reply command
-        data_t data = { .ptr=&val }; 
+        data_t data = { .ptr=malloc(sizeof(val)) };
+        check(data.ptr != NULL);
+        *(pd_spec_t *)data.ptr = val;
         queue_enqueue(deferred_replies, i, data);
 
         break; }
@@ -664,9 +666,10 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
 
         // Use a reserved reply
         if (nested_fwd_parsing > 0) {
-            ccmd_add(ccmd, REPLY, queue_node_data(queue_tail(deferred_replies)).ptr);
+            ccmd_add(ccmd, REPLY, deferred_val);
             ccmd_last(ccmd)->resp.n_ack = queue_node_key(queue_tail(deferred_replies));
 
+            free(deferred_val);
             queue_dequeue_tail(deferred_replies);
             nested_fwd_parsing = 0;
         }
@@ -741,9 +744,12 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
 
         // Exhaust remaining deferred replies
         while(queue_size(deferred_replies) > 0) {
-            ccmd_add(ccmd, REPLY, queue_node_data(queue_tail(deferred_replies)).ptr);
+            pd_spec_t *deferred_val = queue_node_data(queue_tail(deferred_replies)).ptr;
+            ccmd_add(ccmd, REPLY, deferred_val);
             ccmd_last(ccmd)->resp.n_ack = queue_node_key(queue_tail(deferred_replies));
 
+            if (deferred_val != &arguments->last_resp_size)
+                free(deferred_val);
             queue_dequeue_tail(deferred_replies);
         } 
 
-- 
2.43.0


From 8d9ffe7d19f1b2be79e4a587960bcf51c44e69d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:05 +0000
Subject: [PATCH 26/50] fix: accept distributions with several fields as store
 size

Each field after the first one added another STORE to the request, and
was itself ignored.
---
 src/dw_client.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 45565f4..e3d0d96 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -524,22 +524,27 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
     case STORE_DATA: {        
         uint8_t sync = 1;
         char* reserve;
+        char *size = NULL;
         char *tok = strtok_r(arg, ",", &reserve);
         while (tok != NULL) {
             if (strncmp(tok, "nosync", 6) == 0) {
                 sync = 0;
             } else if (strncmp(tok, "sync", 4) == 0) {
                 sync = 1;
+            } else if (size == NULL) {
+                size = tok;
             } else {
-                pd_spec_t val;
-                check(pd_parse_bytes(&val, arg), "Wrong store data size specification");
-                ccmd_add(ccmd, STORE, &val);
-                ccmd_last(ccmd)->pd_val2 = store_offset_pd;
+                // further field of a distribution
+                tok[-1] = ',';
             }
 
             tok = strtok_r(NULL, ",", &reserve);
         }
 
+        pd_spec_t val;
+        check(size != NULL && pd_parse_bytes(&val, size), "Wrong store data size specification");
+        ccmd_add(ccmd, STORE, &val);
+        ccmd_last(ccmd)->pd_val2 = store_offset_pd;
         ccmd_last(ccmd)->store.wait_sync = sync;
 
         break; }
-- 
2.43.0


From 3901ad16c01498079406cd7847b7871c81c877b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:06 +0000
Subject: [PATCH 27/50] fix: accept distributions as reply size, and nack=
 without a size

The fields of a distribution were parsed one by one as separate sizes,
its minimum and maximum were replaced, and the values of a file were
lost. Giving only nack= set the size from an uninitialised variable.
---
 src/dw_client.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index e3d0d96..5dc6903 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -644,25 +644,30 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
         int nack = 1;
 
         char *tok;
+        char *size = NULL;
         while ((tok = strsep(&arg, ",")) != NULL) {
             if (sscanf(tok, "nack=%d", &nack) == 1) {
                 continue;
+            } else if (size == NULL) {
+                size = tok;
             } else {
-                check(pd_parse_bytes(&val, tok), "Wrong response size specification");
-                val.min = MIN_REPLY_SIZE;
-                val.max = BUF_SIZE;
-                check(val.prob != FIXED || (val.val >= val.min && val.val <= val.max), "Wrong min-max range for response size");
+                // further field of a distribution
+                tok[-1] = ',';
             }
         }
 
         // Update deferred reply
         int deferred_nack = queue_node_key(queue_tail(deferred_replies));
         pd_spec_t* deferred_val = queue_node_data(queue_tail(deferred_replies)).ptr;
-        deferred_val->val = val.val;
-        deferred_val->min = val.min;
-        deferred_val->max = val.max;
-        deferred_val->std = val.std;
-        deferred_val->prob = val.prob;
+        if (size != NULL) {
+            check(pd_parse_bytes(&val, size), "Wrong response size specification");
+            if (isnan(val.min) || val.min < MIN_REPLY_SIZE)
+                val.min = MIN_REPLY_SIZE;
+            if (isnan(val.max) || val.max > BUF_SIZE)
+                val.max = BUF_SIZE;
+            check(val.min <= val.max && (val.prob != FIXED || (val.val >= val.min && val.val <= val.max)), "Wrong min-max range for response size");
+            *deferred_val = val;
+        }
 
         if (nack == 0) // TODO: allow n_ack 0 when reply messages will be optional 
             nack = 1;
-- 
2.43.0


From 3ea73f66043513ea76c67f5bab245861ecd2559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:06 +0000
Subject: [PATCH 28/50] fix: let every reply option close a nested forward

Only the first of several --reply options closed its forward, a further
one changed the reply of the enclosing forward without closing it.
---
 src/dw_client.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 5dc6903..6296137 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -614,7 +614,6 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
                 ccmd_last(ccmd)->fwd.on_fail_skip = 1;
                 ccmd_last(ccmd)->fwd.proto = fwd_proto;
 
-                nested_fwd_parsing++;
                 i++;
             }
         }
@@ -631,6 +630,7 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
         check(data.ptr != NULL);
         *(pd_spec_t *)data.ptr = val;
         queue_enqueue(deferred_replies, i, data);
+        nested_fwd_parsing++;
 
         break; }
     case SEND_REQUEST_SIZE:
@@ -681,7 +681,7 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
 
             free(deferred_val);
             queue_dequeue_tail(deferred_replies);
-            nested_fwd_parsing = 0;
+            nested_fwd_parsing--;
         }
         break; }
     case NUM_THREADS:
-- 
2.43.0


From d590db2693e4d87242a25108f9363647dacd2a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:06 +0000
Subject: [PATCH 29/50] fix: honour all the options of a script

Names and values were cut at dashes, so that options such as
--send-pkt-size never took effect, a name was taken for any shorter
option it begins with, and an option without argument in the last place
was dropped.
---
 src/dw_client.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 6296137..cbf7237 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -786,7 +786,10 @@ int script_parse(char *fname, struct argp_state *state) {
         if (s == NULL)
             break;
         char *tok;
-        while ((tok = strsep(&s, " -\n")) != NULL) {
+        while ((tok = strsep(&s, " \t\n")) != NULL) {
+            // dashes may be part of a name or value, but for the leading ones of options
+            if (tok[0] == '-' && (tok[1] < '0' || tok[1] > '9'))
+                tok += strspn(tok, "-");
             if (strlen(tok) > 0) {
                 // comment, ignore till end of line
                 if (tok[0] == '#')
@@ -801,16 +804,20 @@ int script_parse(char *fname, struct argp_state *state) {
         }
     }
     
-    for (int i=0; i<argc-1; i++) {
+    for (int i=0; i<argc; i++) {
+        // Option and value may come as option=value
+        char *val = argv[i];
+        char *name = strsep(&val, "=");
         // Find the option for the current input argument 
         int j = 0;
         while (argp_client_options[j].name != 0) {
-            if (strncmp(argv[i], argp_client_options[j].name, strlen(argp_client_options[j].name)) == 0 || // (long) name compare 
-                 (argv[i][1] == '\0' && argv[i][0] == argp_client_options[j].key)) { // short name/key compare
-                argp_client_parse_opt(argp_client_options[j].key, argv[i+1], state);
-
-                if (argp_client_options[j].arg)
-                    i++;
+            if (strcmp(name, argp_client_options[j].name) == 0 || // (long) name compare 
+                 (name[1] == '\0' && name[0] == argp_client_options[j].key)) { // short name/key compare
+                if (argp_client_options[j].arg && val == NULL) {
+                    check(i + 1 < argc, "Missing argument to option %s in script %s\n", name, fname);
+                    val = argv[++i];
+                }
+                argp_client_parse_opt(argp_client_options[j].key, val, state);
                 break;
             }
             j++;
-- 
2.43.0


From 0abdd8ace3ec31c24adc049cbadab840f730946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:06 +0000
Subject: [PATCH 30/50] fix: wrap around when removing the tail of a queue

The tail of a queue became -1 after removing the entry at index 0.
---
 src/queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queue.c b/src/queue.c
index a29bb5f..7bfa903 100644
--- a/src/queue.c
+++ b/src/queue.c
@@ -44,7 +44,7 @@ void queue_dequeue_tail(queue_t *queue) {
 		return;
 
 	queue->size--;
-	queue->tail = (queue->tail - 1) % queue->capacity;
+	queue->tail = (queue->tail - 1 + queue->capacity) % queue->capacity;
 }
 
 void queue_drop(queue_t* queue) {
-- 
2.43.0


From 1d313931359a774610cc4bb7bf4aff55ed4519a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:07 +0000
Subject: [PATCH 31/50] fix: apply the step of a core range to that range only

It was applied to all the ranges that followed in the list.
---
 src/thread_affinity.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/thread_affinity.c b/src/thread_affinity.c
index 1e85e2a..7053a4b 100644
--- a/src/thread_affinity.c
+++ b/src/thread_affinity.c
@@ -18,9 +18,10 @@ void aff_list_parse(char *str, cpu_set_t* mask, int ncpu) {
     int val;
     int max;
 
-    int step = 1;
+    int step;
     CPU_ZERO(mask);
     while ((tok = strsep(&str, ",")) != NULL) {
+        step = 1;
         if (sscanf(tok, "%d-%d:%d", &min, &max, &step) >= 2) {
             if (min > max) {
                 int tmp = max;
-- 
2.43.0


From 9cf4ac162985dd3e854e7e4e6406565a445a167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:07 +0000
Subject: [PATCH 32/50] fix: do not accept reply sizes too small for a reply

A reply also contains the end marker of its (empty) list of commands. A
node receiving a shorter one looked for it in the next message.
---
 src/dw_client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index cbf7237..642a308 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -66,7 +66,7 @@ pthread_t receiver[MAX_THREADS];
 
 #define TCPIP_HEADERS_SIZE 66
 #define MIN_SEND_SIZE (sizeof(message_t) + 2 * sizeof(command_t))
-#define MIN_REPLY_SIZE sizeof(message_t)
+#define MIN_REPLY_SIZE (sizeof(message_t) + sizeof(command_t))
 
 #define MAX_PKTS 1000000
 #define MAX_RATES 1000000
-- 
2.43.0


From 96dcf7e92a5ead2a5f05eee74fe6608559d84f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:07 +0000
Subject: [PATCH 33/50] fix: send requests large enough for their commands

With a packet size smaller than what the commands take, the message was
cut and the node read the missing commands from whatever followed.
---
 src/dw_client.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 642a308..bf2953a 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -125,7 +125,10 @@ void *thread_sender(void *data) {
 
     for (int i = 0; i < num_send_pkts; i++) {
         m = conn_send_message(conn);
-        ccmd_dump(ccmd, m);
+        uint32_t avail = m->req_size - sizeof(message_t);
+        m->req_size = avail;
+        check(ccmd_dump(ccmd, m) == 1, "Too many commands");
+        uint32_t min_size = sizeof(message_t) + avail - m->req_size;
 
         /* remember time of send relative to ts_start */
         struct timespec ts_send;
@@ -138,6 +141,9 @@ void *thread_sender(void *data) {
         /*---- Issue a request to the server ---*/
         m->req_id = pkt_id;
         m->req_size = pd_sample(&send_pkt_size_pd);
+        // the commands have to be sent in any case
+        if (m->req_size < min_size)
+            m->req_size = min_size;
 
         dw_log("sending %u bytes...\n", m->req_size);
         assert(m->req_size <= BUF_SIZE);
-- 
2.43.0


From c8f19eb63bec2ab23964304605bd27a07febe500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:08 +0000
Subject: [PATCH 34/50] fix: forward messages large enough for their commands

With a packet size smaller than what the forwarded commands take (the
client always asks for 512 bytes), the message was cut and the next hop
read the missing commands from whatever followed.
---
 src/dw_node.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index c419f75..a7799a6 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -356,20 +356,29 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
 
     int sock = conns[fwd_conn_id].sock;
     assert(sock != -1);
-    message_t *m_dst = conn_send_message(&conns[fwd_conn_id]);
-    if (!m_dst || m_dst->req_size < fwd.pkt_size) {
-        dw_log("no room to forward, conn_id: %d\n", fwd_conn_id);
-        return 0;
-    }
 
     command_t *c = cmd_next(cmd);
     while (cmd->cmd == MULTI_FORWARD && c->cmd == MULTI_FORWARD) {
         c = cmd_next(c);
     }
 
+    // the commands have to be sent in any case
+    command_t *last = c;
+    while (last->cmd != EOM && last->cmd != REPLY)
+        last = message_skip_cmds(m, last, 1);
+    uint32_t size = sizeof(message_t) + ((unsigned char*)cmd_next(last) - (unsigned char*)c) + cmd_type_size(EOM);
+    if (size < fwd.pkt_size)
+        size = fwd.pkt_size;
+
+    message_t *m_dst = conn_send_message(&conns[fwd_conn_id]);
+    if (!m_dst || m_dst->req_size < size) {
+        dw_log("no room to forward, conn_id: %d\n", fwd_conn_id);
+        return 0;
+    }
+
     message_copy_tail(m, m_dst, c);
     m_dst->req_id = req->req_id;
-    m_dst->req_size = fwd.pkt_size;
+    m_dst->req_size = size;
 
     dw_log("Forwarding req %u to %s:%d\n", m_dst->req_id,
            inet_ntoa((struct in_addr) { fwd.fwd_host }),
-- 
2.43.0


From ca5ea0d8e9016709fd519118555c9ffe8c608046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:08 +0000
Subject: [PATCH 35/50] fix: never skip the reply a request or a forward needs

A skip longer than what follows it removed the reply as well, leaving a
request that is never answered or a forward that never ends.
---
 src/ccmd.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ccmd.c b/src/ccmd.c
index 82712f3..b6eb100 100644
--- a/src/ccmd.c
+++ b/src/ccmd.c
@@ -133,10 +133,11 @@ int ccmd_dump(ccmd_t* q, message_t* m) {
             case PSKIP:
                 drand48_r(&rnd_buf, &x);
                 dw_log("skip: x=%g, prob=%g\n", x, ccmd_itr->pd_val.val);
-                if (x <= ccmd_itr->pd_val.val)
-                    ccmd_itr = ccmd_skip(ccmd_itr->next, ccmd_itr->n_skip);
-                else
-                    ccmd_itr = ccmd_itr -> next;
+                int n_skip = x <= ccmd_itr->pd_val.val ? ccmd_itr->n_skip : 0;
+                ccmd_itr = ccmd_itr->next;
+                // never skip the reply to an enclosing forward, nor the final one
+                while (n_skip-- > 0 && ccmd_itr && ccmd_itr->cmd != REPLY)
+                    ccmd_itr = ccmd_skip(ccmd_itr, 1);
                 continue;
             case MULTI_FORWARD:
             case FORWARD:
-- 
2.43.0


From 69eab5598fd12a4d638777e3d5e4ece5c12c7454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:08 +0000
Subject: [PATCH 36/50] fix: understand byte suffixes in all the fields of a
 distribution

Only the last field could end with a "b". In the others the multiplier
before it was silently ignored, and a file name lost its final letter.
---
 src/distrib.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/distrib.c b/src/distrib.c
index 2a3311f..e1e86c0 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -124,6 +124,11 @@ int sscanf_unit(const char *str, const char *fmt, double *p_val, int is_time) {
     int rv = sscanf(str, fmt, p_val);
     if (rv != 1)
         return rv;
+    if (!is_time && (str[l - 1] == 'b' || str[l - 1] == 'B')) {
+        l--;
+        if (l == 0)
+            return rv;
+    }
     switch (str[l - 1]) {
     case 'k':
     case 'K':
@@ -267,9 +272,6 @@ int pd_parse_time(pd_spec_t *p, char *s) {
 }
 
 int pd_parse_bytes(pd_spec_t *p, char *s) {
-    int l = strlen(s);
-    if (l > 0 && (s[l-1] == 'b' || s[l-1] == 'B'))
-        s[l-1] = 0;
     return pd_parse(p, s);
 }
 
-- 
2.43.0


From 57e9663bb4dfe18eb83fbb4aeaaebe836d5034e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:08 +0000
Subject: [PATCH 37/50] fix: accept names of sample files that start with a
 number

---
 src/distrib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distrib.c b/src/distrib.c
index e1e86c0..cc2ff48 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -194,7 +194,7 @@ int pd_parse_internal(pd_spec_t *p, char *s, int is_time) {
             || (p->prob == SFILE && sscanf(tok, "col=%d", &col) == 1)
             || (p->prob == LOGNORM && sscanf(tok, "xavg=%lf", &xavg) == 1)
             || (p->prob == LOGNORM && sscanf(tok, "xstd=%lf", &xstd) == 1)
-            || sscanf_unit(tok, "%lf", &p->val, is_time) == 1
+            || (p->prob != SFILE && sscanf_unit(tok, "%lf", &p->val, is_time) == 1)
             )
                 continue;
         if (p->prob == SFILE) {
-- 
2.43.0


From d6263e393408038e049b6aea33c50757ddcf51ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:09 +0000
Subject: [PATCH 38/50] fix: make room for long distributions in the request
 template

Printing the template overflowed its buffers with some distributions,
and showed the same value as size and as offset of a store or load.
---
 src/ccmd.c    | 10 +++++-----
 src/distrib.c |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ccmd.c b/src/ccmd.c
index b6eb100..c0fd184 100644
--- a/src/ccmd.c
+++ b/src/ccmd.c
@@ -182,19 +182,19 @@ void ccmd_log(ccmd_t* q) {
     ccmd_node_t* curr = q->head;
 
     while (curr) {
-        char opts[64] = "";
+        char opts[1024] = "";
 
         switch (curr->cmd) {
             case STORE:
-                sprintf(opts, "%sb,%s,offset=%s", pd_str(&curr->pd_val),
-                        curr->store.wait_sync ? "sync" : "nosync", pd_str(&curr->pd_val2));
+                sprintf(opts, "%sb,%s", pd_str(&curr->pd_val), curr->store.wait_sync ? "sync" : "nosync");
+                sprintf(opts + strlen(opts), ",offset=%s", pd_str(&curr->pd_val2));
                 break;
             case COMPUTE:
                 sprintf(opts, "%sus", pd_str(&curr->pd_val));
                 break;
             case LOAD:
-                sprintf(opts, "%sb,offset=%s", pd_str(&curr->pd_val),
-                        pd_str(&curr->pd_val2));
+                sprintf(opts, "%sb", pd_str(&curr->pd_val));
+                sprintf(opts + strlen(opts), ",offset=%s", pd_str(&curr->pd_val2));
                 break;
             case PSKIP:
                 if (curr->pd_val.val < 1.0)
diff --git a/src/distrib.c b/src/distrib.c
index cc2ff48..f698390 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -337,7 +337,7 @@ double pd_sample(pd_spec_t *p) {
 
 // stringify spec into static array and return it
 char *pd_str(pd_spec_t *p) {
-    static char s[64];
+    static char s[256];
     double scale;
     int k;
     switch (p->prob) {
-- 
2.43.0


From 679b1581276340791e59d02b471cedf8e94ea328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:09 +0000
Subject: [PATCH 39/50] fix: accept uniform distributions as packet size

They have no average, so that the check of its range always failed.
---
 src/dw_client.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index bf2953a..907740d 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -642,8 +642,8 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
     case SEND_REQUEST_SIZE:
         check(pd_parse_bytes(&send_pkt_size_pd, arg), "Wrong send request size specification");
         
-        check(send_pkt_size_pd.val >= MIN_SEND_SIZE, "Too small send request size, minimum is %lu", MIN_SEND_SIZE);
-        check(send_pkt_size_pd.val + TCPIP_HEADERS_SIZE <= BUF_SIZE, "Too big send request size, maximum is %d", BUF_SIZE);
+        check(!(send_pkt_size_pd.val < MIN_SEND_SIZE), "Too small send request size, minimum is %lu", MIN_SEND_SIZE);
+        check(!(send_pkt_size_pd.val + TCPIP_HEADERS_SIZE > BUF_SIZE), "Too big send request size, maximum is %d", BUF_SIZE);
         break;
     case REPLY_CMD: {
         pd_spec_t val;
-- 
2.43.0


From 447f7e88b6c5a247cc1c3d03aefbbeca5eacf3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:24 +0000
Subject: [PATCH 40/50] fix: do not close the socket of a failed connection
 twice

connect_retry() has closed it already. Closing the same number again may
close a connection that another thread has just opened.
---
 src/dw_client.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 907740d..97f3b97 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -274,7 +274,6 @@ void *thread_receiver(void *data) {
                 clock_gettime(CLOCK_MONOTONIC, &ts2);
             // check if connection succeeded
             if (rv != 0) {
-                close(clientSocket[thread_id]);
                 fprintf(stderr, "Connection to %s:%d failed: %s\n", inet_ntoa((struct in_addr) {serveraddr.sin_addr.s_addr}), ntohs(serveraddr.sin_port), strerror(errno));
                 ccmd_destroy(&ccmd);
                 exit(EXIT_FAILURE);
-- 
2.43.0


From 4e4664de64c3871a964646faa88d98bf3b510883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:24 +0000
Subject: [PATCH 41/50] fix: keep the datagrams forwarded over UDP apart

When a forward over UDP found the send buffer full, its message stayed
queued and the next one was appended to it. Both then left as a single
datagram to the target of the last one. The socket now waits for room, as
the one that receives requests over UDP already does.
---
 src/dw_node.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index a7799a6..3c27edd 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -315,7 +315,9 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
             clientSocket = socket(AF_INET, SOCK_DGRAM, 0);
         }
 
-        setnonblocking(clientSocket);
+        // a datagram that had to wait would be merged with the next one
+        if (fwd.proto == TCP)
+            setnonblocking(clientSocket);
         fwd_conn_id = conn_alloc(clientSocket, addr, fwd.proto);
 
         if (fwd_conn_id == -1) {
-- 
2.43.0


From 2b79ba6cc98f59ee9ea8fd6415b340a2a92d01c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:59 +0000
Subject: [PATCH 42/50] fix: read script lines of any length

Lines of more than 1023 characters were split there, so that an option or
value crossing that point was cut in two.
---
 src/dw_client.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 97f3b97..d921d7c 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -785,11 +785,10 @@ int script_parse(char *fname, struct argp_state *state) {
     int argc = 0;
     char **argv = NULL;
 
-    while (!feof(f)) {
-        static char line[1024];
-        char *s = fgets(line, sizeof(line), f);
-        if (s == NULL)
-            break;
+    char *line = NULL;
+    size_t line_size = 0;
+    while (getline(&line, &line_size, f) != -1) {
+        char *s = line;
         char *tok;
         while ((tok = strsep(&s, " \t\n")) != NULL) {
             // dashes may be part of a name or value, but for the leading ones of options
@@ -808,6 +807,7 @@ int script_parse(char *fname, struct argp_state *state) {
             }
         }
     }
+    free(line);
     
     for (int i=0; i<argc; i++) {
         // Option and value may come as option=value
-- 
2.43.0


From 5d66e61c33835e3413c1df4cd88ef4b89d9eed6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:10 +0000
Subject: [PATCH 43/50] fix: let each client thread follow the rate steps by
 itself

---
 src/dw_client.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index d921d7c..e6ed008 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -94,6 +94,9 @@ typedef struct {
     int conn_id;
     int first_pkt_id;
     int num_send_pkts;
+    pd_spec_t *period_us_pd;    // of this thread, across all of its sessions
+    pd_spec_t *rate_pd;
+    long *rate_step;
 } thread_data_t;
 
 int idx(int pkt_id) {
@@ -111,6 +114,9 @@ void *thread_sender(void *data) {
     int thread_id = p->thread_id;
     int first_pkt_id = p->first_pkt_id;
     int num_send_pkts = p->num_send_pkts;
+    pd_spec_t *period_us_pd = p->period_us_pd;
+    pd_spec_t *rate_pd = p->rate_pd;
+    long *rate_step = p->rate_step;
     struct timespec ts_now;
 
     clock_gettime(clk_id, &ts_now);
@@ -166,23 +172,22 @@ void *thread_sender(void *data) {
             break;
         }
 
-        if (ramp_step_secs != 0 && pkt_id > 0) {
-            int step_prev =
-                usecs_send[thread_id][idx(pkt_id - 1)] / 1000000 / ramp_step_secs;
-            int step =
+        if (ramp_step_secs != 0) {
+            long step =
                 usecs_send[thread_id][idx(pkt_id)] / 1000000 / ramp_step_secs;
             int rate;
-            while (step_prev++ < step) {
-                int old_rate = 1000000.0 / send_period_us_pd.val;
-                rate = pd_sample(&send_rate_pd);
-                send_period_us_pd.val = 1000000.0 / rate;
+            while (*rate_step < step) {
+                int old_rate = 1000000.0 / period_us_pd->val;
+                rate = pd_sample(rate_pd);
+                period_us_pd->val = 1000000.0 / rate;
                 if (rate != old_rate) {
                     dw_log("pkt_id: %d, old_rate: %d, rate: %d\n", pkt_id, old_rate, rate);
                 }
+                (*rate_step)++;
             }
         }
 
-        unsigned long period_ns = pd_sample(&send_period_us_pd) * 1000.0;
+        unsigned long period_ns = pd_sample(period_us_pd) * 1000.0;
         dw_log("period_ns=%lu\n", period_ns);
         struct timespec ts_delta =
             (struct timespec) { period_ns / 1000000000, period_ns % 1000000000 };
@@ -258,6 +263,10 @@ void *thread_receiver(void *data) {
     message_t *m = NULL;
     int recv = 0;
 
+    pd_spec_t period_us_pd = send_period_us_pd;
+    pd_spec_t rate_pd = send_rate_pd;
+    long rate_step = 0;
+
     if (staggered_send) {
         struct timespec ts_sync = ts_add(ts_start, (struct timespec) { .tv_sec = 0, .tv_nsec = 200000000l + thread_id * send_period_us_pd.val * 1000 / input_args.num_threads });
         clock_nanosleep(clk_id, TIMER_ABSTIME, &ts_sync, NULL);
@@ -295,6 +304,9 @@ void *thread_receiver(void *data) {
             thr_data.conn_id = conn_id;
             thr_data.first_pkt_id = i,
             thr_data.num_send_pkts = pkts_per_session;
+            thr_data.period_us_pd = &period_us_pd;
+            thr_data.rate_pd = &rate_pd;
+            thr_data.rate_step = &rate_step;
             sys_check(pthread_create(&sender[thread_id], NULL, thread_sender,
                                   (void *)&thr_data));
         }
-- 
2.43.0


From d8565b38c4a3905a631b788f26c6327b723c5023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:27 +0000
Subject: [PATCH 44/50] fix: count the requests of falling and geometric rate
 sequences

---
 src/distrib.c   | 11 +++++++----
 src/dw_client.c |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/distrib.c b/src/distrib.c
index f698390..9f58627 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -385,11 +385,11 @@ int pd_len(pd_spec_t *p) {
     int rv;
     switch (p->prob) {
     case ARITH_SEQ:
-        rv = (p->max + p->std - p->min) / p->std;
+        rv = (p->max - p->min) / fabs(p->std) + 1e-9 + 1;
         break;
     case GEO_SEQ:
-        check(log(p->std) > 0);
-        rv = (log(p->max / p->min) / log(p->std)) + 1;
+        check(p->std > 0 && p->std != 1);
+        rv = log(p->max / p->min) / fabs(log(p->std)) + 1e-9 + 1;
         break;
     case SFILE:
         rv = p->num_samples;
@@ -407,7 +407,10 @@ double pd_avg(pd_spec_t *p) {
         rv = (p->min + p->max) / 2;
         break;
     case GEO_SEQ:
-        rv = sqrt(p->min * p->max);
+        rv = 0.0;
+        for (int i = 0; i < pd_len(p); i++)
+            rv += (p->std >= 1 ? p->min : p->max) * pow(p->std, i);
+        rv /= pd_len(p);
         break;
     case SFILE:
         rv = 0.0;
diff --git a/src/dw_client.c b/src/dw_client.c
index e6ed008..6a39fca 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -752,7 +752,7 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
                 argp_failure(state, 1, 0, "Wrong rate specification with --num-pkts=auto");
             }
             double avg_rate = pd_avg(&send_rate_pd);
-            num_pkts = avg_rate * num_rates * ramp_step_secs;
+            num_pkts = lround(avg_rate * num_rates * ramp_step_secs);
         }
 
         num_pkts = (num_pkts + arguments->num_sessions - 1) / arguments->num_sessions * arguments->num_sessions;
-- 
2.43.0


From be05616ddad06b883e98200e7b0a04bfc6c07e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:27 +0000
Subject: [PATCH 45/50] fix: accept host names beginning like a protocol

---
 src/address_utils.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/address_utils.c b/src/address_utils.c
index 59705d1..f5835e3 100644
--- a/src/address_utils.c
+++ b/src/address_utils.c
@@ -72,11 +72,14 @@ void addr_proto_parse(char* arg, char *nodehostport, proto_t *proto) {
     if (!tok) {
         int parse_proto_check = 0;
 
-        if (strncmp(arg, "udp", 3) == 0) {
+        // otherwise it is the beginning of a host name
+        int has_proto = strcspn(arg, ":") == 3;
+
+        if (has_proto && strncmp(arg, "udp", 3) == 0) {
             *proto = UDP;
             parse_proto_check = 1;
         }
-        if (strncmp(arg, "tcp", 3) == 0) {
+        if (has_proto && strncmp(arg, "tcp", 3) == 0) {
             *proto = TCP;
             parse_proto_check = 1;
         }
-- 
2.43.0


From 02996b5990f1af9a2b58c21a859228161480ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:27 +0000
Subject: [PATCH 46/50] fix: forward to the default address when only the
 protocol is given

---
 src/dw_client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 6a39fca..94f140a 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -606,7 +606,7 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
                 || sscanf(tok, "timeout=%d", &timeout_us) == 1)
                     continue;
             else {
-                char fwdhostport[MAX_HOSTPORT_STRLEN];
+                char fwdhostport[MAX_HOSTPORT_STRLEN] = DEFAULT_ADDR ":" DEFAULT_PORT;
                 proto_t fwd_proto = TCP;
 
                 addr_proto_parse(tok, fwdhostport, &fwd_proto);
-- 
2.43.0


From 31692b6482196ec207bfe43543dc98368da3ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:10 +0000
Subject: [PATCH 47/50] fix: skip a forward to several targets that starts with
 another one

The targets of both were taken for those of one forward, so that the skip
ended at the reply of the inner one.
---
 src/ccmd.c      | 2 +-
 src/ccmd.h      | 1 +
 src/dw_client.c | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ccmd.c b/src/ccmd.c
index c0fd184..5f7d0f9 100644
--- a/src/ccmd.c
+++ b/src/ccmd.c
@@ -54,7 +54,7 @@ ccmd_node_t* ccmd_skip(ccmd_node_t* node, int to_skip) {
                 nested_fwd++;
             else if (itr->cmd == MULTI_FORWARD) {
                 nested_fwd++;
-                while (itr->next->cmd == MULTI_FORWARD)
+                while (itr->more_targets)
                     itr = itr->next;
             } else if (itr->cmd == REPLY)
                 nested_fwd--;
diff --git a/src/ccmd.h b/src/ccmd.h
index 048a86e..4d6f770 100644
--- a/src/ccmd.h
+++ b/src/ccmd.h
@@ -23,6 +23,7 @@ typedef struct ccmd_node_t {
     fwd_opts_t fwd;
     reply_opts_t resp;
     int n_skip;
+    int more_targets;   // of the same MULTI_FORWARD come after this one
     struct ccmd_node_t* next;
 } ccmd_node_t;
 
diff --git a/src/dw_client.c b/src/dw_client.c
index 94f140a..313c614 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -617,6 +617,7 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
                         ccmd_last(ccmd)->cmd = MULTI_FORWARD;
                     }
 
+                    ccmd_last(ccmd)->more_targets = 1;
                     fwd_type = MULTI_FORWARD;
                 }
 
-- 
2.43.0


From 2f18de1e3941d9470f4e6b559a93a43f940868d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:10 +0000
Subject: [PATCH 48/50] fix: apply --no-delay to accepted connections as well

They always had TCP_NODELAY set, only those opened for forwards followed
the option.
---
 src/dw_node.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 3c27edd..48b9139 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1068,9 +1068,8 @@ void* conn_worker(void* args) {
                 dw_log("Accepted connection from: %s:%d\n",
                        inet_ntoa(addr.sin_addr), ntohs(addr.sin_port));
                 setnonblocking(conn_sock);
-                int val = 1;
                 sys_check(setsockopt(conn_sock, IPPROTO_TCP, TCP_NODELAY,
-                                     (void *)&val, sizeof(val)));
+                                     (void *)&no_delay, sizeof(no_delay)));
 
                 int conn_id = conn_alloc(conn_sock, addr, TCP);
                 if (conn_id < 0) {
-- 
2.43.0


From 19a68540053b061b66325f25a1ac3b9b2bd55ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:30 +0000
Subject: [PATCH 49/50] fix: keep the node running when its wait for events is
 interrupted

Stopping and continuing a node interrupts epoll_wait(). That was meant to
be harmless, but errno was looked at only after perror(), which may change
it, and the node exited.
---
 src/dw_node.c | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 48b9139..387e0fb 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -904,13 +904,9 @@ void* storage_worker(void* args) {
     while (running) {
         dw_log("epoll_wait()ing...\n");
         int nfds = epoll_wait(epollfd, events, MAX_EVENTS, -1);
-        if (nfds == -1) {
-            perror("epoll_wait");
-
-            if (errno != EINTR) {
-                perror("epoll_wait() failed (storage_worker): ");
-                exit(EXIT_FAILURE);
-            }
+        if (nfds == -1 && errno != EINTR) {
+            perror("epoll_wait() failed (storage_worker): ");
+            exit(EXIT_FAILURE);
         }
 
         int fd;
@@ -1039,13 +1035,9 @@ void* conn_worker(void* args) {
     while (running) {
         dw_log("epoll_wait()ing...\n");
         int nfds = epoll_wait(infos->epollfd, events, MAX_EVENTS, -1);
-        if (nfds == -1) {
-            perror("epoll_wait");
-
-            if (errno != EINTR) {
-                perror("epoll_wait() failed (conn_worker): ");
-                exit(EXIT_FAILURE);
-            }
+        if (nfds == -1 && errno != EINTR) {
+            perror("epoll_wait() failed (conn_worker): ");
+            exit(EXIT_FAILURE);
         }
 
         int fd;
-- 
2.43.0


From 4859742dbc53dc98633e7914976b0b593a68541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:27:33 +0000
Subject: [PATCH 50/50] fix: do not wait forever for room in the storage
 worker's pipe

A client that pipelines many stores or loads fills the pipe to the storage
worker while the storage worker fills the one back with acknowledgments.
Each then waited for the other and the node stopped serving.
A worker now reads the acknowledgments while it waits, and handles them
after the current event.
It also stops waiting when the node is asked to terminate, as the storage
worker may have finished already.
---
 src/dw_node.c | 51 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 387e0fb..483d782 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -6,6 +6,7 @@
 #include <netinet/in.h>
 #include <netinet/tcp.h>
 #include <netdb.h>
+#include <poll.h>
 #include <pthread.h>
 #include <signal.h>
 #include <stdio.h>
@@ -87,6 +88,8 @@ typedef struct {
     // communication with storage
     int storefd; // write
     int store_replyfd; // read
+    int *store_acks; // ring of acknowledgments put aside while waiting for room in storefd
+    unsigned int store_acks_head, store_acks_num;
 
     int worker_id;
     int core_id; // core pinning
@@ -602,6 +605,40 @@ void close_and_forget(int epollfd, int sock) {
     close(sock);
 }
 
+// hand a command over to the storage worker; when there is no room for it, the storage worker may be
+// waiting in turn for its acknowledgments to be read, so these are put aside meanwhile
+//
+// returns 0 if successful, or -1 if a problem occurred
+int storage_submit(conn_worker_info_t *infos, storage_req_t *w) {
+    struct pollfd pfds[] = {
+        {.fd = infos->storefd, .events = POLLOUT},
+        {.fd = infos->store_replyfd, .events = POLLIN},
+        {.fd = terminationfd, .events = POLLIN},
+    };
+
+    while (infos->storefd != -1) {
+        if (poll(pfds, 3, -1) < 0) {
+            if (errno == EINTR)
+                continue;
+            return -1;
+        }
+        if (pfds[0].revents & POLLOUT)
+            break;
+        if (pfds[2].revents & POLLIN) {
+            errno = ECANCELED;
+            return -1;
+        }
+
+        int req_id_ACK;
+        if (safe_read(infos->store_replyfd, (unsigned char*) &req_id_ACK, sizeof(req_id_ACK)) < 0)
+            return -1;
+        if (req_get_by_id(req_id_ACK)) // may be gone along with its connection
+            infos->store_acks[(infos->store_acks_head + infos->store_acks_num++) % MAX_REQS] = req_id_ACK;
+    }
+
+    return write(infos->storefd, w, sizeof(*w)) < 0 ? -1 : 0;
+}
+
 // returns 1 if the message has been completely executed, 0 if the message need more time, -1 if some error occured
 int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *infos) {
     message_t *m = req_get_message(req);
@@ -636,7 +673,7 @@ int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *inf
             w.worker_id = infos->worker_id;
             w.req_id = req->req_id;
 
-            if (write(infos->storefd, &w, sizeof(w)) < 0) {
+            if (storage_submit(infos, &w) < 0) {
                 perror("storage worker write() failed");
                 return -1;
             }
@@ -1123,6 +1160,15 @@ void* conn_worker(void* args) {
             } else {
                 exec_request(infos->epollfd, &events[i], infos);
             }
+
+            // handle what has been put aside
+            while (infos->store_acks_num > 0) {
+                req_info_t *req = req_get_by_id(infos->store_acks[infos->store_acks_head]);
+                infos->store_acks_head = (infos->store_acks_head + 1) % MAX_REQS;
+                infos->store_acks_num--;
+                if (req)
+                    process_messages(req, infos->epollfd, infos);
+            }
         }
     }
 
@@ -1423,6 +1469,8 @@ int main(int argc, char *argv[]) {
 
             storage_worker_info.store_replyfd[i] = fds2[i][1]; // write 
             conn_worker_infos[i].store_replyfd = fds2[i][0]; // read
+            conn_worker_infos[i].store_acks = malloc(MAX_REQS * sizeof(int));
+            check(conn_worker_infos[i].store_acks != NULL);
         }
     } else {
         for (int i = 0; i < input_args.num_threads; i++) {
@@ -1528,6 +1576,7 @@ int main(int argc, char *argv[]) {
 
             close(conn_worker_infos[i].store_replyfd);
             close(storage_worker_info.store_replyfd[i]);
+            free(conn_worker_infos[i].store_acks);
         }
     }
 
-- 
2.43.0

