From db4ffdfcccbf23cd2608a9320d50d328221a89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:29 +0000
Subject: [PATCH 01/59] fix: keep a partially received packet when output is
 sent to its sender

pktsocket_write() always returned the connection to WANT_HEADER, so a packet
whose body had not fully arrived was forgotten and its remaining bytes were
interpreted as new packets.
---
 pktserv/pktsocket.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index 53be7a1..ef11e85 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -263,6 +263,7 @@ int pktsocket_read(cbuf_t *cbuf)
 
     if ((remain - result) == 0) {
         cbuf->state = COMPLETE_PACKET;
+        cbuf->newmsg = 1;
 
         /* nail down the end of the read string */
         *(cbuf->rbuf->pos) = '\0';
@@ -370,6 +371,7 @@ int pktsocket_write(cbuf_t* cbuf)
              cbuf->fd, cbuf->wlist_size);
     }
 
-    cbuf->state = WANT_HEADER;
+    /* go back to reading, in the middle of a packet if that's where we were */
+    cbuf->state = cbuf->newmsg ? WANT_HEADER : WANT_READ;
     return 0;
 }
-- 
2.43.0


From cb0039718f1e55666155dedf7236d314e946424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:29 +0000
Subject: [PATCH 02/59] fix: don't spin forever on a connection whose output is
 blocked

WANT_WRITE never left the state machine's loop while the socket was not
writeable (or after the retry limit was reached), hanging the whole server
as soon as any other connection became active.
---
 pktserv/pktserv.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index f4c657d..d5d319d 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -307,18 +307,21 @@ pollfd_state_machine(struct pollfd* pollfd)
                 return;
 
             case WANT_SSL_WRITE:    /* need to retry the SSL write */
-                if (readable || writeable)
-                    pktsocket_write(cbuf);
+                if ((readable || writeable) && pktsocket_write(cbuf) < 0)
+                    cbuf->state = WANT_DISCONNECT;
                 return;
 
             case WANT_WRITE:        /* we have pending writes. This can be a new SSL write. */
-                if (writeable) {
-                    pktsocket_write(cbuf);
-                }
-                if (readable && (cbuf->state == WANT_READ || cbuf->state == WANT_HEADER)) {
-                    /* pktsocket_write() may have set this to BLOCKED */
-                    cbuf->disp = OK;
+                if (writeable && pktsocket_write(cbuf) < 0) {
+                    /* connection gone or too many retries */
+                    cbuf->state = WANT_DISCONNECT;
                 }
+                if (cbuf->state == WANT_DISCONNECT)
+                    break;
+                if (!readable)
+                    return;
+                /* don't let unsent output keep us from reading */
+                cbuf->state = cbuf->newmsg ? WANT_HEADER : WANT_READ;
                 break;
 
             case IDLE:              /* not doing anything. got some network data */
-- 
2.43.0


From ae056f677fc74793b0c6d6b9f72c899d7f759cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:53 +0000
Subject: [PATCH 03/59] fix: close connections on which poll() reports an error
 or hangup

The error path only marked the connection for a raw disconnect, which it then
never reached: poll() reported the hangup again immediately, so the socket
leaked, the server spun and the loss was announced over and over.
---
 pktserv/pktserv.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index d5d319d..87dc9ae 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -200,6 +200,7 @@ add_pollfd(int fd)
             g_pollsetmax *= 2;
             g_pollset = newset;
         }
+        g_pollset[g_pollsetsize].revents = 0;
         g_pollset[g_pollsetsize++].fd = fd;
     }
 
@@ -258,17 +259,24 @@ pollfd_state_machine(struct pollfd* pollfd)
     if ( (pollfd->revents & POLLERR) ||
          (pollfd->revents & POLLHUP) ||
          (pollfd->revents & POLLNVAL)) {
+        /* already gone (we may see an fd twice after a delete_pollfd()) */
+        if (cbuf->state == DISCONNECTED)
+            return;
+
         /*
          * A remote close often surfaces as POLLHUP without a prior read that
          * transitions to WANT_DISCONNECT. Notify upper layers here so login/
          * group bookkeeping (e.g. sign-off messages) still runs.
          */
         if (g_pktserv_cb.lost_client &&
+            cbuf->state != WANT_RAW_DISCONNECT &&
             cbuf->state != LISTEN_SOCKET &&
             cbuf->state != LISTEN_SOCKET_SSL) {
             g_pktserv_cb.lost_client(cbuf->fd);
         }
+        /* poll() keeps reporting these until the fd is closed */
         handle_disconnect(cbuf);
+        handle_raw_disconnect(cbuf);
         return;
     }
 
-- 
2.43.0


From 45d578bc0cb6741417e8ffcf28b1e6388f9466db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:53 +0000
Subject: [PATCH 04/59] fix: honour a disconnect requested while a packet is
 being handled

The state was overwritten with WANT_HEADER/WANT_WRITE after dispatch, so e.g.
an administrator dropping their own connection, or a failed send, was ignored.
---
 pktserv/pktserv.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 87dc9ae..160ece4 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -351,12 +351,14 @@ pollfd_state_machine(struct pollfd* pollfd)
                             g_pktserv_cb.dispatch(cbuf->fd, cbuf->rbuf->data);
                             _msgbuf_free(cbuf->rbuf);
                             cbuf->rbuf = NULL;
-                            /* ready for the next packet */
-                            cbuf->state = WANT_HEADER;
+                            /* ready for the next packet, unless the
+                             * dispatch asked for a disconnect */
+                            if (cbuf->state != WANT_DISCONNECT)
+                                cbuf->state = WANT_HEADER;
                         }
                     }
                 }
-                if (!TAILQ_EMPTY(&(cbuf->wlist))) {
+                if (cbuf->state != WANT_DISCONNECT && !TAILQ_EMPTY(&(cbuf->wlist))) {
                     /* cycle back to want write if there's stuff left */
                     cbuf->state = WANT_WRITE;
                 }
-- 
2.43.0


From 6f1380652732ffd9546501178fe417cb02e9bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:53 +0000
Subject: [PATCH 05/59] fix: drop connections whose login failed

Kills were only carried out for users that had started logging in, so a
client refused at login stayed connected forever.
---
 server/ipcf.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 5c475c6..3238c25 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -75,13 +75,11 @@ void s_didpoll(int n)
         }
 
         for(i=0;i<MAX_REAL_USERS;i++) {
-            if ( u_tab[i].login > LOGIN_FALSE ) {
-                if (S_kill[i] > 0) {
-                    sprintf(mbuf, "[KILL] killing %d (%d)", i, S_kill[i]);
-                    mdb(MSG_INFO, mbuf);
-                    server_stats.drops++;
-                    pktserv_disconnect(i);
-                }
+            if (S_kill[i] > 0) {
+                sprintf(mbuf, "[KILL] killing %d (%d)", i, S_kill[i]);
+                mdb(MSG_INFO, mbuf);
+                server_stats.drops++;
+                pktserv_disconnect(i);
             }
         }
 
-- 
2.43.0


From 1418a087f60f65fccb5f125ec0bbb236a49bdecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:44 +0000
Subject: [PATCH 06/59] fix: keep packet framing on TLS connections

A read that had to be retried skipped the packet header and never dispatched
the packet, and packets sharing a TLS record with an earlier one were not
looked at until the client sent something else.
---
 pktserv/pktserv.c   | 14 +++++++++++---
 pktserv/sslsocket.c | 11 +++++++++++
 pktserv/sslsocket.h |  2 +-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 160ece4..92c6196 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -310,9 +310,12 @@ pollfd_state_machine(struct pollfd* pollfd)
                 return;
 
             case WANT_SSL_READ:     /* need to retry the SSL read */
-                if (readable || writeable)
-                    pktsocket_read(cbuf);
-                return;
+                if (!readable && !writeable)
+                    return;
+                /* pick the packet up where we left off */
+                cbuf->state = cbuf->newmsg ? WANT_HEADER : WANT_READ;
+                readable = 1;
+                break;
 
             case WANT_SSL_WRITE:    /* need to retry the SSL write */
                 if ((readable || writeable) && pktsocket_write(cbuf) < 0)
@@ -356,6 +359,11 @@ pollfd_state_machine(struct pollfd* pollfd)
                             if (cbuf->state != WANT_DISCONNECT)
                                 cbuf->state = WANT_HEADER;
                         }
+                        /* poll() can't see data the SSL layer already holds */
+                        if (cbuf->state != WANT_DISCONNECT && sslsocket_pending(cbuf)) {
+                            cbuf->state = cbuf->newmsg ? WANT_HEADER : WANT_READ;
+                            break;
+                        }
                     }
                 }
                 if (cbuf->state != WANT_DISCONNECT && !TAILQ_EMPTY(&(cbuf->wlist))) {
diff --git a/pktserv/sslsocket.c b/pktserv/sslsocket.c
index 62d2aa2..d0d3f26 100644
--- a/pktserv/sslsocket.c
+++ b/pktserv/sslsocket.c
@@ -46,6 +46,11 @@ int sslsocket_write(cbuf_t *cbuf, void* buf, size_t len)
     return -1;
 }
 
+int sslsocket_pending(cbuf_t *cbuf)
+{
+    return 0;
+}
+
 
 #else /* HAVE_SSL */
 
@@ -327,4 +332,10 @@ int sslsocket_write(cbuf_t *cbuf, void *buf, size_t nbytes)
 
 }
 
+/* is there decrypted data that hasn't been read yet? */
+int sslsocket_pending(cbuf_t *cbuf)
+{
+    return cbuf->ssl_con != NULL && SSL_pending(cbuf->ssl_con) > 0;
+}
+
 #endif
diff --git a/pktserv/sslsocket.h b/pktserv/sslsocket.h
index 3d9ce3f..37344ec 100644
--- a/pktserv/sslsocket.h
+++ b/pktserv/sslsocket.h
@@ -20,4 +20,4 @@
 int sslsocket_accept(cbuf_t *cbuf);
 int sslsocket_read(cbuf_t *cbuf, void* buf, size_t len);
 int sslsocket_write(cbuf_t *cbuf, void* buf, size_t len);
-
+int sslsocket_pending(cbuf_t *cbuf);
-- 
2.43.0


From b2027e6c21756c7a6a61a2df32d65975f5601523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:44 +0000
Subject: [PATCH 07/59] fix: don't spin while waiting for a client's side of
 the TLS handshake

---
 pktserv/pktserv.c   |  7 ++++++-
 pktserv/sslsocket.c | 11 +++++++++++
 pktserv/sslsocket.h |  1 +
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 92c6196..4b2bff7 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -478,7 +478,6 @@ update_pollfd_events(void)
                  * banner before the client sends anything. */
             case WANT_WRITE:
             case WANT_SSL_WRITE:
-            case WANT_SSL_ACCEPT:
                 /* These states need write-readiness notification. */
             case WANT_DISCONNECT:
             case WANT_RAW_DISCONNECT:
@@ -486,6 +485,12 @@ update_pollfd_events(void)
                  * the remote side has gone quiet. */
                 events |= POLLOUT;
                 break;
+            case WANT_SSL_ACCEPT:
+                /* Start the handshake right away; after that it mostly
+                 * waits for the client. */
+                if (sslsocket_accept_want_write(cbuf))
+                    events |= POLLOUT;
+                break;
             default:
                 break;
         }
diff --git a/pktserv/sslsocket.c b/pktserv/sslsocket.c
index d0d3f26..362ca02 100644
--- a/pktserv/sslsocket.c
+++ b/pktserv/sslsocket.c
@@ -51,6 +51,11 @@ int sslsocket_pending(cbuf_t *cbuf)
     return 0;
 }
 
+int sslsocket_accept_want_write(cbuf_t *cbuf)
+{
+    return 0;
+}
+
 
 #else /* HAVE_SSL */
 
@@ -338,4 +343,10 @@ int sslsocket_pending(cbuf_t *cbuf)
     return cbuf->ssl_con != NULL && SSL_pending(cbuf->ssl_con) > 0;
 }
 
+/* is the handshake not started yet, or waiting to write? */
+int sslsocket_accept_want_write(cbuf_t *cbuf)
+{
+    return cbuf->ssl_con == NULL || SSL_want_write(cbuf->ssl_con);
+}
+
 #endif
diff --git a/pktserv/sslsocket.h b/pktserv/sslsocket.h
index 37344ec..09e1a85 100644
--- a/pktserv/sslsocket.h
+++ b/pktserv/sslsocket.h
@@ -21,3 +21,4 @@ int sslsocket_accept(cbuf_t *cbuf);
 int sslsocket_read(cbuf_t *cbuf, void* buf, size_t len);
 int sslsocket_write(cbuf_t *cbuf, void* buf, size_t len);
 int sslsocket_pending(cbuf_t *cbuf);
+int sslsocket_accept_want_write(cbuf_t *cbuf);
-- 
2.43.0


From ac6795eea86485a6a259932fd657272062d04f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:35 +0000
Subject: [PATCH 08/59] fix: check the nickname that will be used for
 uniqueness at login

The nickname was compared with the ones in use before its illegal
characters were replaced, so 'a b' could log in while 'a_b' was signed on.
---
 server/msgs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index 01838e4..c3d0f59 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -380,6 +380,9 @@ int loginmsg(int n, char *pkt)
     {
         /* regular login */
 
+        /* get rid of nasty characters in the nickname */
+        filternickname(fields[1]);
+
         /* make sure the nickname hasn't already been taken */
         if (find_user(fields[1]) >= 0)
         {
@@ -506,9 +509,6 @@ int loginmsg(int n, char *pkt)
             mdb(MSG_ERR, mbuf);
         }
 
-        /* get rid of nasty characters in the nickname */
-        filternickname(fields[1]);
-
         /* fill in what we can */
         fill_user_entry(n, fields[0], cp, fields[1],
                         fields[4], "", "", LOGIN_FALSE, 0, 0, perms);
-- 
2.43.0


From 49e9b65bf7a7c89b2da1826424b2ddb4e1bb4b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:35 +0000
Subject: [PATCH 09/59] fix: don't take a login packet's missing password from
 an earlier packet

When a login packet had no password field, fields[4] still pointed to
what an earlier packet (of any client) had left there.
---
 server/msgs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/msgs.c b/server/msgs.c
index c3d0f59..ab03e5a 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -511,7 +511,8 @@ int loginmsg(int n, char *pkt)
 
         /* fill in what we can */
         fill_user_entry(n, fields[0], cp, fields[1],
-                        fields[4], "", "", LOGIN_FALSE, 0, 0, perms);
+                        (num_fields > 4) ? fields[4] : "", "", "",
+                        LOGIN_FALSE, 0, 0, perms);
 
         sprintf(mbuf, "[LOGIN] %d: %s@%s", n, fields[0], cp);
         mdb(MSG_INFO, mbuf);
-- 
2.43.0


From b035dd424818186d5c6f1b1e1861a7fad5c51cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:35 +0000
Subject: [PATCH 10/59] fix: don't store a field past the end of fields[] in
 split()

---
 server/strutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/strutil.c b/server/strutil.c
index a0083fd..741a33c 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -268,7 +268,7 @@ int split(char *s)
          * is all cleaned up, we just stop at the MAX_FIELDS
          * which is only slightly better.
          */
-        if ( i > MAX_FIELDS )
+        if ( i >= MAX_FIELDS )
             return (MAX_FIELDS);
 
         /* find delim or EOS */
-- 
2.43.0


From f145d3b406fcb4d83cbeb13a74d8c6d7aefb9248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:35 +0000
Subject: [PATCH 11/59] fix: keep room for the terminator in getword()

---
 server/strutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/strutil.c b/server/strutil.c
index 741a33c..7593480 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -224,7 +224,7 @@ char *getword(char *s)
 {
     static char word[64];
     char *w = word;
-    while (*s != ' ' && *s != '\t' && *s != '\0' && ((w - word) < 64))
+    while (*s != ' ' && *s != '\t' && *s != '\0' && ((w - word) < (int)sizeof(word) - 1))
         *w++ = *s++;
     *w = '\0';
     return(word);
-- 
2.43.0


From 8d51dce4071e6786a857650c55d75fca63292501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:41 +0000
Subject: [PATCH 12/59] fix: don't use the fields of an earlier packet when a
 command has none

fields[] kept pointing into whatever packet was split last, so commands
sent without an argument (away, p, whois, news, ...) took another user's
text, password included.  Missing fields are now empty.
---
 server/ipcf.c    | 3 ++-
 server/msgs.c    | 7 ++++---
 server/strutil.c | 8 +++++++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 3238c25..1a26214 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -216,6 +216,7 @@ void s_didpoll(int n)
 
         for(i=0;i<MAX_REAL_USERS;i++) {
             int gi;
+            char to_group[] = IDLE_GROUP;
 
             /* they must be logged in */
             if (u_tab[i].login < LOGIN_COMPLETE )
@@ -298,7 +299,7 @@ void s_didpoll(int n)
                     }
 
                     /* fake an s_change to group IDLE_GROUP */
-                    strcpy (fields[1], IDLE_GROUP);
+                    fields[1] = to_group;
                     is_booting = 1;
                     s_change(i, 2);
                     is_booting = 0;
diff --git a/server/msgs.c b/server/msgs.c
index ab03e5a..b13348d 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -212,6 +212,7 @@ void openmsg(int n, char *pkt)
                 if ( u_recv_count[n] > 2 )
                 {
                     extern int is_booting;
+                    char to_group[] = "ICB";
 
                     /* tell 'em it happened. */
                     sendstatus(n, "Boot", "No spamming in group 1.");
@@ -219,7 +220,7 @@ void openmsg(int n, char *pkt)
                             u_tab[n].nickname);
                     s_status_group(1,1,n, "Boot", mbuf);
                     /* fake an s_change to group ICB */
-                    strcpy (fields[1], "ICB");
+                    fields[1] = to_group;
                     is_booting = 1;
                     s_change(n, 2);
                     is_booting = 0;
@@ -272,7 +273,7 @@ void openmsg(int n, char *pkt)
         }
     } else {
         vmdb(MSG_INFO, "%d: cannot send open messages until logged in (%s)",
-             n, fields[0]);
+             n, pkt);
     }
 }
 
@@ -924,7 +925,7 @@ void cmdmsg(int n, char *pkt)
     {
         sprintf (mbuf,
                  "%d: cannot issue command until logged in (%s)",
-                 n, fields[0]);
+                 n, pkt);
         mdb(MSG_INFO, mbuf);
     }
 }
diff --git a/server/strutil.c b/server/strutil.c
index 7593480..a5a26b4 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -251,9 +251,15 @@ char *fields[MAX_FIELDS];
 
 int split(char *s)
 {
+    static char nofield[1];
     char *p = s;
-    int i = 0;
+    int i;
 
+    /* fields that aren't there are empty, not what an earlier packet had */
+    for (i = 0; i < MAX_FIELDS; i++)
+        fields[i] = nofield;
+
+    i = 0;
     fields[i] = s;
     for(;;) {
 
-- 
2.43.0


From 2f47b88ed46214214477b31f0af1f7be2c7dc740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:14 +0000
Subject: [PATCH 13/59] fix: keep room for the terminator when filtering
 outgoing text

filtertext() writes up to len bytes and terminates the result only if it
is shorter, so a long message was sent with whatever followed the buffer
on the stack.
---
 server/send.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/server/send.c b/server/send.c
index ab12279..d278468 100644
--- a/server/send.c
+++ b/server/send.c
@@ -33,7 +33,7 @@ char packetbuffer[MAX_PKT_LEN]; /* packet buffer */
 void senderror(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA];
-    filtertext(message, msgbuf, MAX_PKT_DATA);
+    filtertext(message, msgbuf, sizeof(msgbuf) - 1);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s",
             ICB_M_ERROR, msgbuf);
     doSend(-1, to);
@@ -46,8 +46,8 @@ void sendperson(int from, int to, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filtertext(u_tab[from].nickname, nickbuf, sizeof(nickbuf) - 1);
+    filtertext(message, msgbuf, sizeof(msgbuf) - 1);
 
     char one[255], two[MAX_NICKLEN+1];
     snprintf(one, 255, "%s@%s", u_tab[from].loginid, u_tab[from].nodeid);
@@ -74,8 +74,8 @@ void sendopen(int from, int to, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filtertext(u_tab[from].nickname, nickbuf, sizeof(nickbuf) - 1);
+    filtertext(message, msgbuf, sizeof(msgbuf) - 1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s",
             ICB_M_OPEN, nickbuf, msgbuf);
@@ -107,8 +107,8 @@ void sendstatus(int to, const char *status, const char *message)
     char statusbuf[MAX_STATUS_LEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];
 
-    filtertext(status, statusbuf, MAX_STATUS_LEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
+    filtertext(status, statusbuf, sizeof(statusbuf) - 1);
+    filtertext(message, msgbuf, sizeof(msgbuf) - 1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_STATUS, statusbuf, msgbuf);
@@ -120,7 +120,7 @@ void send_cmdend(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA-4];
 
-    filtertext(message, msgbuf, MAX_PKT_DATA-4);
+    filtertext(message, msgbuf, sizeof(msgbuf) - 1);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001\001%s", 
              ICB_M_CMDOUT, "ec", msgbuf);
     doSend(-1, to);
@@ -131,7 +131,7 @@ void sends_cmdout(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA-3];
 
-    filtertext(message, msgbuf, MAX_PKT_DATA-3);
+    filtertext(message, msgbuf, sizeof(msgbuf) - 1);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_CMDOUT, "co", msgbuf);
     doSend(-1, to);
@@ -146,8 +146,8 @@ void send_person_stored(int to, const char* fromNick, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(fromNick, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filtertext(fromNick, nickbuf, sizeof(nickbuf) - 1);
+    filtertext(message, msgbuf, sizeof(msgbuf) - 1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s",
             ICB_M_PERSONAL, nickbuf, msgbuf);
@@ -241,8 +241,8 @@ void sendimport(int to, const char *status, const char *message)
     char statusbuf[MAX_STATUS_LEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];
 
-    filtertext(status, statusbuf, MAX_STATUS_LEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
+    filtertext(status, statusbuf, sizeof(statusbuf) - 1);
+    filtertext(message, msgbuf, sizeof(msgbuf) - 1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_IMPORTANT, statusbuf, msgbuf);
-- 
2.43.0


From 2bb8b9f1bd3dddf0e4442b6e0b88aa6f16ee976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:14 +0000
Subject: [PATCH 14/59] fix: clean up after a user who is lost before entering
 a group

A login that fails because its group can't be entered leaves a user with
no group: g_tab[-1] was read to decide on sign-off notifications of a
user who never signed on, and groups the user had just regained the
moderation of kept the freed slot as their moderator, so that whoever
got the slot next was moderator.
---
 server/ipcf.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 1a26214..29bf0c6 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -379,12 +379,12 @@ int s_lost_user(int n)         /* n = fd of that user */
     ucaseit(one);
     strcpy(three, u_tab[n].nickname);
     ucaseit(three);
-    for (j = 0; j < MAX_USERS; j++) {
+    ogi = find_group(t_grp);
+    for (j = 0; j < MAX_USERS && ogi >= 0; j++) {
         if ((n != j) && (u_tab[j].login > LOGIN_FALSE)) {
             if ((nlmatch(three, *u_tab[j].n_notifies) ||
                  nlmatch(one, *u_tab[j].s_notifies)) &&
-                (g_tab[find_group(u_tab[n].group)].visibility != 
-                 SUPERSECRET)) {
+                (g_tab[ogi].visibility != SUPERSECRET)) {
                 /* ignore warning about 'one' being possibly truncated
                  * when copying into 'two'.
                  */
@@ -405,14 +405,14 @@ int s_lost_user(int n)         /* n = fd of that user */
 
     /* find out what group they are in */
     /* note: they may be moderator of a group they are NOT in */
-
-    ogi = find_group(t_grp);
-    if (ogi < 0) return -1;
+    /* note: they aren't in any group if they couldn't enter one at login */
 
     /* check if there are any users left in present group */
     num_left = count_users_in_group(t_grp);
 
-    if ( num_left > 0) {
+    if (ogi < 0) {
+        ;
+    } else if ( num_left > 0) {
         /* tell remaining group members user left */
         TheTime = time(NULL);
         if (is_killed > 0)
-- 
2.43.0


From 72481e5b97a6f276c699da1905acaabb50515017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:59 +0000
Subject: [PATCH 15/59] fix: don't use a talk list entry after it has been
 freed

s_talk() removed the old entries by passing their own text to
talk_delete(), which goes on using it (as does the caller) once freed.
---
 server/s_group.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index 7879d54..eafb37c 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -2129,14 +2129,17 @@ fields[1] is nickname of person to invite
                     NAMLIST    *nl;
                     int        count,
                             i;
-                    char    *cp;
+                    char    *cp,
+                            name[MAX_PKT_LEN];
 
                     nl = g_tab[gi].n_talk;
                     count = nlcount(*nl);
                     for ( i = 0; i < count; i++)
                     {
-                        cp = nlget (nl);
-                        if (cp && *cp) {
+                        /* the entry itself goes away with talk_delete() */
+                        snprintf (name, sizeof (name), "%s", nlget (nl));
+                        cp = name;
+                        if (*cp) {
                             if ( talk_delete (cp, gi) > 0
                                  && quiet == 0 )
                             {
@@ -2150,8 +2153,10 @@ fields[1] is nickname of person to invite
                     count = nlcount(*nl);
                     for ( i = 0; i < count; i++)
                     {
-                        cp = nlget (nl);
-                        if (cp && *cp) {
+                        /* the entry itself goes away with talk_delete() */
+                        snprintf (name, sizeof (name), "%s", nlget (nl));
+                        cp = name;
+                        if (*cp) {
                             if ( talk_delete (cp, gi) > 0
                                  && quiet == 0 )
                             {
-- 
2.43.0


From bd8cdfa8c189393a93428c66ad34ad955058707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:59 +0000
Subject: [PATCH 16/59] fix: apply a controlled group's talk list to every open
 message

/exclude sent open messages to a controlled group without checking the
sender's permission to talk, and when the moderator was gone the check
for ordinary open messages read u_tab[-1] for the moderator's name.
---
 server/msgs.c       | 22 ++--------------------
 server/s_commands.h |  1 +
 server/s_group.c    | 30 ++++++++++++++++++++++++++++++
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index b13348d..cce5f14 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -244,26 +244,8 @@ void openmsg(int n, char *pkt)
             if (g_tab[gi].volume == QUIET)
                 senderror(n,
                           "Open messages not permitted in quiet groups.");
-            /*
-             * if the group is CONTROLLED,  and they
-             * aren't the moderator, check to make sure they are in
-             * in the talk list
-             */
-            else if ( (g_tab[gi].control == CONTROLLED
-                       && g_tab[gi].mod != n)
-                      && ( (nlpresent (u_tab[n].nickname,
-                                       *g_tab[gi].n_talk) == 0)
-                           && (strlen (u_tab[n].realname) == 0
-                               || nlpresent (u_tab[n].nickname,
-                                             *g_tab[gi].nr_talk) == 0) ) )
-            {
-                senderror (n,
-                           "You do not have permission to send open messages in this group.");
-                sprintf (mbuf,
-                         "Use \"/m %s may i talk?\" to request permission.",
-                         u_tab[g_tab[gi].mod].nickname);
-                sendstatus (n, "INFO", mbuf);
-            }
+            else if ( !talk_allowed (n, gi) )
+                ; /* they've been told */
             else if (count_users_in_group(g_tab[gi].name) < 2)
                 senderror(n,
                           "No one else in group!");
diff --git a/server/s_commands.h b/server/s_commands.h
index 1951ce0..b896468 100644
--- a/server/s_commands.h
+++ b/server/s_commands.h
@@ -52,6 +52,7 @@ int s_log(int n, int argc);
 int s_talk(int n, int argc);
 
 /* not really server commands */
+int talk_allowed(int n, int gi);
 void talk_report(int n, int gi);
 void away_handle(int src, int dest);
 
diff --git a/server/s_group.c b/server/s_group.c
index eafb37c..ec3c64d 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -1864,6 +1864,8 @@ int s_exclude(int n, int argc)
                 senderror (n, "Open messages not permitted in quiet groups.");
                 return 0;
             }
+            if (gi != -1 && !talk_allowed (n, gi))
+                return 0;
 
             strcpy(my_group, u_tab[n].group);
             sprintf(one, "%s@%s", u_tab[n].loginid, u_tab[n].nodeid);
@@ -1982,6 +1984,34 @@ int talk_delete (char *who, int gi)
     return (deleted);
 }
 
+/*
+ * talk_allowed()
+ * - if the group is CONTROLLED, and they aren't the moderator, check to
+ *   make sure they are in the talk list. tell them if they aren't.
+ */
+int talk_allowed (int n, int gi)
+{
+    if ( g_tab[gi].control != CONTROLLED
+         || g_tab[gi].mod == n
+         || nlpresent (u_tab[n].nickname, *g_tab[gi].n_talk)
+         || (strlen (u_tab[n].realname) > 0
+             && nlpresent (u_tab[n].nickname, *g_tab[gi].nr_talk)) )
+    {
+        return (1);
+    }
+
+    senderror (n,
+               "You do not have permission to send open messages in this group.");
+    if ( g_tab[gi].mod >= 0 )
+    {
+        sprintf (mbuf,
+                 "Use \"/m %s may i talk?\" to request permission.",
+                 u_tab[g_tab[gi].mod].nickname);
+        sendstatus (n, "INFO", mbuf);
+    }
+    return (0);
+}
+
 void talk_report (int n, int gi)
 {
     if ( (nlpresent(u_tab[n].nickname, *g_tab[gi].n_talk) > 0) ||
-- 
2.43.0


From 7cf3909b53dba1fd4ca9a5dd1135fc06b839e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:26 +0000
Subject: [PATCH 17/59] fix: cancel both kinds of invitation

/cancel (and /boot) reported an invitation as cancelled after removing it
from the first list it was in; someone invited both as a nickname and as
a registered nickname could still enter.
---
 server/s_group.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index ec3c64d..f15fdf1 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -99,8 +99,9 @@ fields[1] is nickname of person for cancel
 
         if (can_do)
         {
+            /* note: delete from both lists, so no short-circuit || here */
             if ((mode == 0) &&
-                ((nldelete(g_tab[gi].n_invites,who) == 0) ||
+                ((nldelete(g_tab[gi].n_invites,who) == 0) |
                  (nldelete(g_tab[gi].nr_invites,who) == 0)))
             {
                 if (quiet == 0)
@@ -115,7 +116,7 @@ fields[1] is nickname of person for cancel
                 }
             }
             else if ((mode == 1) &&
-                     ((nldelete(g_tab[gi].s_invites,who) == 0) ||
+                     ((nldelete(g_tab[gi].s_invites,who) == 0) |
                       (nldelete(g_tab[gi].sr_invites,who) == 0)))
             {
                 if (quiet == 0)
@@ -964,7 +965,7 @@ fields[1] is nickname of person to boot
                 if (gi == destgi) {
                     /* send status to group */
                     if ((nldelete(g_tab[destgi].n_invites,
-                                  u_tab[dest].nickname) == 0) ||
+                                  u_tab[dest].nickname) == 0) |
                         (nldelete(g_tab[destgi].nr_invites,
                                   u_tab[dest].nickname) == 0)) {
                         sprintf(mbuf, "%s cancelled",
-- 
2.43.0


From 2ede8e63ce817ae4dabbcdc5fa3163472ab6cb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:43 +0000
Subject: [PATCH 18/59] fix: don't use an away message as a format string

With verbose echo the notice sent to someone who is away was formatted
with their own away text, which holds two %s, and only one argument.
---
 server/s_person.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/server/s_person.c b/server/s_person.c
index d7f03e3..0b1d80a 100644
--- a/server/s_person.c
+++ b/server/s_person.c
@@ -109,12 +109,11 @@ void away_handle (int src, int dest)
             if (u_tab[dest].echoback == 2) 
             {
                 struct tm *t;
-                char tbuf[MAX_PKT_DATA];
 
                 gettime ();
                 t = localtime (&curtime);
 
-                snprintf(tbuf, MAX_PKT_DATA, "<*to: %s*> [=@%d:%02d%s=] %s", 
+                snprintf(mbuf, MAX_PKT_DATA, "<*to: %s*> [=@%d:%02d%s=] %s", 
                          u_tab[src].nickname,
                          (t->tm_hour > 12) ? (t->tm_hour - 12) :
                          (t->tm_hour == 0) ? 12 : t->tm_hour,
@@ -122,7 +121,6 @@ void away_handle (int src, int dest)
                          t->tm_hour > 11 ? "pm" : "am",
                          u_tab[dest].awaymsg);
 
-                snprintf(mbuf, MAX_PKT_DATA, tbuf, u_tab[dest].nickname);
                 sends_cmdout(dest, mbuf);
             }
         }
-- 
2.43.0


From 5263974f3f981a6f026826347fcfb6c641745f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:31 +0000
Subject: [PATCH 19/59] fix: only find users who are signed on

find_user() also found the nickname of a connection whose login is being
handled or has failed.  It has no group, so logging in to group "@self"
(or naming a failed login in /w @nick and the like) read g_tab[-1], and
moderation passed to one stayed with its slot after the disconnect.
---
 server/users.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/users.c b/server/users.c
index 1c5569a..56f679e 100644
--- a/server/users.c
+++ b/server/users.c
@@ -180,7 +180,8 @@ int find_user(char *name)
 
     /* search through table */
     for (i=0; i<MAX_USERS; i++) {
-        if ( strcasecmp(u_tab[i].nickname, name) == 0) {
+        if ( u_tab[i].login >= LOGIN_COMPLETE &&
+             strcasecmp(u_tab[i].nickname, name) == 0) {
             result = i;
             break;
         }
-- 
2.43.0


From 250755483411e1c91da83bb1774dc3dcc5debf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:31 +0000
Subject: [PATCH 20/59] fix: don't overflow the buffers of a who listing

The status "(nr,aw,ssl)" didn't fit in 8 bytes, and the sorted lists were
shifted one entry too far.
---
 server/s_who.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/s_who.c b/server/s_who.c
index 3ae839a..78faa67 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -77,7 +77,7 @@ void pgm_long(int n, int which)
     int gpmod;
     int num_users;
     char cp[5];
-    char status[8];
+    char status[16];
     int nr = 0, aw = 0, sec=0;
     int user_list[MAX_REAL_USERS];
     int i, j;
@@ -104,7 +104,7 @@ void pgm_long(int n, int which)
                            u_tab[user_list[i]].t_group)
 #endif
                         i++;
-                for (j = (users + 1); j > i; j--)
+                for (j = users; j > i; j--)
                     user_list[j] = user_list[j - 1];
                 user_list[i] = user;
             }
@@ -312,7 +312,7 @@ void doAll(int n, int flags)
                 while ((i < groups) && (strcasecmp(g_tab[group].name,
                                                    g_tab[group_list[i]].name) > 0))
                     i++;
-                for (j = (groups + 1); j > i; j--)
+                for (j = groups; j > i; j--)
                     group_list[j] = group_list[j - 1];
                 group_list[i] = group;
             }
-- 
2.43.0


From 478fef3f2de495130677ce990b7dace454d49ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:31 +0000
Subject: [PATCH 21/59] fix: show hidden groups to users invited by registered
 address

The who listing looked in the list of plain address invitations twice.
---
 server/s_who.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/s_who.c b/server/s_who.c
index 78faa67..c169452 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -229,7 +229,7 @@ void print_group_header(int n, int grp)
                               *g_tab[grp].nr_invites)) && 
                    (strlen(u_tab[n].realname) > 0)) ||
                   (nlmatch(one, *g_tab[grp].s_invites)) ||
-                  ((nlmatch(one, *g_tab[grp].s_invites)) &&
+                  ((nlmatch(one, *g_tab[grp].sr_invites)) &&
                    (strlen(u_tab[n].realname) > 0)) ||
                   (! strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)));
     if ((g_tab[grp].visibility == SECRET) ||
@@ -299,7 +299,7 @@ void doAll(int n, int flags)
                                   *g_tab[group].nr_invites)) && 
                        (strlen(u_tab[n].realname) > 0)) ||
                       (nlmatch(one, *g_tab[group].s_invites)) ||
-                      ((nlmatch(one, *g_tab[group].s_invites)) &&
+                      ((nlmatch(one, *g_tab[group].sr_invites)) &&
                        (strlen(u_tab[n].realname) > 0)) ||
                       (! strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)));
         if( (strlen(g_tab[group].name)!=0) &&
-- 
2.43.0


From dfa2a7cbf0be8f25b192f844fa3cd587adf583dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:31 +0000
Subject: [PATCH 22/59] fix: bound the news file name

---
 server/s_news.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/s_news.c b/server/s_news.c
index 5cf0af6..de31399 100644
--- a/server/s_news.c
+++ b/server/s_news.c
@@ -62,7 +62,7 @@ int s_news(int n, int argc)
         if (first == 0)
             sendstatus(n, "News", "No news.");
     } else {
-        sprintf(fname, "news.%s", fields[1]);
+        snprintf(fname, sizeof(fname), "news.%s", fields[1]);
         if ((news_fd = open(fname, O_RDONLY)) >= 0) {
             sends_cmdout(n, "--------------------------------------");
             memset(tbuf, 0, 255);
-- 
2.43.0


From caaceb44de85a9e7946c6dfe4d5a6c2f440de368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:31 +0000
Subject: [PATCH 23/59] fix: don't look up an uninitialised address when there
 is no peer

---
 server/s_info.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/s_info.c b/server/s_info.c
index 1927c90..b4c1337 100644
--- a/server/s_info.c
+++ b/server/s_info.c
@@ -52,6 +52,7 @@ int s_info(int n, int argc)
             idle = time(NULL) - u_tab[TheirIndex].t_recv;
 
             aw = (strlen(u_tab[TheirIndex].awaymsg) > 0);
+            memset(&rs, 0, sizeof(rs));
             getpeername(TheirIndex, (struct sockaddr*)&rs, &rs_size);
 
             /* Get numeric IP address string (works for both IPv4 and IPv6) */
-- 
2.43.0


From 425a8e682643315d17054b74522fb8472a5a3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:31 +0000
Subject: [PATCH 24/59] fix: don't show an uninitialised nickname in whois

---
 server/access.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/access.c b/server/access.c
index db81a41..fc3abe0 100644
--- a/server/access.c
+++ b/server/access.c
@@ -546,7 +546,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
 {
     char           line[255];
     char           temp[255];
-    char           nickstr[MAX_NICKLEN+1];
+    char           nickstr[MAX_NICKLEN+1] = "";
     char           *value;
     int            retval;
     int            count = 0;
-- 
2.43.0


From 654777b005ca5a342801712402c3fe5c31e444af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:31 +0000
Subject: [PATCH 25/59] fix: clear the time of the ping that is forgotten

---
 server/users.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/users.c b/server/users.c
index 56f679e..804648b 100644
--- a/server/users.c
+++ b/server/users.c
@@ -67,7 +67,7 @@ void clear_user_item(int n)
         if ( pong_req[i] == n )
         {
             pong_req[i] = -1;
-            timerclear (&ping_time[n]);
+            timerclear (&ping_time[i]);
         }
     }
 }
-- 
2.43.0


From 0fc9c0903778ab08fd7b5d00b001cbccd5a11b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:18 +0000
Subject: [PATCH 26/59] fix: make room for the terminator of an idle-boot
 message of maximum length

---
 server/server.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.h b/server/server.h
index 21b89bd..6d62714 100644
--- a/server/server.h
+++ b/server/server.h
@@ -99,7 +99,7 @@ typedef struct {
     int	size;		/* how many people are allowed */
     int	idleboot;	/* how idle people can be before booted */
 #define	IDLEBOOT_MSG_LEN	(79-15-MAX_NICKLEN+2)
-    char	idleboot_msg[IDLEBOOT_MSG_LEN];
+    char	idleboot_msg[IDLEBOOT_MSG_LEN+1];
     /* max length of the message so it'll fit on
      * one line. 79=line length,
      * 15=strlen([=Idle-Boot=] )
-- 
2.43.0


From 63fa7b8ed91ecad100593fe67479ee5621126ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:18 +0000
Subject: [PATCH 27/59] fix: don't read past the end of a pattern with an
 unterminated class

---
 server/wildmat.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/wildmat.c b/server/wildmat.c
index 99367b0..b7e41b7 100644
--- a/server/wildmat.c
+++ b/server/wildmat.c
@@ -98,10 +98,11 @@ DoMatch(char *text, char *p)
                         matched = TRUE;
                 for (last = *p; *++p && *p != ']'; last = *p)
                     /* This next line requires a good C compiler. */
-                    if (*p == '-' && p[1] != ']'
+                    if (*p == '-' && p[1] != ']' && p[1] != '\0'
                         ? *text <= *++p && *text >= last : *text == *p)
                         matched = TRUE;
-                if (matched == reverse)
+                if (matched == reverse || *p == '\0')
+                    /* No match, or the class isn't terminated. */
                     return FALSE;
                 continue;
         }
-- 
2.43.0


From 38a24c701e6af55358e26a457901968df8de9836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:18 +0000
Subject: [PATCH 28/59] fix: free the name lists that a change of a group's
 control empties

---
 server/s_group.c | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index f15fdf1..cae3d2f 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -1375,10 +1375,10 @@ visible.
                     {
                         case SET_RESTRICT:
                             g_tab[gi].control = RESTRICTED;
-                            nlinit(g_tab[gi].n_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].n_nr_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].s_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].s_nr_bars, MAX_INVITES);
+                            nlclear(g_tab[gi].n_bars);
+                            nlclear(g_tab[gi].n_nr_bars);
+                            nlclear(g_tab[gi].s_bars);
+                            nlclear(g_tab[gi].s_nr_bars);
                             cp = "Group is now restricted.";
 
                             for (i=0; i<MAX_USERS; i++)
@@ -1406,20 +1406,20 @@ visible.
 
                         case SET_MODERATE:
                             g_tab[gi].control = MODERATED;
-                            nlinit(g_tab[gi].n_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].nr_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].s_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].sr_invites, MAX_INVITES);
+                            nlclear(g_tab[gi].n_invites);
+                            nlclear(g_tab[gi].nr_invites);
+                            nlclear(g_tab[gi].s_invites);
+                            nlclear(g_tab[gi].sr_invites);
                             cp = "Group is now moderated.";
                             break;
 
 
                         case SET_CONTROL:
                             g_tab[gi].control = CONTROLLED;
-                            nlinit(g_tab[gi].n_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].nr_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].s_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].sr_invites, MAX_INVITES);
+                            nlclear(g_tab[gi].n_invites);
+                            nlclear(g_tab[gi].nr_invites);
+                            nlclear(g_tab[gi].s_invites);
+                            nlclear(g_tab[gi].sr_invites);
                             cp = "Group is now controlled.";
                             break;
 
@@ -1652,14 +1652,14 @@ visible.
 
                         case SET_PUBLIC:
                             g_tab[gi].control = PUBLIC;
-                            nlinit(g_tab[gi].n_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].nr_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].s_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].sr_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].n_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].n_nr_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].s_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].s_nr_bars, MAX_INVITES);
+                            nlclear(g_tab[gi].n_invites);
+                            nlclear(g_tab[gi].nr_invites);
+                            nlclear(g_tab[gi].s_invites);
+                            nlclear(g_tab[gi].sr_invites);
+                            nlclear(g_tab[gi].n_bars);
+                            nlclear(g_tab[gi].n_nr_bars);
+                            nlclear(g_tab[gi].s_bars);
+                            nlclear(g_tab[gi].s_nr_bars);
                             /* cp = "Group is now public."; */
                             sprintf (cp2, "%s made group public.", 
                                      u_tab[n].nickname);
-- 
2.43.0


From 72091497035426fa116ef9458bd249fc1f7f7c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:18 +0000
Subject: [PATCH 29/59] fix: count a user's messages to group 1 from their own
 login

The count used to recognise spamming was inherited from the previous user
of the connection's slot, so a newcomer could be booted at once.
---
 server/msgs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/msgs.c b/server/msgs.c
index cce5f14..df11e79 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -544,6 +544,7 @@ int loginmsg(int n, char *pkt)
         /* fill in last members of table entry */
         /* strcpy(u_tab[n].group, which_group); */
         u_tab[n].login = LOGIN_PENDING;
+        u_recv_count[n] = 0;
         u_tab[n].t_on = TheTime;
         u_tab[n].t_recv = TheTime;
         u_tab[n].t_sent = TheTime;
-- 
2.43.0


From c977fefe21b882869ea508b62880b3cc851985eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:01 +0000
Subject: [PATCH 30/59] fix: write changes of the user database to its file

The database is held open for as long as the server runs, and its
changes were written only when it was closed, which never happened:
registrations and stored messages were lost when the server exited or
restarted.
---
 server/dbm.h     |  5 +++--
 server/icb_dbm.c |  6 ++++++
 server/icbdb.c   | 12 ++++++++++++
 server/icbdb.h   |  1 +
 server/icbutil.c |  2 ++
 server/ipcf.c    |  4 ++++
 server/s_admin.c |  2 ++
 7 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/server/dbm.h b/server/dbm.h
index aaf90c5..18cb7ce 100644
--- a/server/dbm.h
+++ b/server/dbm.h
@@ -17,8 +17,8 @@
  *     key[klen]  = key bytes
  *     val[vlen]  = value bytes
  *
- * Mutations are buffered in memory and flushed atomically on dbm_close()
- * (write-to-tmp + rename) so a crash never corrupts the file.
+ * Mutations are buffered in memory and flushed atomically on dbm_sync() and
+ * dbm_close() (write-to-tmp + rename) so a crash never corrupts the file.
  */
 
 #include <stddef.h>
@@ -38,6 +38,7 @@ typedef struct icb_dbm DBM;
 
 /* ---- public API ---- */
 DBM  *dbm_open(const char *file, int flags, int mode);
+int   dbm_sync(DBM *db);
 void  dbm_close(DBM *db);
 datum dbm_fetch(DBM *db, datum key);
 int   dbm_store(DBM *db, datum key, datum content, int flags);
diff --git a/server/icb_dbm.c b/server/icb_dbm.c
index 0bedf2b..fb9c421 100644
--- a/server/icb_dbm.c
+++ b/server/icb_dbm.c
@@ -329,6 +329,12 @@ DBM *dbm_open(const char *file, int flags, int mode)
     return db;
 }
 
+/* Write pending changes to disk; returns 0 on success, -1 on failure. */
+int dbm_sync(DBM *db)
+{
+    return db ? flush_file(db) : -1;
+}
+
 void dbm_close(DBM *db)
 {
     if (!db) return;
diff --git a/server/icbdb.c b/server/icbdb.c
index 0009b60..d0d2f52 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -75,6 +75,18 @@ icbdb_close (void)
     db = NULL;
 }
 
+/*
+ * Write what has been changed to disk.  The database is normally held open
+ * for as long as the server runs, so this is called between requests and
+ * before the server exits.
+ */
+void
+icbdb_sync (void)
+{
+    if (db != NULL && dbm_sync (db) < 0)
+        vmdb (MSG_ERR, "User Database Sync: %s", strerror(errno));
+}
+
 #define ICBDB_OPEN()    if (icbdb_open() == 0) return (0)
 
 #define ICBDB_DONE(r)    icbdb_close (); return (r)
diff --git a/server/icbdb.h b/server/icbdb.h
index a02df75..9488143 100644
--- a/server/icbdb.h
+++ b/server/icbdb.h
@@ -15,6 +15,7 @@ typedef enum {
 
 int icbdb_open (void);
 void icbdb_close (void);
+void icbdb_sync (void);
 int icbdb_get (const char *, const char *, icbdb_type, void *);
 int icbdb_set (const char *, const char *, icbdb_type, const void *);
 int icbdb_delete (const char *, const char *);
diff --git a/server/icbutil.c b/server/icbutil.c
index 8adaac7..b7ddddb 100644
--- a/server/icbutil.c
+++ b/server/icbutil.c
@@ -20,6 +20,7 @@
 #include "users.h"
 #include "pktserv/pktserv.h" /* for pktserv_disconnect() */
 #include "mdb.h"
+#include "icbdb.h"
 
 
 #define mask(s) (1 << ((s)-1))
@@ -76,6 +77,7 @@ void icbexit(int sig)
             pktserv_disconnect(user);
         }
     }
+    icbdb_sync();
     exit(0);
 }
 
diff --git a/server/ipcf.c b/server/ipcf.c
index 29bf0c6..d3e1bbc 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -12,6 +12,7 @@
 #include "externs.h"
 #include "dispatch.h"
 #include "mdb.h"
+#include "icbdb.h"
 #include "icbutil.h"
 #include "send.h"
 #include "groups.h"
@@ -307,6 +308,9 @@ void s_didpoll(int n)
                 }
             }
         }
+
+        /* save what the requests have changed */
+        icbdb_sync();
     }
 }
 
diff --git a/server/s_admin.c b/server/s_admin.c
index f2b8c2e..4b49c55 100644
--- a/server/s_admin.c
+++ b/server/s_admin.c
@@ -19,6 +19,7 @@
 #include "icbutil.h"
 #include "strutil.h"
 #include "mdb.h"
+#include "icbdb.h"
 #include "pktserv/pktserv.h"  /* for pkserv_disconnect() */
 
 extern int log_level;
@@ -152,6 +153,7 @@ int s_restart(int n, int argc)
 
     mdb(MSG_ALL, "[RESTART] Server restarting");
     icbdump(0);
+    icbdb_sync();
     icbcloselogs(0);
 
     /* determine if we need to add the -R flag or not */
-- 
2.43.0


From ee12c99d13ea680d59cfe3208b38722687579066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:01 +0000
Subject: [PATCH 31/59] fix: don't overflow the buffer for a value of the user
 database

---
 server/icbdb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/icbdb.c b/server/icbdb.c
index d0d2f52..3636d71 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -139,6 +139,8 @@ icbdb_get (const char *category, const char *attribute, icbdb_type type,
               data.dsize, data.dptr);
 
         if (value != NULL) {
+            if (data.dsize >= (int) sizeof (databuf))
+                data.dsize = sizeof (databuf) - 1;
             bcopy (data.dptr, databuf, data.dsize);
             databuf[data.dsize] = '\0';
 
-- 
2.43.0


From 4543c0ca0a4736b34168602f3eb74bb7f7377a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:09 +0000
Subject: [PATCH 32/59] fix: disconnect clients that don't read their output

A disconnect was only carried out once poll() found the connection
writeable, so a client that had stopped reading stayed signed on after
it had been dropped.
---
 pktserv/pktserv.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 4b2bff7..4177e50 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -57,6 +57,32 @@ int g_pollsetmax = 0;
 /* private callbacks */
 pktserv_cb_t g_pktserv_cb = {0};
 
+static void handle_disconnect(cbuf_t *cbuf);
+static void handle_raw_disconnect(cbuf_t *cbuf);
+
+/*
+ * carry out the disconnects that poll() hasn't let us get around to: a
+ * client that doesn't read what it is sent never becomes writeable.
+ */
+static void
+handle_pending_disconnects(void)
+{
+    int i = 0;
+
+    while (i < g_pollsetsize) {
+        int fd = g_pollset[i].fd;
+
+        if (fd >= 0 && fd < MAX_USERS && cbufs[fd].state == WANT_DISCONNECT) {
+            if (g_pktserv_cb.lost_client)
+                g_pktserv_cb.lost_client(fd);
+            handle_disconnect(&cbufs[fd]);
+            handle_raw_disconnect(&cbufs[fd]);
+        } else {
+            i++;
+        }
+    }
+}
+
 /*
  * handle any idle-time chores
  *
@@ -67,6 +93,8 @@ handle_idle(void)
 {
     int i;
 
+    handle_pending_disconnects();
+
     if (g_pktserv_cb.idle) {
         g_pktserv_cb.idle(0);
     }
-- 
2.43.0


From ff583635864e5b6203ace4e14ff01349ad1035f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:21 +0000
Subject: [PATCH 33/59] fix: terminate filtered text that fills its buffer

filtertext() doesn't terminate what it truncates, and the buffers of the
outgoing messages weren't cleared.
---
 server/send.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/server/send.c b/server/send.c
index d278468..3940023 100644
--- a/server/send.c
+++ b/server/send.c
@@ -32,7 +32,7 @@ char packetbuffer[MAX_PKT_LEN]; /* packet buffer */
 /* send an error message to the client */
 void senderror(int to, const char *message)
 {
-    char msgbuf[MAX_PKT_DATA];
+    char msgbuf[MAX_PKT_DATA] = "";
     filtertext(message, msgbuf, sizeof(msgbuf) - 1);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s",
             ICB_M_ERROR, msgbuf);
@@ -43,8 +43,8 @@ void senderror(int to, const char *message)
 void sendperson(int from, int to, const char *message)
 {
 
-    char nickbuf[MAX_NICKLEN+1];
-    char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
+    char nickbuf[MAX_NICKLEN+1] = "";
+    char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1] = "";
 
     filtertext(u_tab[from].nickname, nickbuf, sizeof(nickbuf) - 1);
     filtertext(message, msgbuf, sizeof(msgbuf) - 1);
@@ -71,8 +71,8 @@ void sendperson(int from, int to, const char *message)
 /* send normal open group message to the client */
 void sendopen(int from, int to, const char *message)
 {
-    char nickbuf[MAX_NICKLEN+1];
-    char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
+    char nickbuf[MAX_NICKLEN+1] = "";
+    char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1] = "";
 
     filtertext(u_tab[from].nickname, nickbuf, sizeof(nickbuf) - 1);
     filtertext(message, msgbuf, sizeof(msgbuf) - 1);
@@ -104,8 +104,8 @@ void sendping(int to, const char *who)
 void sendstatus(int to, const char *status, const char *message)
 {
 #define MAX_STATUS_LEN 20
-    char statusbuf[MAX_STATUS_LEN+1];
-    char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];
+    char statusbuf[MAX_STATUS_LEN+1] = "";
+    char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1] = "";
 
     filtertext(status, statusbuf, sizeof(statusbuf) - 1);
     filtertext(message, msgbuf, sizeof(msgbuf) - 1);
@@ -118,7 +118,7 @@ void sendstatus(int to, const char *status, const char *message)
 /* send "end of command" to the client */
 void send_cmdend(int to, const char *message)
 {
-    char msgbuf[MAX_PKT_DATA-4];
+    char msgbuf[MAX_PKT_DATA-4] = "";
 
     filtertext(message, msgbuf, sizeof(msgbuf) - 1);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001\001%s", 
@@ -129,7 +129,7 @@ void send_cmdend(int to, const char *message)
 /* send simple command output message to the client */
 void sends_cmdout(int to, const char *message)
 {
-    char msgbuf[MAX_PKT_DATA-3];
+    char msgbuf[MAX_PKT_DATA-3] = "";
 
     filtertext(message, msgbuf, sizeof(msgbuf) - 1);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
@@ -143,8 +143,8 @@ void sends_cmdout(int to, const char *message)
  */
 void send_person_stored(int to, const char* fromNick, const char *message)
 {
-    char nickbuf[MAX_NICKLEN+1];
-    char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
+    char nickbuf[MAX_NICKLEN+1] = "";
+    char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1] = "";
 
     filtertext(fromNick, nickbuf, sizeof(nickbuf) - 1);
     filtertext(message, msgbuf, sizeof(msgbuf) - 1);
@@ -238,8 +238,8 @@ void send_loginok(int to)
 void sendimport(int to, const char *status, const char *message)
 {
 #define MAX_STATUS_LEN 20
-    char statusbuf[MAX_STATUS_LEN+1];
-    char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];
+    char statusbuf[MAX_STATUS_LEN+1] = "";
+    char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1] = "";
 
     filtertext(status, statusbuf, sizeof(statusbuf) - 1);
     filtertext(message, msgbuf, sizeof(msgbuf) - 1);
-- 
2.43.0


From b3f70b2209f00bbd114a6e1493975a5e032ae087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:04 +0000
Subject: [PATCH 34/59] fix: don't take a failed SSL read or write for one that
 would block

sslsocket_read() and sslsocket_write() report a fatal error with -1 but
don't set errno, so a stale EWOULDBLOCK kept a dead connection around and
made the server spin on it.
---
 pktserv/pktsocket.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index ef11e85..340ef3a 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -170,7 +170,7 @@ int pktsocket_read(cbuf_t *cbuf)
 
         /* did we get an error or a partial read? */
         if (result < 0) {
-            if (errno == EWOULDBLOCK) {
+            if (!cbuf->is_ssl && errno == EWOULDBLOCK) {
                 /* incomplete read - sslsocket_read() will never return this. */
                 return 0;
             }
@@ -235,7 +235,7 @@ int pktsocket_read(cbuf_t *cbuf)
 
     /* did we get an error? */
     if (result < 0) {
-        if (errno == EWOULDBLOCK) {
+        if (!cbuf->is_ssl && errno == EWOULDBLOCK) {
             /* incomplete read - read_ssl() will never return this. */
             cbuf->state = WANT_READ;
             return 0;
@@ -331,7 +331,7 @@ int pktsocket_write(cbuf_t* cbuf)
 
         /* did we have an error? */
         if ( result < 0 ) {
-            if (errno == EWOULDBLOCK) {
+            if (!cbuf->is_ssl && errno == EWOULDBLOCK) {
                 /* incomplete write - write_ssl() will never return this. */
                 cbuf->state = WANT_WRITE;
                 cbuf->retries++;
-- 
2.43.0


From 7ba5a3c39d4b44d549729c4bb57979f2bc5fa701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:04 +0000
Subject: [PATCH 35/59] fix: keep reading from an SSL client whose output is
 blocked

Incoming data made the server retry the blocked write over and over, so
it spun and then disconnected the client.
---
 pktserv/pktserv.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 4177e50..d370c4c 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -346,10 +346,6 @@ pollfd_state_machine(struct pollfd* pollfd)
                 break;
 
             case WANT_SSL_WRITE:    /* need to retry the SSL write */
-                if ((readable || writeable) && pktsocket_write(cbuf) < 0)
-                    cbuf->state = WANT_DISCONNECT;
-                return;
-
             case WANT_WRITE:        /* we have pending writes. This can be a new SSL write. */
                 if (writeable && pktsocket_write(cbuf) < 0) {
                     /* connection gone or too many retries */
-- 
2.43.0


From b4ccecfc9e42275481b06207b53d57ad564cb18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:29 +0000
Subject: [PATCH 36/59] fix: tell a new user in a reused slot about away
 messages

---
 server/users.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/users.c b/server/users.c
index 804648b..6e785d7 100644
--- a/server/users.c
+++ b/server/users.c
@@ -58,6 +58,7 @@ void clear_user_item(int n)
     /* clear out anyone that has this slot:
      *   a) listed as their last priv msg
      *   b) as a pending pong request
+     *   c) as the last one told about their being away
      */
     for ( i = 0; i < MAX_USERS; i++ )
     {
@@ -69,6 +70,12 @@ void clear_user_item(int n)
             pong_req[i] = -1;
             timerclear (&ping_time[i]);
         }
+
+        if ( u_tab[i].lastaway == n )
+        {
+            u_tab[i].lastaway = 0;
+            u_tab[i].lastawaytime = (time_t)0;
+        }
     }
 }
 
-- 
2.43.0


From b6e9d43fb5b4f6823a8ec37d0fad37572191d6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:29 +0000
Subject: [PATCH 37/59] fix: a user whose record is deleted is no longer
 registered

---
 server/access.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/access.c b/server/access.c
index fc3abe0..e1a4afa 100644
--- a/server/access.c
+++ b/server/access.c
@@ -150,6 +150,7 @@ int nickdelete(int forWhom, char *password, DBM *openDb)
         icbdb_delete (nick, key);
     }
 
+    memset(u_tab[forWhom].realname, 0, MAX_REALLEN + 1);
     sends_cmdout(forWhom, "Record Deleted");
     icbdb_close ();
     return 0;
-- 
2.43.0


From 0905ba2be5a5aa0ef5030ba1063f17983154e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:57 +0000
Subject: [PATCH 38/59] fix: apply deny rules line by line

A rule without a reason took the following line as its reason, a rule on an
unterminated last line was ignored, and the words of the reason of a rule
that did not match were used as further patterns.
---
 server/msgs.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index df11e79..49164a3 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -438,8 +438,12 @@ int loginmsg(int n, char *pkt)
         access_file = open(ACCESS_FILE, O_RDONLY);
         if (access_file >= 0)
         {
-            while ((i = read(access_file, &c, 1)) > 0)
+            /* one rule per line: a pattern, then optionally the reason */
+            do
             {
+                i = read(access_file, &c, 1);
+                if (i <= 0)
+                    c = '\012';        /* the last line may be unterminated */
                 if (isspace(c))
                 {
                     ucaseit(three);
@@ -449,7 +453,7 @@ int loginmsg(int n, char *pkt)
                         senderror(n, mbuf);
                         mdb(MSG_INFO, mbuf);
                         memset(two, 0, 255);
-                        while ((i = read(access_file, &c, 1)) > 0)
+                        while (c != '\012' && read(access_file, &c, 1) > 0)
                         {
                             size_t len;
                             if (c == '\012') break;
@@ -468,6 +472,9 @@ int loginmsg(int n, char *pkt)
                         }
                         return -1;
                     }
+                    /* the reason is not another pattern */
+                    while (three[0] && c != '\012' && (i = read(access_file, &c, 1)) > 0)
+                        ;
                     memset(three, 0, 255);
                 }
                 else
@@ -478,7 +485,7 @@ int loginmsg(int n, char *pkt)
                         three[len + 1] = '\0';
                     }
                 }
-            }
+            } while (i > 0);
 
             if (close(access_file) != 0)
             {
-- 
2.43.0


From a44e42d9375561f9084280dd42030d185a872560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:26 +0000
Subject: [PATCH 39/59] fix: tolerate a permissions entry without any
 permission

A permission field consisting only of separators made the server crash at
the next login it applied to.
---
 server/msgs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index 49164a3..e75f209 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -46,13 +46,13 @@ long perm2val(char *str)
     long    perm = PERM_NULL;
     char    *cp;
 
-    cp = strtok (str, "|");
-    do
+    for ( cp = strtok (str, "|"); cp != (char *)NULL;
+          cp = strtok ((char *) NULL, "|") )
     {
         if ( !strcasecmp (cp, "perm_null") ) { perm |= PERM_NULL; }
         else if ( !strcasecmp (cp, "perm_deny") ) { perm |= PERM_DENY; }
         else if ( !strcasecmp (cp, "perm_slowmsgs") ) { perm |= PERM_SLOWMSGS; }
-    } while ( (cp = strtok ((char *) NULL, "|")) != (char *)NULL );
+    }
 
     return (perm);
 }
-- 
2.43.0


From e2eda27dcfb7d63ad4442620b7018339138eafec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:19 +0000
Subject: [PATCH 40/59] fix: initialise all of restart_argv

/restart looked at the last element, which was never set.
---
 server/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/main.c b/server/main.c
index f6ac6c6..7b7e4a4 100644
--- a/server/main.c
+++ b/server/main.c
@@ -78,7 +78,7 @@ int main(int argc, char* argv[])
 
     /* save off args that we need in /restart */
     restart_argc = argc+2;    /* room for the -R and NULL args */
-    restart_argv = (char **) malloc (restart_argc * sizeof (char *));
+    restart_argv = (char **) calloc (restart_argc, sizeof (char *));
 
     if ( restart_argv == (char **)NULL )
     {
-- 
2.43.0


From 15c3e1b40b959ee08dc08bf68d4952727aa7ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:59 +0000
Subject: [PATCH 41/59] fix: reuse the first empty place of a database list

icbdb_list_find() reported place 0 whenever a list had a gap anywhere, so
adding to such a list overwrote its first element.
---
 server/icbdb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/icbdb.c b/server/icbdb.c
index 3636d71..6ba46ae 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -337,7 +337,7 @@ icbdb_list_find (const char *category, const char *attribute, icbdb_type type, v
             {
                 if (*first_empty == -1)
                 {
-                    *first_empty = 0;
+                    *first_empty = *index;
                 }
             }
 
-- 
2.43.0


From 36eb23abcdfef13707418744184306dc5a553225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:26 +0000
Subject: [PATCH 42/59] fix: refuse database entries that could not be read
 back

dbm_store() accepted keys and values of any size, but load_file() rejects
a file holding an entry larger than ICB_DBM_MAX_RECSIZE as a whole, so a
single oversized entry made the complete database unreadable.
---
 server/icb_dbm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/icb_dbm.c b/server/icb_dbm.c
index fb9c421..9005f8e 100644
--- a/server/icb_dbm.c
+++ b/server/icb_dbm.c
@@ -383,6 +383,11 @@ int dbm_store(DBM *db, datum key, datum content, int flags)
     if (!db || !key.dptr) return -1;
     if (!content.dptr && content.dsize > 0) return -1;
 
+    /* Nothing that load_file() would reject may get into the database. */
+    if ((unsigned)key.dsize > ICB_DBM_MAX_RECSIZE ||
+        (unsigned)content.dsize > ICB_DBM_MAX_RECSIZE)
+        return -1;
+
     entry_t *e = ht_find(db, key.dptr, key.dsize, NULL, NULL);
     if (e) {
         if (flags == DBM_INSERT)
-- 
2.43.0


From 78ddf4c854bad757cea5aae5a23f8e3cf9375818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:15 +0000
Subject: [PATCH 43/59] fix: finish the current command before exiting on a
 signal

icbexit() was called from the signal handler itself, wherever the server
happened to be, and wrote the database with half of the changes of the
command in progress (such as a nickname with a password but no address).
The serve loop now exits between two commands.
---
 server/main.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/server/main.c b/server/main.c
index 7b7e4a4..eab72b0 100644
--- a/server/main.c
+++ b/server/main.c
@@ -40,14 +40,21 @@
 
 #include "pktserv/pktserv.h"
 
+/* have the next turn of the serve loop exit: the signal may have come in
+ * the middle of a command, whose changes must be saved as a whole */
+static void exitsoon(int sig)
+{
+    TimeToDie = 1;
+}
+
 void trapsignals(void)
 {
     /* cycle the logs on a restart signal */
     signal(SIGHUP, icbcyclelogs);
 
     /* exit on a hangup or terminate signal */
-    signal(SIGTERM, icbexit);
-    signal(SIGINT, icbexit);
+    signal(SIGTERM, exitsoon);
+    signal(SIGINT, exitsoon);
 
     /* special internal signals to restart the server */
     signal(SIGUSR1, icbdump);
-- 
2.43.0


From 5beb36c7e4186bd3bd941b188c08cd1314eca19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:25 +0000
Subject: [PATCH 44/59] fix: don't break a long word of a whois text inside a
 character

---
 server/access.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/access.c b/server/access.c
index e1a4afa..fbda643 100644
--- a/server/access.c
+++ b/server/access.c
@@ -686,7 +686,10 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
                     {
                         if ((p - lastw) > 40)
                         {
-                            /* have to break in the middle of a word */
+                            /* have to break in the middle of a word,
+                             * but not in the middle of a character */
+                            while (p - 1 > s && (*(p - 1) & 0xC0) == 0x80)
+                                p--;
                             tmp1 = *(p - 1);
                             tmp2 = *p;
                             *(p - 1) = '-';
-- 
2.43.0


From d44d0e67573e85fc756fccbdf3dc9bcccdf3d792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:25 +0000
Subject: [PATCH 45/59] fix: don't show the last line of a whois text twice

---
 server/access.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/access.c b/server/access.c
index fbda643..a3ffe9b 100644
--- a/server/access.c
+++ b/server/access.c
@@ -726,10 +726,11 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
                 }
 
                 if (count > 0)
+                {
                     strcpy(temp, "Text: ");
-
-                strcat(temp, s);
-                sends_cmdout(forWhom, temp);
+                    strcat(temp, s);
+                    sends_cmdout(forWhom, temp);
+                }
             }
         }
         else
-- 
2.43.0


From c463090cd60abc52d2d2c3dc35015df510d28f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:37 +0000
Subject: [PATCH 46/59] fix: don't strcpy a user's password onto itself

---
 server/access.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/access.c b/server/access.c
index a3ffe9b..a4581c3 100644
--- a/server/access.c
+++ b/server/access.c
@@ -488,7 +488,7 @@ int nickwrite(int forWhom, char *password, int verifyOnly, DBM *openDb)
             sendstatus(forWhom, "Register", "Nick registered");
             strcpy(u_tab[forWhom].realname, "registered");
             nickwritetime(forWhom, 0, NULL);
-            strcpy(u_tab[forWhom].password, password); /* jonl */
+            memmove(u_tab[forWhom].password, password, strlen(password) + 1); /* jonl; may be the same */
             retval = 0;
         }
     }
@@ -504,7 +504,7 @@ int nickwrite(int forWhom, char *password, int verifyOnly, DBM *openDb)
             sendstatus(forWhom, "Register", "Nick registered");
             strcpy(u_tab[forWhom].realname, "registered");
             nickwritetime(forWhom, 0, NULL);
-            strcpy(u_tab[forWhom].password, password); /* jonl */
+            memmove(u_tab[forWhom].password, password, strlen(password) + 1); /* jonl; may be the same */
             for (i = 1; i < MAX_GROUPS; i++)
                 if ((g_tab[i].modtimeout > 0.0) &&
                     (strcmp(g_tab[i].missingmod, 
-- 
2.43.0


From 76f8f57a84b053929306e66977c97817189ac93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 47/59] fix: don't overflow when a limit is given in minutes

---
 server/s_group.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index cae3d2f..3ad774c 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -9,6 +9,7 @@
 #include <time.h>
 #endif
 #include <stdlib.h>
+#include <limits.h>
 #include <assert.h>
 #include <string.h>
 
@@ -1083,7 +1084,18 @@ int set_name(int n, int group, char *name)
     return 0;
 }
 
+/* a number of minutes in seconds, limited to what an int can hold */
+static int minutes_to_secs(const char *s)
+{
+    long m = strtol(s, (char **)NULL, 10);
+
+    if (m > INT_MAX / 60)
+        m = INT_MAX / 60;
+    if (m < -(INT_MAX / 60))
+        m = -(INT_MAX / 60);
 
+    return (int)m * 60;
+}
 
 
 int s_status(int n, int argc)
@@ -1489,7 +1501,7 @@ visible.
                                 }
                                 else
                                 {
-                                    int new_ib = atoi (p2) * 60;
+                                    int new_ib = minutes_to_secs (p2);
 
 #ifdef MAX_IDLE
                                     if ( new_ib < 0 || new_ib > MAX_IDLE )
@@ -1603,7 +1615,7 @@ visible.
                                 }
                                 else
                                 {
-                                    int new_im = atoi (p2) * 60;
+                                    int new_im = minutes_to_secs (p2);
 
                                     if ( new_im == 0 )
                                     {
-- 
2.43.0


From 0193143a65789db8c6453b0cf1b2ff12e1a2d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:21 +0000
Subject: [PATCH 48/59] fix: limit the time until a shutdown to what can be
 represented

---
 server/s_admin.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/server/s_admin.c b/server/s_admin.c
index 4b49c55..c80a841 100644
--- a/server/s_admin.c
+++ b/server/s_admin.c
@@ -11,6 +11,8 @@
 #include <fcntl.h>
 #include <string.h>
 
+#include <limits.h>
+
 #include "server.h"
 #include "externs.h"
 #include "users.h"
@@ -90,6 +92,7 @@ int s_drop(int n, int argc)
 int s_shutdown(int n, int argc)
 {
     int user;
+    long when;
     char line[255];
 
     /* before we even look at what they sent us, are the allowed? */
@@ -106,14 +109,18 @@ int s_shutdown(int n, int argc)
            anything anyhow.
            we are presuming that no warning is given */
         /* icbexit(); */
-        sprintf(line, "Server going down in %ld minute(s)!", 
-                atol(fields[1]));
+        when = atol(fields[1]);
+        if (when > INT_MAX)
+            when = INT_MAX;
+        if (when < -INT_MAX)
+            when = -INT_MAX;
+        sprintf(line, "Server going down in %ld minute(s)!", when);
         for (user=0; user < MAX_REAL_USERS; user++)
             if (u_tab[user].login > LOGIN_FALSE)
                 sendimport(user,"Shutdown", line);
-        TimeToDie = time(NULL) + 60.0 * atol(fields[1]);
+        TimeToDie = time(NULL) + 60.0 * when;
         ShutdownNotify = 0;
-        if (atol(fields[1]) < 300)
+        if (when < 300)
             ShutdownNotify++;
     } else {
         mdb(MSG_INFO, "shutdown: wrong number of parz");
-- 
2.43.0


From 04c05663dd359479b752e23893a4d140702aa184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:22 +0000
Subject: [PATCH 49/59] fix: don't spin while a TLS handshake waits to write
 and the client sends more

The bytes can't be read before the write is done, so poll() kept
reporting them.
---
 pktserv/pktserv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index d370c4c..5dbc108 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -511,9 +511,10 @@ update_pollfd_events(void)
                 break;
             case WANT_SSL_ACCEPT:
                 /* Start the handshake right away; after that it mostly
-                 * waits for the client. */
+                 * waits for the client. What the client sends meanwhile
+                 * can't be read before the write it waits for is done. */
                 if (sslsocket_accept_want_write(cbuf))
-                    events |= POLLOUT;
+                    events = POLLOUT;
                 break;
             default:
                 break;
-- 
2.43.0


From a280b279ef8bfe537ccaac9e37c2a71858bdce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:44 +0000
Subject: [PATCH 50/59] fix: resolve IPv4-mapped addresses of clients of a
 dual-stack listener

An IPv4 client of the IPv6 listening socket was looked up by its mapped
address, for which the forward lookup never matched, so it was never known
by its host name and rules for that name did not apply to it. [C27]
---
 pktserv/getrname.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pktserv/getrname.c b/pktserv/getrname.c
index 7243837..064557c 100644
--- a/pktserv/getrname.c
+++ b/pktserv/getrname.c
@@ -127,6 +127,26 @@ char *getremotename(int socketfd)
         return(NULL);
     }
 
+    /*
+     * An IPv4 client of a dual-stack listener has an IPv4-mapped address;
+     * resolve it as what it is, or the forward lookup can never match.
+     */
+    if (rs.ss_family == AF_INET6) {
+        struct sockaddr_in6 sa6;
+
+        memcpy(&sa6, &rs, sizeof(sa6));
+        if (IN6_IS_ADDR_V4MAPPED(&sa6.sin6_addr)) {
+            struct sockaddr_in sa4;
+
+            memset(&sa4, 0, sizeof(sa4));
+            sa4.sin_family = AF_INET;
+            sa4.sin_port = sa6.sin6_port;
+            memcpy(&sa4.sin_addr, &sa6.sin6_addr.s6_addr[12], 4);
+            memcpy(&rs, &sa4, sizeof(sa4));
+            rs_size = sizeof(sa4);
+        }
+    }
+
     /* get a numeric representation for logging / fallback */
     if (addr_to_numeric((struct sockaddr *)&rs, rs_size,
                         numerichost, sizeof(numerichost)) != 0) {
-- 
2.43.0


From fa18ad70d7495896b691aa2c812a10802780276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:28 +0000
Subject: [PATCH 51/59] fix: don't let a connection take the slot of the
 server's own user

When all other descriptors were in use, the next connection got the slot of
the nickname server, which is always signed on: without any login it could
send commands and messages as "Server". [C04]
---
 server/send.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/server/send.c b/server/send.c
index 3940023..8b66998 100644
--- a/server/send.c
+++ b/server/send.c
@@ -190,9 +190,12 @@ void s_new_user(int n, int secure)
 {
     char *cp;
 
-    /* Check bounds: file descriptor must be < MAX_USERS to use as array index */
-    if (n < 0 || n >= MAX_USERS) {
-        vmdb(MSG_ERR, "s_new_user: invalid file descriptor %d (must be 0-%d), closing connection", n, MAX_USERS - 1);
+    /*
+     * Check bounds: the file descriptor is used as array index, and the last
+     * entry belongs to the server's own user
+     */
+    if (n < 0 || n >= MAX_REAL_USERS) {
+        vmdb(MSG_ERR, "s_new_user: invalid file descriptor %d (must be 0-%d), closing connection", n, MAX_REAL_USERS - 1);
         pktserv_disconnect(n);
         return;
     }
-- 
2.43.0


From 3b73dbce684759d293ff59408412ab3fa678a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:01 +0000
Subject: [PATCH 52/59] fix: hand every connection over to the restarted server

pktserv_loadsockets() ran before anything it uses was allocated, kept
none of the connections' state and never listened again, so that
/restart took the whole service down.
---
 pktserv/pktserv.c | 63 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 5dbc108..d64a858 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -46,8 +46,6 @@
 
 cbuf_t *cbufs;    /* array of user packet buffers */
 
-int port_fd;    /* plaintext listen port */
-int sslport_fd; /* ssl listen port's file descriptor  */
 
 
 struct pollfd* g_pollset;
@@ -772,39 +770,58 @@ int pktserv_disconnect(int s)
     return 0;
 }
 
+/* what the next process has to do with a connection */
+static SocketState
+dump_state(cbuf_t *cbuf)
+{
+    switch (cbuf->state) {
+        case LISTEN_SOCKET:
+        case LISTEN_SOCKET_SSL:
+        case DISCONNECTED:
+        case WANT_DISCONNECT:
+        case WANT_RAW_DISCONNECT:
+            return cbuf->state;
+        default:
+            break;
+    }
+
+    /* neither an SSL session nor a half-transferred packet can be passed on */
+    if (cbuf->is_ssl || cbuf->state == WANT_SSL_ACCEPT || !cbuf->newmsg ||
+        !TAILQ_EMPTY(&(cbuf->wlist)))
+        return WANT_DISCONNECT;
+
+    return (cbuf->state == ACCEPTED) ? ACCEPTED : WANT_HEADER;
+}
+
 void pktserv_dumpsockets(FILE *dump)
 {
     int i;
 
     fprintf(dump, "%d\n", g_pollsetsize);
     for (i = 0; i < g_pollsetsize; ++i) {
-        fprintf(dump, "%d\n", g_pollset[i].fd);
+        int fd = g_pollset[i].fd;
+        fprintf(dump, "%d %d\n", fd, (int)dump_state(&cbufs[fd]));
     }
-
-    fprintf(dump, "%d\n", port_fd);
-    fprintf(dump, "%d\n", sslport_fd);
 }
 
-/* I'm not sure this works. It'll probably work for regular sockets
- * if everything's flushed for that socket, but who knows. For SSL
- * sockets? It seems the SSL state would be all fubared.
- *
- * The fact that this *ever* worked (going back to 1988) is a complete
- * fluke as far as I know.
- */
+/* Take over the sockets the previous process has left open for us. */
 void pktserv_loadsockets(FILE *dump)
 {
-    int i;
-    int k;
+    int i, count, fd, state;
 
-    fscanf(dump, "%d\n", &k);
-    g_pollsetsize = k;
+    if (fscanf(dump, "%d\n", &count) != 1)
+        return;
 
-    for (i = 0; i < g_pollsetsize; ++i) {
-        fscanf(dump, "%d\n", &k);
-        add_pollfd(k);
-    }
+    for (i = 0; i < count; ++i) {
+        if (fscanf(dump, "%d %d\n", &fd, &state) != 2)
+            return;
+        if (fd < 0 || fd >= MAX_USERS || cbufs[fd].state != DISCONNECTED)
+            continue;
 
-    fscanf(dump, "%d\n", &port_fd);
-    fscanf(dump, "%d\n", &sslport_fd);
+        cbufs[fd].fd = fd;
+        cbufs[fd].disp = OK;
+        cbufs[fd].newmsg = 1;
+        cbufs[fd].state = (SocketState)state;
+        add_pollfd(fd);
+    }
 }
-- 
2.43.0


From 64597ee68f90ca5b2e779dae1472cab46586a271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:01 +0000
Subject: [PATCH 53/59] fix: restore lists in their order and the time of the
 last away message after a restart

---
 server/icbutil.c | 114 +++++++++++++----------------------------------
 1 file changed, 30 insertions(+), 84 deletions(-)

diff --git a/server/icbutil.c b/server/icbutil.c
index b7ddddb..55b0b61 100644
--- a/server/icbutil.c
+++ b/server/icbutil.c
@@ -82,6 +82,16 @@ void icbexit(int sig)
 }
 
 
+/* write a list, the oldest entry first: nlput() then restores its order */
+static void dumplist(FILE *dump, NAMLIST *nl)
+{
+    STRLIST *sp;
+
+    fprintf(dump, "%u\n", nlcount(*nl));
+    for (sp = nl->tail; sp; sp = sp->prev)
+        fprintf(dump, "%sX\n", sp->str);
+}
+
 /* icbdump
  *
  * dump the current state to a file so if we restart we can pick up
@@ -90,7 +100,7 @@ void icbexit(int sig)
 void icbdump(int sig)
 {
     FILE *dump;
-    int i, j, k;
+    int i;
 
     vmdb(MSG_ALL, "dumping current state to %s...", dumpfile);
     if ((dump = fopen(dumpfile, "w")) == NULL) {
@@ -123,36 +133,12 @@ void icbdump(int sig)
         fprintf(dump, "%ld\n", u_tab[i].t_sent);
         fprintf(dump, "%ld\n", u_tab[i].t_recv);
         fprintf(dump, "%ld\n", u_tab[i].t_group);
-        k = nlcount(*u_tab[i].pri_n_hushed);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(u_tab[i].pri_n_hushed));
-        k = nlcount(*u_tab[i].pub_n_hushed);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(u_tab[i].pub_n_hushed));
-        k = nlcount(*u_tab[i].pri_s_hushed);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(u_tab[i].pri_s_hushed));
-        k = nlcount(*u_tab[i].pub_s_hushed);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(u_tab[i].pub_s_hushed));
-        k = nlcount(*u_tab[i].n_notifies);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(u_tab[i].n_notifies));
-        k = nlcount(*u_tab[i].s_notifies);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(u_tab[i].s_notifies));
+        dumplist(dump, u_tab[i].pri_n_hushed);
+        dumplist(dump, u_tab[i].pub_n_hushed);
+        dumplist(dump, u_tab[i].pri_s_hushed);
+        dumplist(dump, u_tab[i].pub_s_hushed);
+        dumplist(dump, u_tab[i].n_notifies);
+        dumplist(dump, u_tab[i].s_notifies);
     }
 
     for (i = 0; i < MAX_GROUPS; i++)
@@ -165,58 +151,18 @@ void icbdump(int sig)
         fprintf(dump, "%ld\n", g_tab[i].modtimeout);
         fprintf(dump, "%sX\n", g_tab[i].missingmod);
         fprintf(dump, "%d\n", g_tab[i].volume);
-        k = nlcount(*g_tab[i].n_invites);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].n_invites));
-        k = nlcount(*g_tab[i].nr_invites);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].nr_invites));
-        k = nlcount(*g_tab[i].s_invites);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].s_invites));
-        k = nlcount(*g_tab[i].sr_invites);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].sr_invites));
-        k = nlcount(*g_tab[i].n_bars);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].n_bars));
-        k = nlcount(*g_tab[i].n_nr_bars);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].n_nr_bars));
-        k = nlcount(*g_tab[i].s_bars);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].s_bars));
-        k = nlcount(*g_tab[i].s_nr_bars);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].s_nr_bars));
-
-        k = nlcount(*g_tab[i].n_talk);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].n_talk));
-
-        k = nlcount(*g_tab[i].nr_talk);
-        fprintf(dump, "%d\n", k);
-        if (k > 0)
-            for (j = 0; j < k; j++)
-                fprintf(dump, "%sX\n", nlget(g_tab[i].nr_talk));
+        dumplist(dump, g_tab[i].n_invites);
+        dumplist(dump, g_tab[i].nr_invites);
+        dumplist(dump, g_tab[i].s_invites);
+        dumplist(dump, g_tab[i].sr_invites);
+        dumplist(dump, g_tab[i].n_bars);
+        dumplist(dump, g_tab[i].n_nr_bars);
+        dumplist(dump, g_tab[i].s_bars);
+        dumplist(dump, g_tab[i].s_nr_bars);
+
+        dumplist(dump, g_tab[i].n_talk);
+
+        dumplist(dump, g_tab[i].nr_talk);
 
         fprintf(dump, "%d\n", g_tab[i].size);
 
@@ -283,7 +229,7 @@ void icbload(int sig)
         fscanf(dump, "%d\n", &j);
         u_tab[i].lastaway = j;
         fscanf(dump, "%ld\n", &k);
-        u_tab[i].lastawaytime = j;
+        u_tab[i].lastawaytime = k;
         fscanf(dump, "%d\n", &j);
         u_tab[i].login = j;
         fscanf(dump, "%d\n", &j);
-- 
2.43.0


From 85f0d6d2988a5a9220933e04d6025e68313f5414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:01 +0000
Subject: [PATCH 54/59] fix: set the host name and the SSL context up when
 restarting

---
 server/main.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/server/main.c b/server/main.c
index eab72b0..a04b970 100644
--- a/server/main.c
+++ b/server/main.c
@@ -325,6 +325,20 @@ int main(int argc, char* argv[])
             strncpy(thishost, FQDN, MAXHOSTNAMELEN);
 #endif    /* SHORT_HOSTNAME && FQDN */
 
+#ifdef BIND_HOSTNAME
+        if ( (char *)NULL == bindhost )
+            bindhost = BIND_HOSTNAME;
+#endif    /* BIND_HOSTNAME */
+
+        if ( (char *) NULL != bindhost && '\0' != *bindhost )
+            strncpy (thishost, bindhost, MAXHOSTNAMELEN);
+
+#ifdef HAVE_SSL
+        /* the listening sockets are passed on to us, the SSL context isn't */
+        if (sslport && init_ssl(pem) != 0)
+            mdb(MSG_ERR, "couldn't create SSL context. Do you have a valid PEM file?");
+#endif
+
         init_groups();
         clear_users();
         trapsignals(); 
-- 
2.43.0


From c0e8cc50c1625c6bcb73ff6a0f9b3482246f294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:42 +0000
Subject: [PATCH 55/59] fix: refuse a restart when the state can't be saved or
 no process can be forked

A failed dump restarted into an empty (or stale) state, and a failed
fork() ended the server.
---
 server/icbutil.c | 24 +++++++++++++++++++-----
 server/icbutil.h |  7 +++++++
 server/s_admin.c | 11 ++++++++---
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/server/icbutil.c b/server/icbutil.c
index 55b0b61..05165d3 100644
--- a/server/icbutil.c
+++ b/server/icbutil.c
@@ -92,12 +92,12 @@ static void dumplist(FILE *dump, NAMLIST *nl)
         fprintf(dump, "%sX\n", sp->str);
 }
 
-/* icbdump
+/* icbsavestate
  *
  * dump the current state to a file so if we restart we can pick up
- * where we left off.
+ * where we left off. Returns -1 if it couldn't be written completely.
  */
-void icbdump(int sig)
+int icbsavestate(void)
 {
     FILE *dump;
     int i;
@@ -105,7 +105,7 @@ void icbdump(int sig)
     vmdb(MSG_ALL, "dumping current state to %s...", dumpfile);
     if ((dump = fopen(dumpfile, "w")) == NULL) {
         vmdb(MSG_ERR, "%s open: %s", dumpfile, strerror(errno));
-        return;
+        return -1;
     }
 
     pktserv_dumpsockets(dump);
@@ -172,8 +172,22 @@ void icbdump(int sig)
 
     }
 
-    fclose(dump);
+    i = ferror(dump);
+    if (fclose(dump) != 0 || i) {
+        vmdb(MSG_ERR, "%s write: %s", dumpfile, strerror(errno));
+        return -1;
+    }
     mdb(MSG_ALL, "state dumped.");
+    return 0;
+}
+
+/* icbdump
+ *
+ * dump the current state when we are sent the signal to do so.
+ */
+void icbdump(int sig)
+{
+    icbsavestate();
 }
 
 /* icbload
diff --git a/server/icbutil.h b/server/icbutil.h
index 24c605b..932dafc 100644
--- a/server/icbutil.h
+++ b/server/icbutil.h
@@ -28,6 +28,13 @@ void icbcyclelogs(int sig);
 void icbexit(int sig);
 
 
+/* icbsavestate
+ *
+ * dump the current state to a file so if we restart we can pick up
+ * where we left off. Returns -1 if it couldn't be written completely.
+ */
+int icbsavestate(void);
+
 /* icbdump
  *
  * dump the current state to a file so if we restart we can pick up
diff --git a/server/s_admin.c b/server/s_admin.c
index c80a841..c5648f8 100644
--- a/server/s_admin.c
+++ b/server/s_admin.c
@@ -134,6 +134,8 @@ int s_restart(int n, int argc)
     char *env[2];
     char tbuf[255];
     int quiet = 0;
+    int saved;
+    pid_t pid = -1;
 
     /* before we even look at what they sent us, are the allowed? */
     if (!check_auth(n)) {
@@ -159,7 +161,7 @@ int s_restart(int n, int argc)
     }
 
     mdb(MSG_ALL, "[RESTART] Server restarting");
-    icbdump(0);
+    saved = icbsavestate();
     icbdb_sync();
     icbcloselogs(0);
 
@@ -202,9 +204,12 @@ int s_restart(int n, int argc)
     env[1] = NULL;
     ret = fcntl(6, F_GETFD, 0);
 
-    if (fork()) exit(0);
+    if (saved == 0) {
+        pid = fork();
+        if (pid > 0) exit(0);
+    }
 
-    if (execve(restart_argv[0], restart_argv, env) < 0)
+    if (saved != 0 || pid < 0 || execve(restart_argv[0], restart_argv, env) < 0)
     {
         sprintf(tbuf, "[ERROR] RESTART failed: %s", 
                 strerror(errno));
-- 
2.43.0


From 5e820881407fe9028fd0799fb1faca71822f3da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:35 +0000
Subject: [PATCH 56/59] fix: keep spaces and line breaks in what is dumped for
 a restart

A leading space of a list entry or an idle-boot message was lost; a
line break in a topic or a password shifted everything that followed.
---
 server/icbutil.c | 235 +++++++++++++++--------------------------------
 1 file changed, 75 insertions(+), 160 deletions(-)

diff --git a/server/icbutil.c b/server/icbutil.c
index 05165d3..970267e 100644
--- a/server/icbutil.c
+++ b/server/icbutil.c
@@ -82,6 +82,30 @@ void icbexit(int sig)
 }
 
 
+/* write a string. It may contain anything but a NUL, so its length goes
+ * first.
+ */
+static void dumpstr(FILE *dump, const char *str)
+{
+    fprintf(dump, "%u %s\n", (unsigned)strlen(str), str);
+}
+
+/* read a string written by dumpstr() */
+static void loadstr(FILE *dump, char *str, size_t size)
+{
+    unsigned len = 0;
+    size_t n = 0;
+    int c;
+
+    memset(str, 0, size);
+    fscanf(dump, "%u", &len);
+    getc(dump);
+    while (len-- > 0 && (c = getc(dump)) != EOF)
+        if (n < size - 1)
+            str[n++] = c;
+    getc(dump);
+}
+
 /* write a list, the oldest entry first: nlput() then restores its order */
 static void dumplist(FILE *dump, NAMLIST *nl)
 {
@@ -89,7 +113,19 @@ static void dumplist(FILE *dump, NAMLIST *nl)
 
     fprintf(dump, "%u\n", nlcount(*nl));
     for (sp = nl->tail; sp; sp = sp->prev)
-        fprintf(dump, "%sX\n", sp->str);
+        dumpstr(dump, sp->str);
+}
+
+/* read a list written by dumplist() */
+static void loadlist(FILE *dump, NAMLIST *nl)
+{
+    char name[256];
+    int j = 0;
+
+    for (fscanf(dump, "%d\n", &j); j > 0; j--) {
+        loadstr(dump, name, sizeof(name));
+        nlput(nl, name);
+    }
 }
 
 /* icbsavestate
@@ -115,13 +151,13 @@ int icbsavestate(void)
 
     for (i = 0; i < MAX_USERS; i++)
     {
-        fprintf(dump, "%sX\n", u_tab[i].loginid);
-        fprintf(dump, "%sX\n", u_tab[i].nodeid);
-        fprintf(dump, "%sX\n", u_tab[i].nickname);
-        fprintf(dump, "%sX\n", u_tab[i].password);
-        fprintf(dump, "%sX\n", u_tab[i].realname);
-        fprintf(dump, "%sX\n", u_tab[i].group);
-        fprintf(dump, "%sX\n", u_tab[i].awaymsg);
+        dumpstr(dump, u_tab[i].loginid);
+        dumpstr(dump, u_tab[i].nodeid);
+        dumpstr(dump, u_tab[i].nickname);
+        dumpstr(dump, u_tab[i].password);
+        dumpstr(dump, u_tab[i].realname);
+        dumpstr(dump, u_tab[i].group);
+        dumpstr(dump, u_tab[i].awaymsg);
         fprintf(dump, "%d\n", u_tab[i].lastaway);
         fprintf(dump, "%ld\n", u_tab[i].lastawaytime);
         fprintf(dump, "%d\n", u_tab[i].login);
@@ -143,13 +179,13 @@ int icbsavestate(void)
 
     for (i = 0; i < MAX_GROUPS; i++)
     {
-        fprintf(dump, "%sX\n", g_tab[i].name);
-        fprintf(dump, "%sX\n", g_tab[i].topic);
+        dumpstr(dump, g_tab[i].name);
+        dumpstr(dump, g_tab[i].topic);
         fprintf(dump, "%d\n", g_tab[i].visibility);
         fprintf(dump, "%d\n", g_tab[i].control);
         fprintf(dump, "%d\n", g_tab[i].mod);
         fprintf(dump, "%ld\n", g_tab[i].modtimeout);
-        fprintf(dump, "%sX\n", g_tab[i].missingmod);
+        dumpstr(dump, g_tab[i].missingmod);
         fprintf(dump, "%d\n", g_tab[i].volume);
         dumplist(dump, g_tab[i].n_invites);
         dumplist(dump, g_tab[i].nr_invites);
@@ -167,7 +203,7 @@ int icbsavestate(void)
         fprintf(dump, "%d\n", g_tab[i].size);
 
         fprintf(dump, "%d\n", g_tab[i].idleboot);
-        fprintf(dump, "%sX\n", g_tab[i].idleboot_msg);
+        dumpstr(dump, g_tab[i].idleboot_msg);
         fprintf(dump, "%d\n", g_tab[i].idlemod);
 
     }
@@ -199,7 +235,6 @@ void icbload(int sig)
     FILE *dump;
     int i,j;
     long k;
-    char name[256], name2[256];
 
     vmdb(MSG_ALL, "loading state from %s...", dumpfile);
     if ((dump = fopen(dumpfile, "r")) == NULL) {
@@ -219,27 +254,13 @@ void icbload(int sig)
 
     for (i = 0; i < MAX_USERS; i++)
     {
-        fgets(name, sizeof(name), dump);
-        strncpy(u_tab[i].loginid, name, strlen(name) - 2);
-        u_tab[i].loginid[strlen(name)-2] = '\0';
-        fgets(name, sizeof(name), dump);
-        strncpy(u_tab[i].nodeid, name, strlen(name) - 2);
-        u_tab[i].nodeid[strlen(name)-2] = '\0';
-        fgets(name, sizeof(name), dump);
-        strncpy(u_tab[i].nickname, name, strlen(name) - 2);
-        u_tab[i].nickname[strlen(name)-2] = '\0';
-        fgets(name, sizeof(name), dump);
-        strncpy(u_tab[i].password, name, strlen(name) - 2);
-        u_tab[i].password[strlen(name)-2] = '\0';
-        fgets(name, sizeof(name), dump);
-        strncpy(u_tab[i].realname, name, strlen(name) - 2);
-        u_tab[i].realname[strlen(name)-2] = '\0';
-        fgets(name, sizeof(name), dump);
-        strncpy(u_tab[i].group, name, strlen(name) - 2);
-        u_tab[i].group[strlen(name)-2] = '\0';
-        fgets(name, sizeof(name), dump);
-        strncpy(u_tab[i].awaymsg, name, strlen(name) - 2);
-        u_tab[i].awaymsg[strlen(name)-2] = '\0';
+        loadstr(dump, u_tab[i].loginid, sizeof(u_tab[i].loginid));
+        loadstr(dump, u_tab[i].nodeid, sizeof(u_tab[i].nodeid));
+        loadstr(dump, u_tab[i].nickname, sizeof(u_tab[i].nickname));
+        loadstr(dump, u_tab[i].password, sizeof(u_tab[i].password));
+        loadstr(dump, u_tab[i].realname, sizeof(u_tab[i].realname));
+        loadstr(dump, u_tab[i].group, sizeof(u_tab[i].group));
+        loadstr(dump, u_tab[i].awaymsg, sizeof(u_tab[i].awaymsg));
         fscanf(dump, "%d\n", &j);
         u_tab[i].lastaway = j;
         fscanf(dump, "%ld\n", &k);
@@ -262,59 +283,19 @@ void icbload(int sig)
         u_tab[i].t_recv = k;
         fscanf(dump, "%ld\n", &k);
         u_tab[i].t_group = k;
-        fscanf(dump, "%d\n", &j);
-        for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(u_tab[i].pri_n_hushed, name2);
-        }
-        fscanf(dump, "%d\n", &j);
-        for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(u_tab[i].pub_n_hushed, name2);
-        }
-        fscanf(dump, "%d\n", &j);
-        for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(u_tab[i].pri_s_hushed, name2);
-        }
-        fscanf(dump, "%d\n", &j);
-        for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(u_tab[i].pub_s_hushed, name2);
-        }
-        fscanf(dump, "%d\n", &j);
-        for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(u_tab[i].n_notifies, name2);
-        }
-        fscanf(dump, "%d\n", &j);
-        for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(u_tab[i].s_notifies, name2);
-        }
+        loadlist(dump, u_tab[i].pri_n_hushed);
+        loadlist(dump, u_tab[i].pub_n_hushed);
+        loadlist(dump, u_tab[i].pri_s_hushed);
+        loadlist(dump, u_tab[i].pub_s_hushed);
+        loadlist(dump, u_tab[i].n_notifies);
+        loadlist(dump, u_tab[i].s_notifies);
     }
 
     for (i = 0; i < MAX_GROUPS; i++)
     {
-        fgets(name, sizeof (name), dump);
-        strncpy(g_tab[i].name, name, strlen(name) - 2);
-        g_tab[i].name[strlen(name)-2] = '\0';
+        loadstr(dump, g_tab[i].name, sizeof(g_tab[i].name));
 
-        fgets(name, sizeof (name), dump);
-        strncpy(g_tab[i].topic, name, strlen(name) - 2);
-        g_tab[i].topic[strlen(name)-2] = '\0';
+        loadstr(dump, g_tab[i].topic, sizeof(g_tab[i].topic));
 
         fscanf(dump, "%d\n", &j);
         g_tab[i].visibility = j;
@@ -328,94 +309,30 @@ void icbload(int sig)
         fscanf(dump, "%ld\n", &k);
         g_tab[i].modtimeout = k;
 
-        fgets(name, sizeof (name), dump);
-        strncpy(g_tab[i].missingmod, name, strlen(name) - 2);
-        g_tab[i].missingmod[strlen(name)-2] = '\0';
+        loadstr(dump, g_tab[i].missingmod, sizeof(g_tab[i].missingmod));
 
         fscanf(dump, "%d\n", &j);
         g_tab[i].volume = j;
 
-        fscanf(dump, "%d\n", &j);
-        for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].n_invites, name2);
-        }
+        loadlist(dump, g_tab[i].n_invites);
 
-        fscanf(dump, "%d\n", &j);
-        for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].nr_invites, name2);
-        }
+        loadlist(dump, g_tab[i].nr_invites);
 
-        fscanf(dump, "%d\n", &j);
-        for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].s_invites, name2);
-        }
+        loadlist(dump, g_tab[i].s_invites);
 
-        fscanf(dump, "%d\n", &j);
-        for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].sr_invites, name2);
-        }
+        loadlist(dump, g_tab[i].sr_invites);
 
-        fscanf(dump, "%d\n", &j);
-        for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].n_bars, name2);
-        }
+        loadlist(dump, g_tab[i].n_bars);
 
-        fscanf(dump, "%d\n", &j);
-        for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].n_nr_bars, name2);
-        }
+        loadlist(dump, g_tab[i].n_nr_bars);
 
-        fscanf(dump, "%d\n", &j);
-        for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].s_bars, name2);
-        }
+        loadlist(dump, g_tab[i].s_bars);
 
-        fscanf(dump, "%d\n", &j);
-        for (; j > 0; j--) {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].s_nr_bars, name2);
-        }
+        loadlist(dump, g_tab[i].s_nr_bars);
 
-        fscanf(dump, "%d\n", &j);
-        for (; j > 0; j--)
-        {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].n_talk, name2);
-        }
+        loadlist(dump, g_tab[i].n_talk);
 
-        fscanf(dump, "%d\n", &j);
-        for (; j > 0; j--)
-        {
-            fgets(name, sizeof(name), dump);
-            memset(name2, 0, sizeof(name2));
-            strncpy(name2, name, strlen(name) - 2);
-            nlput(g_tab[i].nr_talk, name2);
-        }
+        loadlist(dump, g_tab[i].nr_talk);
 
         fscanf(dump, "%d\n", &j);
         g_tab[i].size = j;
@@ -423,9 +340,7 @@ void icbload(int sig)
         fscanf(dump, "%d\n", &j);
         g_tab[i].idleboot = j;
 
-        fgets(name, sizeof(name), dump);
-        strncpy(g_tab[i].idleboot_msg, name, strlen(name) - 2);
-        g_tab[i].idleboot_msg[strlen(name)-2] = '\0';
+        loadstr(dump, g_tab[i].idleboot_msg, sizeof(g_tab[i].idleboot_msg));
 
         fscanf(dump, "%d\n", &j);
         g_tab[i].idlemod = j;
-- 
2.43.0


From d1b48de9621b7175057b60fbd0c8bdcbb59b58e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:35 +0000
Subject: [PATCH 57/59] fix: keep all forty watches across a restart

---
 server/users.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/users.c b/server/users.c
index 6e785d7..099cb0f 100644
--- a/server/users.c
+++ b/server/users.c
@@ -148,9 +148,9 @@ void clear_users(void)
         u_tab[i].pub_s_hushed = (NAMLIST *) malloc(sizeof(NAMLIST));
         nlinit(u_tab[i].pub_s_hushed, MAX_HUSHED);
         u_tab[i].n_notifies = (NAMLIST *) malloc(sizeof(NAMLIST));
-        nlinit(u_tab[i].n_notifies, MAX_HUSHED);
+        nlinit(u_tab[i].n_notifies, MAX_NOTIFIES);
         u_tab[i].s_notifies = (NAMLIST *) malloc(sizeof(NAMLIST));
-        nlinit(u_tab[i].s_notifies, MAX_HUSHED);
+        nlinit(u_tab[i].s_notifies, MAX_NOTIFIES);
         clear_user_item(i);
     }
 }
-- 
2.43.0


From 43b065818099e4ed0822f83242ab280acddca7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:35 +0000
Subject: [PATCH 58/59] fix: don't leave the first log file open when /log
 turns logging on

---
 server/s_admin.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/s_admin.c b/server/s_admin.c
index c5648f8..39dc9f9 100644
--- a/server/s_admin.c
+++ b/server/s_admin.c
@@ -46,7 +46,8 @@ int s_log(int n, int argc)
                 new_level = 0;
 
             if (new_level > 0 && log_level == 0) {
-                icbopenlogs(0);
+                /* it may be open already: it is at startup, even at level 0 */
+                icbcyclelogs(0);
             } else if (new_level == 0 && log_level > 0) {
                 icbcloselogs(0);
             }
-- 
2.43.0


From 8831c2b1b6f7b82bd06aebbbad025897a9623145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:15 +0000
Subject: [PATCH 59/59] fix: don't wake up for input of slow users that may not
 be read yet

---
 pktserv/pktserv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index d64a858..eee1b89 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -518,6 +518,11 @@ update_pollfd_events(void)
                 break;
         }
 
+        /* Input that may not be read yet must not wake us up: poll()
+         * would return at once over and over again. */
+        if (g_pktserv_cb.ok2read && !g_pktserv_cb.ok2read(fd))
+            events &= ~POLLIN;
+
         g_pollset[i].events = events;
     }
 }
-- 
2.43.0

