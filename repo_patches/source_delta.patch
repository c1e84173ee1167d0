From 376be5432380c3ba74a05ad482a05ec34b8c33fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 01/28] fix: frame parser must not overflow on huge 64 bit
 payload lengths

The announced length was added to the offset without guarding for wrap around, so a
length close to 2^64 passed the completeness check. Also free the frame when its
payload cannot be allocated.
---
 src/frame.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/frame.c b/src/frame.c
index 534dbb1..ee21521 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -317,15 +317,18 @@ wss_frame_t *WSS_parse_frame(char *payload, size_t length, size_t *offset) {
 
     frame->applicationDataLength = frame->payloadLength-frame->extensionDataLength;
     if ( likely(frame->applicationDataLength > 0) ) {
-        if ( likely(*offset+frame->applicationDataLength <= length) ) {
+        if ( likely(*offset <= length && frame->applicationDataLength <= length-*offset) ) {
             if ( unlikely(NULL == (frame->payload = WSS_malloc(frame->applicationDataLength))) ) {
                 WSS_log_error("Unable to allocate frame application data");
+                WSS_free_frame(frame);
                 return NULL;
             }
 
             memcpy(frame->payload, payload+*offset, frame->applicationDataLength);
         }
-        *offset += frame->applicationDataLength;
+
+        // The announced length may be close to the maximum of a 64 bit integer
+        *offset += MIN(frame->applicationDataLength, SIZE_MAX-*offset);
     }
 
     if ( likely(frame->mask && *offset <= length) ) {
-- 
2.43.0


From 71c54e19f40c95eb93db7b77a2da716e01f8c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 02/28] fix: fragments after the first are continuation frames,
 bounded close reason

Every fragment of a message was sent with the opcode of the message instead of the
continuation opcode (RFC 6455 section 5.4). The reason of a close frame was read with
strlen beyond the given length and could exceed the 125 bytes of a control frame.
---
 src/frame.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/frame.c b/src/frame.c
index ee21521..eaafb4b 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -14,6 +14,9 @@
 #include "log.h"
 #include "predict.h"
 
+// A control frame holds at most 125 bytes of which two are the status code
+#define MAX_REASON_LENGTH 123
+
 #if defined(_MSC_VER)
 /* Microsoft C/C++-compatible compiler */
 #include <intrin.h>
@@ -485,6 +488,7 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
     size_t frames_count;
     wss_frame_t **frames;
     wss_close_t code;
+    char reason[MAX_REASON_LENGTH+1];
     char *msg = message;
 
     if ( unlikely(NULL == config) ) {
@@ -519,7 +523,26 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
             code = CLOSE_NORMAL;
         }
 
-        frame = WSS_closing_frame(code, msg);
+        // The message is not necessarily NUL-terminated, and a control frame
+        // must not exceed 125 bytes nor contain half an UTF-8 sequence
+        if ( likely(NULL != msg) ) {
+            j = message_length-(msg-message);
+            if ( unlikely(j > MAX_REASON_LENGTH) ) {
+                j = MAX_REASON_LENGTH;
+                while ( j > 0 && (msg[j] & 0xC0) == 0x80 ) {
+                    j--;
+                }
+            }
+            memcpy(reason, msg, j);
+            reason[j] = '\0';
+            msg = reason;
+        }
+
+        if ( unlikely(NULL == (frame = WSS_closing_frame(code, msg))) ) {
+            WSS_free((void **)&frames);
+            *fs = NULL;
+            return 0;
+        }
         frames[0] = frame;
         return 1;
     }
@@ -537,7 +560,8 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
         }
 
         frame->fin = 0;
-        frame->opcode = opcode;
+        // Only the first frame of a fragmented message carries the opcode
+        frame->opcode = (i == 0) ? opcode : CONTINUATION_FRAME;
         frame->mask = 0;
 
         frame->applicationDataLength = MIN(message_length-(config->size_frame*i), config->size_frame);
-- 
2.43.0


From 01137df3b62076705d8105842ec7656627ccedde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 03/28] fix: retry a read that was interrupted by a signal

---
 src/worker.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index e98b6ac..13ac323 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -595,7 +595,6 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
             n = read(session->fd, buffer, server->config->size_buffer);
             if (n == -1) {
                 if ( unlikely(errno == EINTR) ) {
-                    errno = 0;
                     continue;
                 } else if ( unlikely(errno != EAGAIN && errno != EWOULDBLOCK) ) {
                     WSS_log_error("Read failed: %s", strerror(errno));
@@ -604,7 +603,7 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
                     n = 0;
                 }
             }
-        } while ( unlikely(0) );
+        } while ( unlikely(n == -1 && errno == EINTR) );
     }
 
     return n;
-- 
2.43.0


From e51e4d4e257230cbef7ea8f32a92329a9f18e49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 04/28] fix: receive loop keeps its frames when it waits and
 releases its memory when it fails

---
 src/worker.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 13ac323..7ca8519 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -913,13 +913,23 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
                 WSS_log_trace("Detected that server needs further IO to complete the reading");
                 session->payload = payload;
                 session->payload_length = payload_length;
+                session->offset = offset;
+                session->frames = frames;
+                session->frames_length = frames_length;
 
                 session->event = WRITE;
 
+                WSS_free((void **) &buffer);
+
                 return;
             // An error occured
             case -1:
                 WSS_free((void **) &payload);
+                WSS_free((void **) &buffer);
+                for (i = 0; likely(i < frames_length); i++) {
+                    WSS_free_frame(frames[i]);
+                }
+                WSS_free((void **) &frames);
 
                 frame = WSS_closing_frame(CLOSE_UNEXPECTED, NULL);
                 message_length = WSS_stringify_frame(frame, &message);
@@ -971,6 +981,10 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         if ( unlikely(NULL == (frame = WSS_parse_frame(payload, payload_length, &offset))) ) {
             WSS_log_trace("Unable to parse frame");
             WSS_free((void **) &payload);
+            for (i = 0; likely(i < frames_length); i++) {
+                WSS_free_frame(frames[i]);
+            }
+            WSS_free((void **) &frames);
             session->closing = true;
             return;
         }
-- 
2.43.0


From 82037993de376d9d140e706f05af293c9edd61f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 05/28] fix: the fragment limit counts the fragments of one
 message, not all frames of a read

---
 src/worker.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 7ca8519..0f6b4ee 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -871,6 +871,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     size_t msg_length = 0;
     size_t msg_offset = 0;
     size_t starting_frame = 0;
+    size_t fragments = 0;
     bool fragmented = false;
     char *buffer;
 
@@ -902,6 +903,13 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     session->frames = NULL;
     session->frames_length = 0;
 
+    // Count the fragments already received of an unfinished message
+    for (i = 0; i < frames_length; i++) {
+        if ( likely(frames[i]->opcode <= BINARY_FRAME) ) {
+            fragments = frames[i]->opcode == CONTINUATION_FRAME ? fragments+1 : 1;
+        }
+    }
+
     // If handshake has been made, we can read the websocket frames from
     // the connection
     do {
@@ -1113,8 +1121,11 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         frames[frames_length] = frame;
         frames_length += 1;
 
-        // Check if frame count is exceeded
-        if ( unlikely(frames_length > server->config->max_frames) ) {
+        // Check if frame count of the message is exceeded
+        if ( likely(frame->opcode <= BINARY_FRAME) ) {
+            fragments = frame->opcode == CONTINUATION_FRAME ? fragments+1 : 1;
+        }
+        if ( unlikely(fragments > server->config->max_frames && frame->opcode <= BINARY_FRAME) ) {
             WSS_free_frame(frame);
             frame = WSS_closing_frame(CLOSE_BIG, NULL);
             frames[frames_length-1] = frame;
-- 
2.43.0


From 8266c0270cbe9113ab6958c3e12904b96490f650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 06/28] fix: complete messages and pings do not wait for the
 rest of a later frame or message

---
 src/worker.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 0f6b4ee..e82be0b 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1006,8 +1006,13 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             session->payload = payload;
             session->payload_length = payload_length;
             session->offset = prev_offset;
-            session->frames = frames;
-            session->frames_length = frames_length;
+
+            // Frames that are already complete do not wait for the missing data
+            if ( likely(frames_length > 0) ) {
+                payload = NULL;
+                break;
+            }
+
             session->event = READ;
 
             return;
@@ -1226,11 +1231,30 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(fragmented) ) {
         WSS_log_trace("Detected missing frames in fragmented message, will wait for further IO");
 
-        session->frames = frames;
-        session->frames_length = frames_length;
-        session->event = READ;
+        if ( likely(starting_frame == 0) ) {
+            session->frames = frames;
+            session->frames_length = frames_length;
+            session->event = READ;
 
-        return;
+            return;
+        }
+
+        // Frames preceding the unfinished message do not wait for it
+        len = frames_length-starting_frame;
+        if ( unlikely(NULL == (session->frames = WSS_malloc(len*sizeof(wss_frame_t *)))) ) {
+            WSS_log_error("Unable to allocate frames");
+            for (i = 0; likely(i < frames_length); i++) {
+                WSS_free_frame(frames[i]);
+            }
+            WSS_free((void **) &frames);
+            session->closing = true;
+            return;
+        }
+        for (i = 0; likely(i < len); i++) {
+            session->frames[i] = frames[starting_frame+i];
+        }
+        session->frames_length = len;
+        frames_length = starting_frame;
     }
 
     WSS_log_trace("Frames was validated");
-- 
2.43.0


From baa2349da3a19baa9694868533b45469cfaeb43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 07/28] fix: creating a ping fails cleanly when memory runs out

---
 src/frame.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frame.c b/src/frame.c
index eaafb4b..19c75e5 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -47,6 +47,11 @@
  */
 static char *random_bytes(int length) {
     char *res = WSS_malloc(length);
+
+    if ( unlikely(NULL == res) ) {
+        return NULL;
+    }
+
     /* Seed number for rand() */
     srand((unsigned int) time(0) + getpid());
 
-- 
2.43.0


From 604a2f6925a298435822349c15d0dbc94fbe2864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 08/28] fix: a close frame that is written in several parts
 still closes the connection

---
 src/worker.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index e82be0b..738612f 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1399,9 +1399,9 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
             message_length = message->length;
 
             while ( likely(bytes_sent < message_length) ) {
-                // Check if message contains closing byte
-                if ( unlikely(message->framed && bytes_sent == 0 &&
-                     ((message->msg[0] & 0xF) & 0x8) == (message->msg[0] & 0xF)) ) {
+                // Check if message contains closing byte. Parts of the message
+                // may have been written earlier.
+                if ( unlikely(message->framed && (message->msg[0] & 0xF) == CLOSE_FRAME) ) {
                     closing = true;
                 }
 
-- 
2.43.0


From a7a44bc8abc89549c87cec93c79ccd49b6c023ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 09/28] fix: a producer gets no worker record when all of them
 are taken

---
 src/ringbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index be583d5..9676aa5 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -196,7 +196,7 @@ register_worker(ringbuf_t *rbuf, unsigned registration_type)
 	}
 
 	/* Register this worker-record. */
-	return w;
+	return acquired ? w : NULL;
 }
 
 /*
-- 
2.43.0


From 756b4f27b1da86f0eb6ba66977a0f5ee4caf6153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 10/28] fix: a failed read of a file frees the buffer instead
 of the caller's variable

---
 src/str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/str.c b/src/str.c
index 5dfa0a2..107bbdc 100644
--- a/src/str.c
+++ b/src/str.c
@@ -114,14 +114,14 @@ size_t strload(char *path, char **str) {
     if ( unlikely(fread(*str, sizeof(char), size, file) != (unsigned long)size) ) {
         WSS_log_error("Didn't read what was expected");
         fclose(file);
-        WSS_free((void **) &str);
+        WSS_free((void **) str);
         return 0;
     }
 
     n = fclose(file);
     if ( unlikely(n != 0) ) {
         WSS_log_error("Unable to close file: %s", strerror(errno));
-        WSS_free((void **) &str);
+        WSS_free((void **) str);
         return 0;
     }
 
-- 
2.43.0


From a093c3800c557416516d04d9690aa5eb19cc9b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:24 +0000
Subject: [PATCH 11/28] fix: base64 encoding fails cleanly when memory runs out

---
 src/b64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/b64.c b/src/b64.c
index e79db74..636a018 100644
--- a/src/b64.c
+++ b/src/b64.c
@@ -39,6 +39,7 @@ b64_encode (const unsigned char *src, size_t len) {
             // part by index from the base 64 index table
             // into `enc' unsigned char array
             enc = (char *) b64_realloc(enc, size + 4);
+            if (NULL == enc) { return NULL; }
             for (i = 0; i < 4; ++i) {
                 enc[size++] = b64_table[buf[i]];
             }
@@ -64,6 +65,7 @@ b64_encode (const unsigned char *src, size_t len) {
         // perform same write to `enc` with new allocation
         for (j = 0; (j < i + 1); ++j) {
             enc = (char *) b64_realloc(enc, size + 1);
+            if (NULL == enc) { return NULL; }
             enc[size++] = b64_table[buf[j]];
         }
 
@@ -71,12 +73,14 @@ b64_encode (const unsigned char *src, size_t len) {
         // append `=' to `enc'
         while ((i++ < 3)) {
             enc = (char *) b64_realloc(enc, size + 1);
+            if (NULL == enc) { return NULL; }
             enc[size++] = '=';
         }
     }
 
     // Make sure we have enough space to add '\0' character at end.
     enc = (char *) b64_realloc(enc, size + 1);
+    if (NULL == enc) { return NULL; }
     enc[size] = '\0';
 
     return enc;
-- 
2.43.0


From 7d31ab66499083c504133d1cee4e6b8d705eaa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 12/28] fix: the pool releases its lock on a second shutdown
 and its queue when it cannot be created

---
 src/pool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pool.c b/src/pool.c
index 7ac6527..2213a29 100644
--- a/src/pool.c
+++ b/src/pool.c
@@ -232,6 +232,7 @@ int threadpool_destroy(threadpool_t *pool, int flags) {
         /* Already shutting down */
         if (pool->shutdown) {
             err = threadpool_shutdown;
+            pthread_mutex_unlock(&(pool->lock));
             break;
         }
 
@@ -279,6 +280,9 @@ int threadpool_free(threadpool_t *pool) {
         pthread_cond_destroy(&(pool->notify));
     }
 
+    /* The task queue may have been allocated without the threads */
+    WSS_free((void **) &pool->queue);
+
     WSS_free((void **) &pool);
     return 0;
 }
-- 
2.43.0


From 5fc040423d53388a40305dc011ac3adc674e80ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:17 +0000
Subject: [PATCH 13/28] fix: a message that cannot be sent gives its job back,
 and unsent output is continued

---
 src/message.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/message.c b/src/message.c
index 6e45c1d..9588b11 100644
--- a/src/message.c
+++ b/src/message.c
@@ -23,6 +23,15 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     wss_server_t *server = (wss_server_t *)serv;
     wss_session_t *session = (wss_session_t *)sess;
 
+    // There is no websocket stream before the handshake is done
+    if ( unlikely(! session->handshaked || NULL == session->header) ) {
+        WSS_log_error("Unable to send message to session that has not been handshaked");
+
+        WSS_session_jobs_dec(session);
+
+        return;
+    }
+
     // Use extensions
     if ( NULL != session->header->ws_extensions ) {
         for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
@@ -40,6 +49,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     if ( unlikely((out_length = WSS_stringify_frames(frames, frames_count, &out)) == 0) ) {
         WSS_log_error("Unable to convert frames to message");
 
+        WSS_session_jobs_dec(session);
+
         return;
     }
 
@@ -48,6 +59,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         WSS_free((void **) &out);
 
+        WSS_session_jobs_dec(session);
+
         return;
     }
     m->msg = out;
@@ -61,6 +74,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         WSS_message_free(m);
 
+        WSS_session_jobs_dec(session);
+
         return;
     }
 
@@ -92,6 +107,13 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
         case IDLE:
             session->state = WRITING;
             WSS_write(server, session);
+
+            // Nobody else waits for the socket to become writable again
+            if (session->event == WRITE) {
+                clock_gettime(CLOCK_MONOTONIC, &session->alive);
+                WSS_poll_set_write(server, session->fd);
+            }
+
             WSS_session_jobs_dec(session);
             pthread_mutex_unlock(&session->lock);
             return;
@@ -121,6 +143,12 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
 
     frames_count = WSS_create_frames(server->config, opcode, message, message_length, &frames);
 
+    if ( unlikely(frames_count == 0) ) {
+        WSS_log_error("Unable to create frames");
+        WSS_session_jobs_dec(session);
+        return;
+    }
+
     WSS_message_send_frames(server, session, frames, frames_count);
 
     for (k = 0; likely(k < frames_count); k++) {
-- 
2.43.0


From 61e7ee6fedc35cc99cbde881e41bb7367fb3e6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:28 +0000
Subject: [PATCH 14/28] fix: retry a full pool instead of dropping the event,
 no endless retry after an old EINTR, no leak when a connection cannot be
 handed over

---
 src/event.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index b914dac..8ff4fa4 100644
--- a/src/event.c
+++ b/src/event.c
@@ -137,7 +137,7 @@ wss_error_t WSS_add_to_threadpool(wss_server_t *server, void (*func)(void *), vo
                     return WSS_THREADPOOL_ERROR;
             }
         }
-    } while (0);
+    } while ( unlikely(err != 0) );
 
     return WSS_SUCCESS;
 }
@@ -516,6 +516,7 @@ static inline wss_error_t WSS_poll_add(int poll_fd, int fd, uint32_t events) {
     WSS_log_trace("Modifying filedescriptor on epoll eventlist");
 
     do {
+        errno = 0;
         memset(&event, 0, sizeof(event));
 
         event.events = events;
@@ -695,6 +696,7 @@ wss_error_t WSS_poll_remove(wss_server_t *server, int fd) {
     WSS_log_trace("Removing session %d from epoll events", fd);
 
     do {
+        errno = 0;
         memset(&event, 0, sizeof(event));
 
         event.events = EPOLLIN | EPOLLOUT;
@@ -785,6 +787,7 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
              */
             if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
                 WSS_log_fatal("Failed adding connect job to worker pool");
+                WSS_free((void **)&args);
                 return err;
             }
         } else if ( unlikely(events[i].data.fd == close_pipefd[0]) ) {
-- 
2.43.0


From a8ac85c9d7eb58e1baad6e44f96ce6637995d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:50 +0000
Subject: [PATCH 15/28] fix: a connection whose lock attributes cannot be set
 is not added; teardown releases pending payloads and tolerates a missing
 subprotocol

---
 src/session.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/session.c b/src/session.c
index d3a1039..ff4d983 100644
--- a/src/session.c
+++ b/src/session.c
@@ -88,7 +88,10 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
     
     if ( unlikely((err = pthread_mutexattr_settype(&session->lock_attr, PTHREAD_MUTEX_RECURSIVE)) != 0) ) {
         WSS_log_error("Unable to initialize session locks attributes: %s", strerror(err));
+        pthread_mutexattr_destroy(&session->lock_attr);
         WSS_free((void **) &session);
+        pthread_rwlock_unlock(&lock);
+        return NULL;
     }
 
     if ( unlikely((err = pthread_mutex_init(&session->lock, &session->lock_attr)) != 0) ) {
@@ -176,7 +179,7 @@ static wss_error_t session_delete(wss_session_t *session) {
 
         WSS_log_trace("Free frames");
         for (j = 0; likely(j < session->frames_length); j++) {
-            WSS_free((void **) &session->frames[j]);
+            WSS_free_frame(session->frames[j]);
         }
         WSS_free((void **) &session->frames);
 
@@ -186,7 +189,9 @@ static wss_error_t session_delete(wss_session_t *session) {
                 session->header->ws_extensions[j]->ext->close(session->fd);
             }
 
-            session->header->ws_protocol->close(session->fd);
+            if ( likely(NULL != session->header->ws_protocol) ) {
+                session->header->ws_protocol->close(session->fd);
+            }
 
             WSS_free_header(session->header);
         }
-- 
2.43.0


From 47466c96718380ea37dc046baf83a35f64276a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 16/28] fix: a connection is not used after its last job ended,
 is told to its subprotocol once, and closing never waits for the own job

---
 include/session.h |  10 ++++
 src/message.c     |  10 ++--
 src/session.c     |  34 +++++++++++++
 src/worker.c      | 126 +++++++++++++++++++++++++++++-----------------
 4 files changed, 129 insertions(+), 51 deletions(-)

diff --git a/include/session.h b/include/session.h
index 3055e46..4961b64 100644
--- a/include/session.h
+++ b/include/session.h
@@ -167,6 +167,16 @@ wss_error_t WSS_session_all(void (*callback)(wss_session_t *));
  */
 wss_session_t *WSS_session_find(int fd);
 
+/**
+ * Function that finds a session using the filedescriptor of the session and
+ * increments its job counter, such that the session stays alive until the
+ * counter is decremented again.
+ *
+ * @param 	fd 	[int] 		        "The filedescriptor associated to some session"
+ * @return 		[wss_session_t *] 	"Returns session if successful, NULL if there is none or it is disconnecting"
+ */
+wss_session_t *WSS_session_acquire(int fd);
+
 /**
  * Function that increments the job counter atomically.
  *
diff --git a/src/message.c b/src/message.c
index 9588b11..3e0a1d3 100644
--- a/src/message.c
+++ b/src/message.c
@@ -93,16 +93,16 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
             nanosleep(&tim, NULL);
             break;
         case CLOSING:
-            WSS_session_jobs_dec(session);
             pthread_mutex_unlock(&session->lock);
+            WSS_session_jobs_dec(session);
             return;
         case CONNECTING:
             pthread_mutex_unlock(&session->lock);
             nanosleep(&tim, NULL);
             break;
         case WRITING:
-            WSS_session_jobs_dec(session);
             pthread_mutex_unlock(&session->lock);
+            WSS_session_jobs_dec(session);
             return;
         case IDLE:
             session->state = WRITING;
@@ -114,8 +114,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
                 WSS_poll_set_write(server, session->fd);
             }
 
-            WSS_session_jobs_dec(session);
             pthread_mutex_unlock(&session->lock);
+            WSS_session_jobs_dec(session);
             return;
         }
     } while (1);
@@ -128,13 +128,11 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
     wss_frame_t **frames;
     wss_server_t *server = servers.http;
 
-    if ( unlikely(NULL == (session = WSS_session_find(fd))) ) {
+    if ( unlikely(NULL == (session = WSS_session_acquire(fd))) ) {
         WSS_log_error("Unable to find session to send message to");
         return;
     }
 
-    WSS_session_jobs_inc(session);
-
     if (NULL != session->ssl && session->ssl_connected) {
         server = servers.https;
     }
diff --git a/src/session.c b/src/session.c
index ff4d983..31b0fea 100644
--- a/src/session.c
+++ b/src/session.c
@@ -454,3 +454,37 @@ wss_session_t *WSS_session_find(int fd) {
 
     return session;
 }
+
+/**
+ * Function that finds a session using the filedescriptor of the session and
+ * increments its job counter, such that the session stays alive until the
+ * counter is decremented again.
+ *
+ * @param 	fd 	[int] 		        "The filedescriptor associated to some session"
+ * @return 		[wss_session_t *] 	"Returns session if successful, NULL if there is none or it is disconnecting"
+ */
+wss_session_t *WSS_session_acquire(int fd) {
+    int err;
+    wss_session_t *found = NULL, *session = NULL;
+
+    WSS_log_trace("Acquiring session");
+
+    if ( unlikely((err = pthread_rwlock_rdlock(&lock)) != 0) ) {
+        WSS_log_error("Unable to lock session lock: %s", strerror(err));
+        return NULL;
+    }
+
+    HASH_FIND_INT(sessions, &fd, found);
+
+    if ( likely(NULL != found && pthread_mutex_lock(&found->lock_disconnecting) == 0) ) {
+        if ( likely(! found->disconnecting && WSS_session_jobs_inc(found) == WSS_SUCCESS) ) {
+            session = found;
+        }
+
+        pthread_mutex_unlock(&found->lock_disconnecting);
+    }
+
+    pthread_rwlock_unlock(&lock);
+
+    return session;
+}
diff --git a/src/worker.c b/src/worker.c
index 738612f..b5690b3 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -398,16 +398,8 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
  * @param 	session	[wss_session_t *] 	"The session structure"
  * @return          [void]
  */
-void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
-    int i;
+static void disconnect(wss_server_t *server, wss_session_t *session) {
     wss_error_t err;
-    bool dc;
-
-    // If we are already closing
-    WSS_session_is_disconnecting(session, &dc);
-    if (dc) {
-        return;
-    }
 
     WSS_session_jobs_wait(session);
 
@@ -418,6 +410,9 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
     if ( NULL != session->header && session->header->ws_protocol != NULL ) {
         WSS_log_trace("Informing subprotocol about session close");
         session->header->ws_protocol->close(session->fd);
+
+        // The subprotocol must not be told again when the session is deleted
+        session->header->ws_protocol = NULL;
     }
 
     WSS_log_trace("Removing poll filedescriptor from eventlist");
@@ -432,24 +427,54 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
         WSS_log_info("Session %d disconnected from ip: %s:%d using HTTPS request", session->fd, session->ip, session->port);
     }
 
-    for (i = 0; i < session->jobs; i++) {
-        pthread_mutex_unlock(&session->lock);
-    }
-
     if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete(session))) ) {
-        switch (err) {
-            case WSS_SSL_SHUTDOWN_READ_ERROR:
-                session->event = READ;
-                return;
-            case WSS_SSL_SHUTDOWN_WRITE_ERROR:
-                session->event = WRITE;
-                return;
-            default:
-                break;
-        }
         WSS_log_error("Unable to delete client session, received error code: %d", err);
+    }
+}
+
+/**
+ * Function that disconnects a session unless this is already being done.
+ *
+ * @param 	server	[wss_server_t *] 	"The server structure"
+ * @param 	session	[wss_session_t *] 	"The session structure"
+ * @return          [void]
+ */
+void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
+    bool dc;
+
+    // If we are already closing
+    WSS_session_is_disconnecting(session, &dc);
+    if (dc) {
         return;
     }
+
+    disconnect(server, session);
+}
+
+/**
+ * Ends a job on a session and gives up its lock. If the session is closing it
+ * is disconnected afterwards. The session must not be used after this call.
+ *
+ * @param 	server	[wss_server_t *] 	"The server structure"
+ * @param 	session	[wss_session_t *] 	"The session structure"
+ * @return          [void]
+ */
+static void end_job(wss_server_t *server, wss_session_t *session) {
+    bool dc = true;
+
+    // Decide who is disconnecting while this job still keeps the session alive
+    if ( unlikely(session->closing) ) {
+        // Nobody shall keep waiting to write to the session
+        session->state = CLOSING;
+        WSS_session_is_disconnecting(session, &dc);
+    }
+
+    pthread_mutex_unlock(&session->lock);
+    WSS_session_jobs_dec(session);
+
+    if ( unlikely(! dc) ) {
+        disconnect(server, session);
+    }
 }
 
 /**
@@ -480,6 +505,11 @@ void WSS_connect(wss_server_t *server) {
                 break;
             }
 
+            // Further connections may be pending
+            if ( EINTR == errno || ECONNABORTED == errno ) {
+                continue;
+            }
+
             WSS_log_fatal("Accept failed: %s", strerror(errno));
             break;
         }
@@ -492,6 +522,7 @@ void WSS_connect(wss_server_t *server) {
 
         if ( unlikely(NULL == (session = WSS_session_add(client_fd,
                         inet_ntoa(client.sin_addr), ntohs(client.sin_port)))) ) {
+            close(client_fd);
             continue;
         }
 
@@ -505,15 +536,17 @@ void WSS_connect(wss_server_t *server) {
         ringbuf_get_sizes(0, workers, &ringbuf_obj_size, NULL);
         if ( unlikely(NULL == (ringbuf = WSS_malloc(ringbuf_obj_size))) ) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer");
-            WSS_disconnect(server, session);
-            return;
+            session->closing = true;
+            end_job(server, session);
+            continue;
         }
 
         if ( unlikely(NULL == (session->messages = WSS_malloc(server->config->size_ringbuffer*sizeof(wss_message_t *)))) ) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer messages");
             WSS_free((void **)&ringbuf);
-            WSS_disconnect(server, session);
-            return;
+            session->closing = true;
+            end_job(server, session);
+            continue;
         }
         session->messages_count = server->config->size_ringbuffer;
 
@@ -527,12 +560,9 @@ void WSS_connect(wss_server_t *server) {
         }
 
         if (NULL != server->ssl_ctx) {
-            if (! WSS_session_ssl(server, session)) {
-                WSS_free((void **)&ringbuf);
-                return;
+            if ( likely(WSS_session_ssl(server, session)) ) {
+                WSS_ssl_handshake(server, session);
             }
-
-            WSS_ssl_handshake(server, session);
         } else {
             session->state = IDLE;
 
@@ -544,8 +574,7 @@ void WSS_connect(wss_server_t *server) {
 
         }
 
-        WSS_session_jobs_dec(session);
-        pthread_mutex_unlock(&session->lock);
+        end_job(server, session);
     }
 }
 
@@ -980,6 +1009,15 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     // Release memory used for buffer
     WSS_free((void **) &buffer);
 
+    // The event brought no data, hence wait for the next one
+    if ( unlikely(payload_length == 0) ) {
+        session->frames = frames;
+        session->frames_length = frames_length;
+        session->state = IDLE;
+        session->event = READ;
+        return;
+    }
+
     WSS_log_trace("Payload from client was read. Continues flow by parsing frames.");
 
     // Parse the payload into websocket frames
@@ -1485,20 +1523,22 @@ void WSS_work(void *args) {
         return;
     }
 
-    if ( unlikely(NULL == (session = WSS_session_find(fd))) ) {
+    if ( unlikely(NULL == (session = WSS_session_acquire(fd))) ) {
         WSS_log_trace("Unable to find client with session %d", fd);
         return;
     }
 
-    WSS_log_trace("Incrementing session jobs");
-
-    WSS_session_jobs_inc(session);
     pthread_mutex_lock(&session->lock);
 
     session->event = NONE;
 
     WSS_log_trace("Checking session state");
 
+    // Nothing more will be received, whatever the session was waiting for
+    if ( unlikely(session_state == CLOSING) ) {
+        session->state = CLOSING;
+    }
+
     // We first check if session was in the middle of performing an IO task but
     // needed to wait for further IO
     switch (session->state) {
@@ -1520,9 +1560,7 @@ void WSS_work(void *args) {
         case CONNECTING:
             if (NULL != server->ssl_ctx) {
                 WSS_ssl_handshake(server, session);
-                WSS_session_jobs_dec(session);
-                pthread_mutex_unlock(&session->lock);
-                return;
+                break;
             }
 
             WSS_read(server, session);
@@ -1561,12 +1599,8 @@ void WSS_work(void *args) {
             }
     }
 
-    WSS_session_jobs_dec(session);
-    pthread_mutex_unlock(&session->lock);
-
     if (session->closing) {
         session->event = NONE;
-        WSS_disconnect(server, session);
     }
 
     switch (session->event) {
@@ -1581,4 +1615,6 @@ void WSS_work(void *args) {
         case NONE: 
             break;
     }
+
+    end_job(server, session);
 }
-- 
2.43.0


From ef8dde0c8ce2c4b69f238a4835780eb8e3516786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 17/28] fix: a failed TLS handshake or shutdown neither blocks
 the worker nor unlocks the session table

---
 src/ssl.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/ssl.c b/src/ssl.c
index 8761990..8453b68 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -391,6 +391,8 @@ int WSS_ssl_read(wss_server_t *server, wss_session_t *session, char *buffer) {
         }
 #endif
     
+        session->closing = true;
+
         n = -1;
     } else 
         
@@ -569,7 +571,7 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
         }
 #endif
 
-        WSS_disconnect(server, session);
+        session->closing = true;
         return;
     }
 
@@ -602,7 +604,7 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(NULL == (session->ssl = SSL_new(server->ssl_ctx))) ) {
         ERR_error_string_n(ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to create SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
+        session->closing = true;
         return false;
     }
 
@@ -610,7 +612,7 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(SSL_set_fd(session->ssl, session->fd) != 1) ) {
         ERR_error_string_n(ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to bind filedescriptor to SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
+        session->closing = true;
         return false;
     }
 
@@ -625,7 +627,7 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(NULL == (session->ssl = wolfSSL_new(server->ssl_ctx))) ) {
         wolfSSL_ERR_error_string_n(wolfSSL_ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to create SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
+        session->closing = true;
         return false;
     }
 
@@ -633,7 +635,7 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(wolfSSL_set_fd(session->ssl, session->fd) != 1) ) {
         wolfSSL_ERR_error_string_n(wolfSSL_ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to bind filedescriptor to SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
+        session->closing = true;
         return false;
     }
 
@@ -656,17 +658,17 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
 wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock) {
     int err = WSS_SUCCESS;
 
+    (void) lock;
+
 #if defined(USE_OPENSSL)
     WSS_log_trace("Free ssl structure");
     if ( unlikely((err = SSL_shutdown(session->ssl)) < 0) ) {
         err = SSL_get_error(session->ssl, err);
         switch (err) {
             case SSL_ERROR_WANT_READ:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_READ_ERROR;
             case SSL_ERROR_WANT_WRITE:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_WRITE_ERROR;
+                // The session is deleted without waiting for the client
+                break;
             case SSL_ERROR_SYSCALL:
                 WSS_log_error("SSL_shutdown failed: %s", strerror(errno));
                 break;
@@ -691,11 +693,9 @@ wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock)
         err = SSL_get_error(session->ssl, err);
         switch (err) {
             case SSL_ERROR_WANT_READ:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_READ_ERROR;
             case SSL_ERROR_WANT_WRITE:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_WRITE_ERROR;
+                // The session is deleted without waiting for the client
+                break;
             case SSL_ERROR_SYSCALL:
                 WSS_log_error("SSL_shutdown failed: %s", strerror(errno));
                 break;
-- 
2.43.0


From 5c9f4881c03d64d15375873dbed03086bf65e373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:08 +0000
Subject: [PATCH 18/28] fix: loading a plug-in does not write past the buffer
 of its Python module name

---
 src/extensions.c   | 2 +-
 src/subprotocols.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions.c b/src/extensions.c
index 456760f..e8e7f83 100644
--- a/src/extensions.c
+++ b/src/extensions.c
@@ -140,7 +140,7 @@ void WSS_load_extensions(wss_config_t *config)
             return;
         }
 
-        sprintf(pyname, "PyInit_%s", name); 
+        snprintf(pyname, 7+name_length+1, "PyInit_%.*s", name_length, name); 
         if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, name)) != NULL) ) {
             proto->pyinit(); 
         }
diff --git a/src/subprotocols.c b/src/subprotocols.c
index f4dfc96..c8f3849 100644
--- a/src/subprotocols.c
+++ b/src/subprotocols.c
@@ -130,7 +130,7 @@ void WSS_load_subprotocols(wss_config_t *config)
             return;
         }
 
-        sprintf(pyname, "PyInit_%s", name); 
+        snprintf(pyname, 7+name_length+1, "PyInit_%.*s", name_length, name); 
         if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, name)) != NULL) ) {
             proto->pyinit(); 
         }
-- 
2.43.0


From 6a982737005d9c8103ec2a68d930b3320e095fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 19/28] fix: request headers with empty values, blank list
 tokens or several extension fields are parsed without crashing or leaking

---
 src/header.c | 172 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 106 insertions(+), 66 deletions(-)

diff --git a/src/header.c b/src/header.c
index b739fd3..d491509 100644
--- a/src/header.c
+++ b/src/header.c
@@ -70,7 +70,7 @@ static inline char *trim(char* str)
 }
 
 static inline void header_set_version(wss_header_t *header, char *v) {
-    int version = strtol(strtok_r(NULL, "", &v), (char **) NULL, 10);
+    int version = strtol(v, (char **) NULL, 10);
 
     if ( likely(header->ws_version < version) ) {
         if ( unlikely(version == 4) ) {
@@ -95,24 +95,53 @@ static inline void header_set_version(wss_header_t *header, char *v) {
     }
 }
 
+/**
+ * Returns the value of a header field, that is what follows the colon without
+ * surrounding whitespace.
+ *
+ * @param   lineptr [char **]   "What is left of the line after the field name"
+ * @return          [char *]    "The value or NULL if the field has none"
+ */
+static inline char *header_value(char **lineptr) {
+    char *value = trim(strtok_r(NULL, "", lineptr));
+
+    if ( unlikely(NULL == value || value[0] == '\0') ) {
+        return NULL;
+    }
+
+    return value;
+}
 
 /**
- * Parses a HTTP header into a header structure and returns the status code
- * appropriate.
+ * Chooses the first subprotocol in a comma separated list that is available.
  *
- * @param   fd        [int]                    "The filedescriptor"
- * @param   header    [wss_header_t *]         "The header structure to fill"
- * @param   config    [wss_config_t *]         "The configuration of the server"
- * @return            [enum HttpStatus_Code]   "The status code to return to the client"
+ * @param   header  [wss_header_t *]    "The header structure to fill"
+ * @param   value   [char *]            "The list of subprotocols, or NULL"
+ * @return          [void]
  */
-enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t *config) {
+static void header_set_protocol(wss_header_t *header, char *value) {
+    char *sep, *sepptr = NULL;
+
+    if ( unlikely(NULL == value) ) {
+        return;
+    }
+
+    sep = trim(strtok_r(value, ",", &sepptr));
+    while (NULL != sep && NULL == header->ws_protocol) {
+        header->ws_protocol = WSS_find_subprotocol(sep);
+
+        sep = trim(strtok_r(NULL, ",", &sepptr));
+    }
+}
+
+static enum HttpStatus_Code parse_header(int fd, wss_header_t *header, wss_config_t *config, char **extensions) {
     bool valid, in_use, double_clrf = false;
     size_t i, line_length;
     char *lineptr, *temp, *line, *sep, *accepted;
     char *tokenptr = NULL, *sepptr = NULL, *paramptr = NULL;
     char *token, *name; 
-    wss_subprotocol_t *proto;
     wss_extension_t *ext;
+    wss_ext_t *used, **list;
     char *exts = NULL;
     unsigned int header_size = 0;
     size_t extensions_length = 0;
@@ -229,7 +258,8 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                     return HttpStatus_BadRequest;
                 }
 
-                sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
+                line = header_value(&lineptr);
+                sep = NULL != line ? trim(strtok_r(line, ",", &sepptr)) : NULL;
                 while (NULL != sep) {
                     header_set_version(header, sep);
 
@@ -237,34 +267,22 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
             } else if ( line_length == strlen(UPGRADE_STRING) &&
                         strncasecmp(UPGRADE_STRING, line, line_length) == 0 ) {
-                header->ws_upgrade = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_upgrade = header_value(&lineptr);
             } else if ( line_length == strlen(ORIGIN_STRING) &&
                         strncasecmp(ORIGIN_STRING, line, line_length) == 0 ) {
-                header->ws_origin = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_origin = header_value(&lineptr);
             } else if ( line_length == strlen(CONNECTION_STRING) &&
                         strncasecmp(CONNECTION_STRING, line, line_length) == 0 ) {
-                header->ws_connection = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_connection = header_value(&lineptr);
             } else if ( line_length == strlen(COOKIE_STRING) &&
                         strncasecmp(COOKIE_STRING, line, line_length) == 0 ) {
-                header->cookies = (strtok_r(NULL, "", &lineptr)+1);
+                header->cookies = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_PROTOCOL) &&
                         strncasecmp(SEC_WEBSOCKET_PROTOCOL, line, line_length) == 0 ) {
-                if (NULL == header->ws_protocol) {
-                    sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
-                    if (NULL != sep && NULL != (proto = WSS_find_subprotocol(sep))) {
-                        header->ws_protocol = proto;
-                    } else {
-                        while (NULL != (sep = trim(strtok_r(NULL, ",", &sepptr)))) {
-                            if (NULL != (proto = WSS_find_subprotocol(sep))) {
-                                header->ws_protocol = proto;
-                                break;
-                            }
-                        }
-                    }
-                }
+                header_set_protocol(header, header_value(&lineptr));
             } else if ( line_length == strlen(SEC_WEBSOCKET_ORIGIN) &&
                         strncasecmp(SEC_WEBSOCKET_ORIGIN, line, line_length) == 0 ) {
-                header->ws_origin = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_origin = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY) &&
                         strncasecmp(SEC_WEBSOCKET_KEY, line, line_length) == 0 ) {
                 //The |Sec-WebSocket-Key| header field MUST NOT appear more than once in an HTTP request.
@@ -272,45 +290,40 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                     WSS_log_trace("Sec-WebSocket-Key must only appear once in header");
                     return HttpStatus_BadRequest;
                 }
-                header->ws_key = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_EXTENSIONS) &&
                         strncasecmp(SEC_WEBSOCKET_EXTENSIONS, line, line_length) == 0 ) {
-                line = trim(strtok_r(NULL, "", &lineptr));
+                if ( unlikely(NULL == (line = header_value(&lineptr))) ) {
+                    line = "";
+                }
                 line_length = strlen(line);
-                if ( NULL == (exts = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+1)*sizeof(char))) ) {
+
+                // Several fields are equivalent to one list. The list is freed by WSS_parse_header
+                if ( unlikely(NULL == (exts = *extensions = WSS_realloc((void **)extensions, extensions_length, (extensions_length+line_length+2)*sizeof(char)))) ) {
                     WSS_log_error("Unable to allocate space for extensions string");
                     return HttpStatus_InternalServerError;
                 }
 
+                if (extensions_length > 0) {
+                    exts[extensions_length++] = ',';
+                }
                 memcpy(exts+extensions_length, line, line_length);
                 extensions_length += line_length;
             } else if ( line_length == strlen(HOST_STRING) &&
                         strncasecmp(HOST_STRING, line, line_length) == 0 ) {
-                header->host = (strtok_r(NULL, "", &lineptr)+1);
+                header->host = header_value(&lineptr);
             } else if ( line_length == strlen(WEBSOCKET_PROTOCOL_STRING) &&
                         strncasecmp(WEBSOCKET_PROTOCOL_STRING, line, line_length) == 0 ) {
                 header->ws_type = HIXIE75;
-                if (NULL == header->ws_protocol) {
-                    sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
-                    if (NULL != sep && NULL != (proto = WSS_find_subprotocol(sep))) {
-                        header->ws_protocol = proto;
-                    } else {
-                        while (NULL != (sep = trim(strtok_r(NULL, ",", &sepptr)))) {
-                            if (NULL != (proto = WSS_find_subprotocol(sep))) {
-                                header->ws_protocol = proto;
-                                break;
-                            }
-                        }
-                    }
-                }
+                header_set_protocol(header, header_value(&lineptr));
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY1) &&
                         strncasecmp(SEC_WEBSOCKET_KEY1, line, line_length) == 0 ) {
                 header->ws_type = HIXIE76;
-                header->ws_key1 = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key1 = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY2) &&
                         strncasecmp(SEC_WEBSOCKET_KEY2, line, line_length) == 0 ) {
                 header->ws_type = HIXIE76;
-                header->ws_key2 = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key2 = header_value(&lineptr);
             }
         }
 
@@ -354,14 +367,11 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
         sep = trim(strtok_r(exts, ",", &sepptr));
         while(NULL != sep) {
             in_use = false;
-            sep = trim(strtok_r(sep, ";", &paramptr));
-
-            if ( NULL == (name = WSS_copy(sep, strlen(sep)+1)) ) {
-                WSS_log_error("Unable to allocate space for extension structure");
-                return HttpStatus_InternalServerError;
-            }
+            accepted = NULL;
+            valid = false;
+            name = trim(strtok_r(sep, ";", &paramptr));
 
-            if (NULL != (ext = WSS_find_extension(name))) {
+            if (NULL != name && NULL != (ext = WSS_find_extension(name))) {
                 for (i = 0; i < header->ws_extensions_count; i++) {
                     if ( unlikely(header->ws_extensions[i]->ext == ext) ) {
                         in_use = true; 
@@ -370,28 +380,40 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
 
                 if ( likely(! in_use) ) {
+                    used = WSS_malloc(sizeof(wss_ext_t));
+                    list = WSS_malloc((header->ws_extensions_count+1)*sizeof(wss_ext_t *));
+                    name = WSS_copy(name, strlen(name)+1);
+                    if ( unlikely(NULL == used || NULL == list || NULL == name) ) {
+                        WSS_log_error("Unable to allocate space for extension structure");
+                        WSS_free((void **)&used);
+                        WSS_free((void **)&list);
+                        WSS_free((void **)&name);
+                        return HttpStatus_InternalServerError;
+                    }
+
                     ext->open(fd, trim(paramptr), &accepted, &valid); 
                     if ( likely(valid) ) {
-                        if ( unlikely(NULL == (header->ws_extensions = WSS_realloc((void **) &header->ws_extensions, header->ws_extensions_count*sizeof(wss_ext_t *), (header->ws_extensions_count+1)*sizeof(wss_ext_t *)))) ) {
-                            WSS_log_error("Unable to allocate space for extension");
-                            return HttpStatus_InternalServerError;
+                        used->ext = ext;
+                        used->name = name;
+                        used->accepted = accepted;
+                        if (header->ws_extensions_count > 0) {
+                            memcpy(list, header->ws_extensions, header->ws_extensions_count*sizeof(wss_ext_t *));
                         }
-
-                        if ( unlikely(NULL == (header->ws_extensions[header->ws_extensions_count] = WSS_malloc(sizeof(wss_ext_t))))) {
-                            WSS_log_error("Unable to allocate space for extension structure");
-                            return HttpStatus_InternalServerError;
-                        }
-                        header->ws_extensions[header->ws_extensions_count]->ext = ext;
-                        header->ws_extensions[header->ws_extensions_count]->name = name;
-                        header->ws_extensions[header->ws_extensions_count]->accepted = accepted;
+                        list[header->ws_extensions_count] = used;
+                        WSS_free((void **)&header->ws_extensions);
+                        header->ws_extensions = list;
                         header->ws_extensions_count += 1;
+                    } else {
+                        WSS_free((void **)&accepted);
+                        WSS_free((void **)&used);
+                        WSS_free((void **)&list);
+                        WSS_free((void **)&name);
                     }
                 }
             }
 
             sep = trim(strtok_r(NULL, ",", &sepptr));
         }
-        WSS_free((void **)&exts);
     }
 
     if ( unlikely(header->ws_type == UNKNOWN
@@ -414,6 +436,24 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
     return HttpStatus_OK;
 }
 
+/**
+ * Parses a HTTP header into a header structure and returns the status code
+ * appropriate.
+ *
+ * @param   fd        [int]                    "The filedescriptor"
+ * @param   header    [wss_header_t *]         "The header structure to fill"
+ * @param   config    [wss_config_t *]         "The configuration of the server"
+ * @return            [enum HttpStatus_Code]   "The status code to return to the client"
+ */
+enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t *config) {
+    char *extensions = NULL;
+    enum HttpStatus_Code code = parse_header(fd, header, config, &extensions);
+
+    WSS_free((void **) &extensions);
+
+    return code;
+}
+
 /**
  * Upgrades a HTTP header, that is returns switching protocols response if
  * the header contains the required options.
-- 
2.43.0


From e6f820855316ad607adfe396525c859bd05769c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 20/28] fix: HTTP responses have exact lengths, no trailing NUL
 and a valid favicon etag

---
 src/worker.c | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index b5690b3..0ced922 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -87,11 +87,14 @@ static wss_message_t *handshake_response(wss_header_t *header, enum HttpStatus_C
         for (j = 0; likely(j < header->ws_extensions_count); j++) {
             headers += (strlen(header->ws_extensions[j]->name))*sizeof(char);
             if ( likely(NULL != header->ws_extensions[j]->accepted) ) {
+                headers += 1*sizeof(char);
                 headers += strlen(header->ws_extensions[j]->accepted)*sizeof(char);
             }
-            headers += 2*sizeof(char);
+            if ( likely(j+1 != header->ws_extensions_count) ) {
+                headers += 1*sizeof(char);
+            }
         }
-        headers += (header->ws_extensions_count)*sizeof(char);
+        headers += 2*sizeof(char);
     }
     
     if ( NULL != header->ws_protocol ) {
@@ -186,6 +189,7 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     size_t length;
     struct stat filestat;
     char sha1Key[SHA_DIGEST_LENGTH];
+    char *hash = sha1Key;
     char date[GMT_FORMAT_LENGTH];
     char modified[GMT_FORMAT_LENGTH];
     char savedlocale[256];
@@ -215,19 +219,25 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     // Read the content of the favicon file
     if (NULL != config->favicon && access(config->favicon, F_OK) != -1) {
         // Get last modified
-        stat(config->favicon, &filestat);
+        if ( unlikely(-1 == stat(config->favicon, &filestat)) ) {
+            return NULL;
+        }
         setlocale(LC_ALL, "C");
         tm = *gmtime(&filestat.st_mtime);
         strftime(modified, sizeof modified, "%a, %d %b %Y %H:%M:%S %Z", &tm);
         setlocale(LC_ALL, savedlocale);
 
         icon = strload(config->favicon, &ico);
+        if ( unlikely(0 == icon) ) {
+            WSS_free((void **) &ico);
+            return NULL;
+        }
     } else {
         return NULL;
     }
 
     // Generate etag from favicon content
-    WSS_sha1(ico, icon, (char **)&sha1Key);
+    WSS_sha1(ico, icon, &hash);
 
     // Convert etag binary values to hex values
     if ( unlikely(NULL == (etag = bin2hex((const unsigned char *)sha1Key, SHA_DIGEST_LENGTH))) ) {
@@ -242,8 +252,8 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     headers += strlen(etag)*sizeof(char);
     headers += strlen(modified)*sizeof(char);
 
-    length = line + headers + icon + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + headers + icon;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         WSS_free((void **) &etag);
         WSS_free((void **) &ico);
         return NULL;
@@ -253,13 +263,16 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     sprintf(message+line, HTTP_ICO_HEADERS, icon, date, WSS_SERVER_VERSION, etag, modified);
     memcpy(message+(line+headers), ico, icon);
 
-    msg = (wss_message_t *) WSS_malloc(sizeof(wss_message_t));
-    msg->msg = message;
-    msg->length = length;
-
     WSS_free((void **) &etag);
     WSS_free((void **) &ico);
 
+    if ( unlikely(NULL == (msg = (wss_message_t *) WSS_malloc(sizeof(wss_message_t)))) ) {
+        WSS_free((void **) &message);
+        return NULL;
+    }
+    msg->msg = message;
+    msg->length = length;
+
     return msg;
 }
 
@@ -295,8 +308,8 @@ static wss_message_t *upgrade_response(wss_header_t *header, enum HttpStatus_Cod
     headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
     headers += (log10(body)+1)*sizeof(char);
 
-    length = line + headers + body + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + headers + body;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         return NULL;
     }
 
@@ -362,20 +375,23 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
 
     if (code == HttpStatus_NotImplemented) {
         support = strlen(HTTP_WS_VERSION_HEADER)*sizeof(char)-6*sizeof(char);
+        support += (log10(RFC6455)+1)*sizeof(char);
+        support += (log10(HYBI10)+1)*sizeof(char);
+        support += (log10(HYBI07)+1)*sizeof(char);
     }
     headers += strlen(HTTP_HTML_HEADERS)*sizeof(char)-6*sizeof(char);
     headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
     headers += strlen(date)*sizeof(char);
     headers += (log10(body)+1)*sizeof(char);
 
-    length = line + support + headers + body + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + support + headers + body;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         return NULL;
     }
 
     sprintf(message, HTTP_STATUS_LINE, version, code, reason);
     if (code == HttpStatus_NotImplemented) {
-        sprintf(message+support, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07); 
+        sprintf(message+line, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07); 
     }
     sprintf(message+support+line, HTTP_HTML_HEADERS, body, date, WSS_SERVER_VERSION);
     sprintf(message+support+line+headers, HTTP_BODY, code, reason, reason, exp);
-- 
2.43.0


From 322b4c295a35f09345cbd6a354eae56ae2bc6ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 21/28] fix: a handshake may arrive in pieces, is answered in
 every case and releases what it does not use

---
 src/worker.c | 142 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 89 insertions(+), 53 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 0ced922..3d39b43 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -654,6 +654,41 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
     return n;
 }
 
+/**
+ * Answers a request that does not lead to a websocket connection and frees the
+ * header of it.
+ *
+ * @param 	server      [wss_server_t *] 	"A server instance"
+ * @param 	session     [wss_session_t *] 	"The client session"
+ * @param 	header      [wss_header_t *] 	"The header of the request"
+ * @param 	message     [wss_message_t *] 	"The response or NULL"
+ * @return              [void]
+ */
+static void respond(wss_server_t *server, wss_session_t *session, wss_header_t *header, wss_message_t *message) {
+    size_t i;
+
+    // Extensions that were opened for the request are not going to be used
+    for (i = 0; i < header->ws_extensions_count; i++) {
+        header->ws_extensions[i]->ext->close(session->fd);
+    }
+    WSS_free_header(header);
+
+    if ( unlikely(NULL == message) ) {
+        WSS_log_error("Unable to create response");
+        session->closing = true;
+        return;
+    }
+
+    if ( unlikely(WSS_SUCCESS != write_internal(session, message)) ) {
+        session->closing = true;
+        return;
+    }
+
+    session->state = WRITING;
+    session->event = READ;
+    WSS_write(server, session);
+}
+
 /**
  * Performs a websocket handshake with the client session
  *
@@ -670,6 +705,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
     if ( unlikely(NULL == (buffer = WSS_malloc(server->config->size_buffer)))) {
         WSS_log_fatal("Unable to allocate buffer");
+        session->closing = true;
         return;
     }
 
@@ -681,6 +717,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     } else {
         if ( unlikely(NULL == (header = WSS_malloc(sizeof(wss_header_t)))) ) {
             WSS_log_fatal("Unable to allocate header");
+            WSS_free((void **) &buffer);
+            session->closing = true;
             return;
         }
 
@@ -718,19 +756,16 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
                 session->event = WRITE;
 
+                WSS_free((void **) &buffer);
+
                 return;
             // An error occured, notify client by writing back to it
             case -1:
                 WSS_log_trace("Rejecting HTTP request due to being unable to read from client");
 
                 message = http_response(header, HttpStatus_InternalServerError, "Unable to read from client");
-                WSS_free_header(header);
-
-                if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                    session->state = WRITING;
-                    session->event = READ;
-                    WSS_write(server, session);
-                }
+                WSS_free((void **) &buffer);
+                respond(server, session, header, message);
 
                 return;
             case 0:
@@ -739,6 +774,9 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                 // Reallocate space for the header and copy buffer into it
                 if ( unlikely(NULL == (header->content = WSS_realloc((void **) &header->content, header->length*sizeof(char), (header->length+n+1)*sizeof(char)))) ) {
                     WSS_log_fatal("Unable to realloc header content");
+                    WSS_free((void **) &buffer);
+                    WSS_free_header(header);
+                    session->closing = true;
                     return;
                 }
                 memcpy(header->content+header->length, buffer, n);
@@ -752,13 +790,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
                     message = http_response(header, HttpStatus_PayloadTooLarge,
                             "The given payload is too large for the server to handle");
-                    WSS_free_header(header);
-
-                    if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                        session->state = WRITING;
-                        session->event = READ;
-                        WSS_write(server, session);
-                    }
+                    WSS_free((void **) &buffer);
+                    respond(server, session, header, message);
 
                     return;
                 }
@@ -768,6 +801,19 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
     WSS_free((void **)&buffer);
 
+    // The header ends with an empty line. Until it has been received we wait for
+    // the rest of it.
+    if ( unlikely(NULL == header->content || (strlen(header->content) == header->length &&
+                    NULL == strstr(header->content, "\r\n\r\n"))) ) {
+        WSS_log_trace("Header has not been received completely yet");
+
+        session->header = header;
+        session->state = READING;
+        session->event = READ;
+
+        return;
+    }
+
     WSS_log_debug("Client header: \n%s", header->content);
 
     WSS_log_trace("Starting parsing header received from client");
@@ -778,13 +824,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         WSS_log_trace("Rejecting HTTP request due to header not being correct");
 
         message = http_response(header, code, (char *)HttpStatus_reasonPhrase(code));
-        WSS_free_header(header);
-
-        if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-            session->state = WRITING;
-            session->event = READ;
-            WSS_write(server, session);
-        }
+        respond(server, session, header, message);
 
         return;
     }
@@ -793,30 +833,15 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     if (strlen(header->path) == 12 && strncmp(header->path, "/favicon.ico", 12) == 0) {
         message = favicon_response(header, code, server->config);
         if (NULL != message) {
-            WSS_free_header(header);
-
             WSS_log_trace("Serving a favicon to the client");
-
-            // Find and serve favicon.
-            if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-                session->state = WRITING;
-                session->event = READ;
-                WSS_write(server, session);
-            }
         } else {
             WSS_log_trace("Rejecting HTTP request due to favicon not being available");
 
             // Else notify client that favicon could not be found
             code = HttpStatus_NotFound;
             message = http_response(header, code, (char *)HttpStatus_reasonPhrase(code));
-            WSS_free_header(header);
-
-            if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                session->state = WRITING;
-                session->event = READ;
-                WSS_write(server, session);
-            }
         }
+        respond(server, session, header, message);
 
         return;
     }
@@ -857,16 +882,10 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     }
 
     // If code status isnt switching protocols, we notify client with a HTTP error
-    if (code != HttpStatus_SwitchingProtocols) {
+    if (code != HttpStatus_SwitchingProtocols || NULL == message) {
         WSS_log_trace("Unable to establish websocket connection");
 
-        if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-            session->state = WRITING;
-            session->event = READ;
-            WSS_write(server, session);
-        }
-
-        WSS_free_header(header);
+        respond(server, session, header, message);
 
         return;
     }
@@ -876,18 +895,35 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         header->ws_protocol = WSS_find_subprotocol("echo");
     }
 
-    // Notify websocket protocol of the connection
-    header->ws_protocol->connect(session->fd, session->ip, session->port, header->path, header->cookies);
+    if ( unlikely(NULL == header->ws_protocol) ) {
+        WSS_log_error("No subprotocol is available for the client");
+
+        WSS_free((void **) &message->msg);
+        WSS_free((void **) &message);
+
+        message = http_response(header, HttpStatus_InternalServerError, "No subprotocol is available");
+        respond(server, session, header, message);
+
+        return;
+    }
+
+    // The response shall be the first that is sent to the client
+    session->header = header;
+    if ( unlikely(WSS_SUCCESS != write_internal(session, message)) ) {
+        header->ws_protocol = NULL;
+        session->closing = true;
+        return;
+    }
 
     // Set session as fully handshaked
     session->handshaked = true;
-    session->header = header;
+    session->state = WRITING;
+    session->event = READ;
 
-    if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-        session->state = WRITING;
-        session->event = READ;
-        WSS_write(server, session);
-    }
+    // Notify websocket protocol of the connection
+    header->ws_protocol->connect(session->fd, session->ip, session->port, header->path, header->cookies);
+
+    WSS_write(server, session);
 }
 
 /**
-- 
2.43.0


From 8df4e8e0931d1608728f5c6665c90dcfd38eecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 22/28] fix: generating the accept key releases its OpenSSL
 objects when out of memory

---
 src/ssl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ssl.c b/src/ssl.c
index 8453b68..b5d2931 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -788,6 +788,7 @@ size_t WSS_base64_encode_sha1(char *key, size_t key_length, char **accept_key) {
 
     acceptKeyLength = mem_bio_mem_ptr->length;
     if ( unlikely(NULL == (*accept_key = WSS_malloc(acceptKeyLength))) ) {
+        BIO_free_all(b64_bio);
         return 0;
     }
     memcpy(*accept_key, (*mem_bio_mem_ptr).data, acceptKeyLength);
-- 
2.43.0


From 26a434785f240de3e6d7c832142930a449516ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:51 +0000
Subject: [PATCH 23/28] fix: the response to an unsupported HTTP version does
 not echo it as the server's own

---
 src/header.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/header.c b/src/header.c
index d491509..f8b60ab 100644
--- a/src/header.c
+++ b/src/header.c
@@ -212,6 +212,8 @@ static enum HttpStatus_Code parse_header(int fd, wss_header_t *header, wss_confi
     if ( unlikely(strinarray(header->version, versions,
                 sizeof(versions)/sizeof(versions[0])) != 0) ) {
         WSS_log_trace("HTTP version that the client is using is unknown.");
+        // The response is not to carry a version that the server does not speak
+        header->version = NULL;
         return HttpStatus_HTTPVersionNotSupported;
     }
 
-- 
2.43.0


From 5e40d0a7d1b4d2631218ae8af481f5e131aab8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:01 +0000
Subject: [PATCH 24/28] fix: builds without OpenSSL do not crash when the
 accept key cannot be allocated

---
 src/ssl.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ssl.c b/src/ssl.c
index b5d2931..d0fb7ad 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -768,6 +768,7 @@ size_t WSS_base64_encode_sha1(char *key, size_t key_length, char **accept_key) {
     size_t acceptKeyLength;
     char sha1Key[SHA_DIGEST_LENGTH];
     memset(sha1Key, '\0', SHA_DIGEST_LENGTH);
+    *accept_key = NULL;
 
 #if defined(USE_OPENSSL) && ! defined(OPENSSL_IS_BORINGSSL)
     SHA1((const unsigned char *)key, key_length, (unsigned char*) sha1Key);
@@ -798,6 +799,9 @@ size_t WSS_base64_encode_sha1(char *key, size_t key_length, char **accept_key) {
     SHA1((const unsigned char *)key, key_length, (unsigned char*) sha1Key);
 
     *accept_key = b64_encode((const unsigned char *) sha1Key, SHA_DIGEST_LENGTH);
+    if ( unlikely(NULL == *accept_key) ) {
+        return 0;
+    }
     acceptKeyLength = strlen(*accept_key);
 #elif defined(USE_WOLFSSL)
     Sha sha;
@@ -805,11 +809,10 @@ size_t WSS_base64_encode_sha1(char *key, size_t key_length, char **accept_key) {
     wc_ShaUpdate(&sha, (const unsigned char *) key, key_length);
     wc_ShaFinal(&sha, (unsigned char *)sha1Key);
 
-    if ( unlikely(NULL == (*accept_key = WSS_malloc((SHA_DIGEST_LENGTH*4)/3+1))) ) {
+    *accept_key = b64_encode((const unsigned char *) sha1Key, SHA_DIGEST_LENGTH);
+    if ( unlikely(NULL == *accept_key) ) {
         return 0;
     }
-
-    *accept_key = b64_encode((const unsigned char *) sha1Key, SHA_DIGEST_LENGTH);
     acceptKeyLength = strlen(*accept_key);
 #else
     SHA1Context sha;
@@ -827,6 +830,9 @@ size_t WSS_base64_encode_sha1(char *key, size_t key_length, char **accept_key) {
     }
 
     *accept_key = b64_encode((const unsigned char *) sha1Key, SHA_DIGEST_LENGTH);
+    if ( unlikely(NULL == *accept_key) ) {
+        return 0;
+    }
     acceptKeyLength = strlen(*accept_key);
 #endif
 
-- 
2.43.0


From d9f10844ee2ac11c2f70d2623e7417ad4f91d5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:19 +0000
Subject: [PATCH 25/28] fix: writing to a TLS stream that the client closed
 does not loop forever

---
 src/ssl.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ssl.c b/src/ssl.c
index d0fb7ad..cd481d3 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -455,7 +455,8 @@ bool WSS_ssl_write_partial(wss_session_t *session, unsigned int message_index, w
         return false;
     }
 
-    if ( unlikely(err != SSL_ERROR_NONE && err != SSL_ERROR_ZERO_RETURN) ) {
+    // A stream that was closed by the client does not accept anything anymore
+    if ( unlikely(err != SSL_ERROR_NONE) ) {
         char msg[1024];
 #if defined(USE_OPENSSL)
         while ( (err = ERR_get_error()) != 0 ) {
@@ -503,7 +504,7 @@ void WSS_ssl_write(wss_session_t *session, char *message, unsigned int message_l
 #elif defined(USE_WOLFSSL)
         n = wolfSSL_write(session->ssl, message+written, message_length-written);
 #endif
-        if (n < 0) {
+        if (n <= 0) {
             break;
         }
         written += n;
-- 
2.43.0


From 4debf1f516b4b960c68d215a68d5e20a1cc6a365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:22 +0000
Subject: [PATCH 26/28] fix: the cleanup thread closes only idle sessions, one
 at a time and without corrupting output

A session that was active after the round began was closed because the age
was compared as an unsigned number. Sessions were removed from the table
with only its read lock, while waiting for jobs that may need it, and the
subprotocol was told twice. Pings and close frames were written around the
queue and the lock of the session, possibly in the middle of other output,
and running out of memory crashed the server.
---
 include/session.h |   2 +
 src/server.c      | 202 +++++++++++++++++++++++++++++++---------------
 2 files changed, 140 insertions(+), 64 deletions(-)

diff --git a/include/session.h b/include/session.h
index 4961b64..4deb48f 100644
--- a/include/session.h
+++ b/include/session.h
@@ -97,6 +97,8 @@ typedef struct {
     size_t frames_length;
     // If not all data was written, store many bytes currently written
     unsigned int written;
+    // The next session that the cleanup thread must close
+    void *next;
     // Used for session hash table
     UT_hash_handle hh;
 } wss_session_t;
diff --git a/src/server.c b/src/server.c
index 0cdca9d..1c0e59f 100644
--- a/src/server.c
+++ b/src/server.c
@@ -12,6 +12,7 @@
 #include "event.h"               
 #include "log.h"
 #include "session.h"
+#include "message.h"
 #include "alloc.h"
 #include "socket.h"
 #include "pool.h"               /* threadpool_add, threadpool_strerror */
@@ -87,104 +88,177 @@ static inline void write_control_frame(wss_frame_t *frame, wss_session_t *sessio
     WSS_free((void **) &message);
 }
 
-static void cleanup_session(wss_session_t *session) {
+/**
+ * Sessions that have timed out, and that only the cleanup thread is going to
+ * disconnect
+ */
+static wss_session_t *timedout = NULL;
+
+/**
+ * Closes a session that has timed out. The caller must be the one that has
+ * marked the session as disconnecting.
+ *
+ * @param   session     [wss_session_t *]   "The session"
+ * @return 	            [void]
+ */
+static void close_session(wss_session_t *session) {
     wss_error_t err;
     wss_frame_t *frame;
-    long unsigned int ms;
+    bool pending;
     int fd = session->fd;
     wss_server_t *server = servers.http;
-    bool dc;
-
-    if (! session->handshaked) {
-        return;
-    }
 
     if (NULL != session->ssl && session->ssl_connected) {
         server = servers.https;
     }
 
-    ms = (((now.tv_sec - session->alive.tv_sec)*1000)+(now.tv_nsec/1000000)) - (session->alive.tv_nsec/1000000);
+    // Nobody shall keep waiting to write to the session
+    pthread_mutex_lock(&session->lock);
+    pending = (session->state == WRITING);
+    session->closing = true;
+    session->state = CLOSING;
+    pthread_mutex_unlock(&session->lock);
 
-    WSS_log_info("Check timeout %d ms", ms);
+    WSS_session_jobs_wait(session);
 
-    // Session timed out
-    if ( unlikely(server->config->timeout_client >= 0 && ms >= (long unsigned int)server->config->timeout_client) ) {
-        WSS_session_is_disconnecting(session, &dc);
-        if (dc) {
-            return;
-        }
-
-        WSS_session_jobs_wait(session);
+    if (! session->ssl_connected) {
+        WSS_log_trace("Session %d disconnected from ip: %s:%d using HTTP request, due to timing out", session->fd, session->ip, session->port);
+    } else {
+        WSS_log_trace("Session %d disconnected from ip: %s:%d using HTTPS request, due to timing out", session->fd, session->ip, session->port);
+    }
 
-        WSS_log_info("Session %d has timedout last active %d ms ago", fd, ms);
+    WSS_log_trace("Informing subprotocol of client with file descriptor %d disconnecting", session->fd);
 
-        session->closing = true;
-        session->state = CLOSING;
+    if ( NULL != session->header && session->header->ws_protocol != NULL ) {
+        WSS_log_trace("Informing subprotocol about session close");
+        session->header->ws_protocol->close(session->fd);
 
-        if (! session->ssl_connected) {
-            WSS_log_trace("Session %d disconnected from ip: %s:%d using HTTP request, due to timing out", session->fd, session->ip, session->port);
-        } else {
-            WSS_log_trace("Session %d disconnected from ip: %s:%d using HTTPS request, due to timing out", session->fd, session->ip, session->port);
-        }
+        // The subprotocol must not be told again when the session is deleted
+        session->header->ws_protocol = NULL;
+    }
 
-        WSS_log_trace("Informing subprotocol of client with file descriptor %d disconnecting", session->fd);
+    WSS_log_trace("Removing poll filedescriptor from eventlist");
 
-        if ( NULL != session->header && session->header->ws_protocol != NULL ) {
-            WSS_log_trace("Informing subprotocol about session close");
-            session->header->ws_protocol->close(session->fd);
-        }
+    WSS_poll_remove(server, fd);
 
-        WSS_log_trace("Removing poll filedescriptor from eventlist");
+    // The close frame must not end up in the middle of another message
+    if ( likely(! pending && NULL != (frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL))) ) {
+        WSS_log_trace("Sending close frame", fd);
 
-        WSS_poll_remove(server, fd);
+        write_control_frame(frame, session);
+    }
 
-        WSS_log_trace("Sending close frame", fd);
+    WSS_log_trace("Deleting client session");
 
-        frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL);
+    if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete(session))) ) {
+        WSS_log_error("Unable to delete client session, received error code: %d", err);
+        return;
+    }
 
-        write_control_frame(frame, session);
+    WSS_log_info("Client with session %d disconnected", fd);
+}
 
-        WSS_log_trace("Deleting client session");
-
-        if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete_no_lock(session))) ) {
-            switch (err) {
-                case WSS_SSL_SHUTDOWN_READ_ERROR:
-                        WSS_poll_set_read(server, fd);
-                    return;
-                case WSS_SSL_SHUTDOWN_WRITE_ERROR:
-                        WSS_poll_set_write(server, fd);
-                    return;
-                default:
-                    break;
-            }
-            WSS_log_error("Unable to delete client session, received error code: %d", err);
-            return;
-        }
+/**
+ * Pings a session, unless it is busy anyway.
+ *
+ * @param 	server	    [wss_server_t *] 	"The server structure"
+ * @param   session     [wss_session_t *]   "The session"
+ * @return 	            [void]
+ */
+static void ping_session(wss_server_t *server, wss_session_t *session) {
+    wss_frame_t *frame;
 
-        WSS_log_info("Client with session %d disconnected", fd);
+    if ( unlikely(pthread_mutex_trylock(&session->lock) != 0) ) {
+        return;
+    }
 
-    // Ping session to keep it alive
-    } else if (server->config->timeout_pings > 0 ) {
-        WSS_log_info("Pinging session %d", fd);
+    if ( likely(session->state == IDLE && ! session->closing) ) {
+        WSS_log_info("Pinging session %d", session->fd);
 
-        frame = WSS_ping_frame();
-        if (session->pong != NULL) {
+        if ( likely(NULL != (frame = WSS_ping_frame())) ) {
             WSS_free((void **) &session->pong);
             session->pong_length = 0;
-        }
 
-        if (NULL == (session->pong = WSS_malloc(frame->applicationDataLength))) {
+            if ( likely(NULL != (session->pong = WSS_malloc(frame->applicationDataLength))) ) {
+                session->pong_length = frame->applicationDataLength;
+                memcpy(session->pong, frame->payload+frame->extensionDataLength, frame->applicationDataLength);
+
+                // The job is ended by the function that sends the frame
+                if ( likely(WSS_SUCCESS == WSS_session_jobs_inc(session)) ) {
+                    WSS_message_send_frames(server, session, &frame, 1);
+                }
+            }
+
             WSS_free_frame(frame);
+        }
+    }
+
+    pthread_mutex_unlock(&session->lock);
+}
+
+/**
+ * Pings a session or, if it has timed out, remembers that it must be closed.
+ * This is called with the sessions being locked, such that no session is
+ * deleted meanwhile.
+ *
+ * @param   session     [wss_session_t *]   "The session"
+ * @return 	            [void]
+ */
+static void cleanup_session(wss_session_t *session) {
+    long int ms;
+    wss_server_t *server = servers.http;
+    bool dc;
+
+    if (! session->handshaked) {
+        return;
+    }
+
+    if (NULL != session->ssl && session->ssl_connected) {
+        server = servers.https;
+    }
+
+    // Negative if the session has been active since the cleanup began
+    ms = (((now.tv_sec - session->alive.tv_sec)*1000)+(now.tv_nsec/1000000)) - (session->alive.tv_nsec/1000000);
+
+    WSS_log_info("Check timeout %d ms", ms);
+
+    // Session timed out
+    if ( unlikely(server->config->timeout_client >= 0 && ms >= server->config->timeout_client) ) {
+        WSS_session_is_disconnecting(session, &dc);
+        if (dc) {
             return;
         }
-        session->pong_length = frame->applicationDataLength;
 
-        memcpy(session->pong, frame->payload+frame->extensionDataLength, frame->applicationDataLength);
+        WSS_log_info("Session %d has timedout last active %d ms ago", session->fd, ms);
 
-        write_control_frame(frame, session);
+        session->next = timedout;
+        timedout = session;
+
+    // Ping session to keep it alive
+    } else if (server->config->timeout_pings > 0 ) {
+        ping_session(server, session);
     }
 }
 
+/**
+ * Pings all sessions and closes those that have timed out.
+ *
+ * @return 	[wss_error_t] 	"The error status"
+ */
+static wss_error_t cleanup() {
+    wss_error_t err;
+    wss_session_t *session;
+
+    err = WSS_session_all(cleanup_session);
+
+    while ( NULL != (session = timedout) ) {
+        timedout = (wss_session_t *) session->next;
+        close_session(session);
+    }
+
+    return err;
+}
+
 /**
  * Function that updates the state of the server.
  *
@@ -250,11 +324,11 @@ void *WSS_cleanup() {
             WSS_log_info("Pings clients and cleanup timedout ones");
             
             clock_gettime(CLOCK_MONOTONIC, &now);
-            if ( unlikely(WSS_SUCCESS != (err = WSS_session_all(cleanup_session))) ) {
+            if ( unlikely(WSS_SUCCESS != (err = cleanup())) ) {
 #ifdef USE_RPMALLOC
                 rpmalloc_thread_finalize();
 #endif
-                pthread_exit( ((void *) &err) );
+                pthread_exit( ((void *) ((uintptr_t)err)) );
             }
         }
     }
-- 
2.43.0


From bbd9f96f9eea25e523c41f86b58f4592ce67e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:51 +0000
Subject: [PATCH 27/28] fix: building the request uri pattern reports failures
 and releases its memory

A failed allocation left the server without the restriction, an empty string
in a list was written to a string literal, and an expression that could not be
compiled was kept and freed.
---
 src/http.c | 59 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/src/http.c b/src/http.c
index b95a1e5..43ee575 100644
--- a/src/http.c
+++ b/src/http.c
@@ -27,9 +27,10 @@
  * @param   config    [wss_config_t *]  "The configuration of the server"
  * @param   ssl       [bool]            "Whether server uses SSL"
  * @param   port      [int]             "The server port"
- * @return            [char *]          "The request uri regex pattern"
+ * @param   pattern   [char **]         "The request uri regex pattern, NULL if nothing is configured"
+ * @return            [wss_error_t]     "The error status"
  */
-static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
+static wss_error_t generate_request_uri(wss_config_t * config, bool ssl, int port, char **pattern) {
     int i, j, k;
     size_t iw = 0, jw = 0, kw = 0;
     size_t request_uri_length = 0;
@@ -37,9 +38,9 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
     size_t sum_path_length = 0; 
     size_t sum_query_length = 0; 
     char *request_uri;
-    char *host = "";
-    char *path = "";
-    char *query = "";
+    char *host = NULL;
+    char *path = NULL;
+    char *query = NULL;
     char *s = "";
 
     for (i = 0; i < config->hosts_length; i++) {
@@ -57,8 +58,10 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
     }
     sum_query_length += MAX(config->queries_length-1, 0);
 
+    *pattern = NULL;
+
     if (sum_host_length+sum_path_length+sum_query_length == 0) {
-        return NULL;
+        return WSS_SUCCESS;
     }
 
     request_uri_length += strlen(REQUEST_URI)*sizeof(char)-12*sizeof(char);
@@ -74,16 +77,15 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
         s = "s";
     }
 
-    if ( unlikely(sum_host_length > 0 && NULL == (host = WSS_malloc(sum_host_length+1))) ) {
-        return NULL;
-    }
-
-    if ( unlikely(sum_path_length > 0 && NULL == (path = WSS_malloc(sum_path_length+1))) ) {
-        return NULL;
-    }
-
-    if ( unlikely(sum_query_length > 0 && NULL == (query = WSS_malloc(sum_query_length+1))) ) {
-        return NULL;
+    if ( unlikely(NULL == request_uri ||
+                NULL == (host = WSS_malloc(sum_host_length+1)) ||
+                NULL == (path = WSS_malloc(sum_path_length+1)) ||
+                NULL == (query = WSS_malloc(sum_query_length+1))) ) {
+        WSS_free((void **) &request_uri);
+        WSS_free((void **) &host);
+        WSS_free((void **) &path);
+        WSS_free((void **) &query);
+        return WSS_MEMORY_ERROR;
     }
 
     for (i = 0; likely(i < config->hosts_length); i++) {
@@ -118,19 +120,13 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
 
     sprintf(request_uri, REQUEST_URI, s, host, port, path, query, query);
 
-    if ( likely(strlen(host) > 0) ) {
-        WSS_free((void **) &host);
-    }
+    WSS_free((void **) &host);
+    WSS_free((void **) &path);
+    WSS_free((void **) &query);
 
-    if ( likely(strlen(path) > 0) ) {
-        WSS_free((void **) &path);
-    }
-
-    if ( likely(strlen(query) > 0) ) {
-        WSS_free((void **) &query);
-    }
+    *pattern = request_uri;
 
-    return request_uri;
+    return WSS_SUCCESS;
 }
 
 /**
@@ -149,13 +145,20 @@ wss_error_t WSS_http_regex_init(wss_server_t *server) {
         ssl = true;
     }
 
-    request_uri = generate_request_uri(server->config, ssl, server->port);
+    if ( unlikely(WSS_SUCCESS != (err = generate_request_uri(server->config, ssl, server->port, &request_uri))) ) {
+        WSS_log_error("Unable to generate request uri pattern");
+        return err;
+    }
+
     if ( likely(request_uri != NULL) ) {
         if ( NULL == (server->re = WSS_malloc(sizeof(regex_t)))) {
+            WSS_free((void **) &request_uri);
             return WSS_MEMORY_ERROR;
         }
 
         if ( unlikely((err = regcomp(server->re, request_uri, REG_EXTENDED|REG_NOSUB)) != 0) ) {
+            WSS_free((void **) &server->re);
+            WSS_free((void **) &request_uri);
             return WSS_REGEX_ERROR;
         }
 
-- 
2.43.0


From 459e5f324c695bb4125be00b4f2df0e8b60af4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:51 +0000
Subject: [PATCH 28/28] fix: freeing a configuration that failed to load
 releases each part once

The hosts with ports were found by arithmetic that does not hold before they
exist, the paths were never freed, entries without a file were accepted, and
main freed uninitialised members.
---
 include/config.h |  1 +
 src/config.c     | 31 +++++++++++++------------------
 src/main.c       |  1 +
 3 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/include/config.h b/include/config.h
index 73dcaf7..4a5b5f6 100644
--- a/include/config.h
+++ b/include/config.h
@@ -10,6 +10,7 @@ typedef struct {
     char *string;
     size_t length;
     char **hosts;
+    char *hosts_ports; // Memory of the hosts that have a port appended
     char **paths;
     char **queries;
     char **origins;
diff --git a/src/config.c b/src/config.c
index d7d3938..b6799c0 100644
--- a/src/config.c
+++ b/src/config.c
@@ -52,6 +52,7 @@ static wss_error_t config_add_port_to_hosts(wss_config_t *config) {
         WSS_config_free(config);
         return WSS_MEMORY_ERROR;
     }
+    config->hosts_ports = extra;
 
     if ( likely(config->port_http > 0) ) {
         for (i = 0; likely(i < hosts_length); i++) {
@@ -101,7 +102,7 @@ static void WSS_config_release (void * ptr, void * user_data)
  * @return 			[wss_error_t]       "The error status"
  */
 wss_error_t WSS_config_load(wss_config_t *config, char *path) {
-    char error[1024];
+    char error[1024] = "";
     unsigned int i, j, length;
     char *name;
     json_value *value, *val, *temp;
@@ -113,7 +114,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
 
     config->length = strload(path, &config->string);
     if ( unlikely(NULL == config->string) ) {
-        WSS_log_error("Unable to load JSON file: %s", error);
+        WSS_log_error("Unable to load JSON file");
         WSS_config_free(config);
         return WSS_CONFIG_LOAD_ERROR;
     }
@@ -272,6 +273,10 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                                                 WSS_config_free(config);
                                                 return WSS_CONFIG_INVALID_SUBPROTOCOL;
                                             }
+                                        } else {
+                                            WSS_log_error("Invalid subprotocol");
+                                            WSS_config_free(config);
+                                            return WSS_CONFIG_INVALID_SUBPROTOCOL;
                                         }
 
                                         if ( (temp = json_value_find(val->u.array.values[j], "config")) != NULL ) {
@@ -326,6 +331,10 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                                                 WSS_config_free(config);
                                                 return WSS_CONFIG_INVALID_EXTENSION;
                                             }
+                                        } else {
+                                            WSS_log_error("Invalid extension");
+                                            WSS_config_free(config);
+                                            return WSS_CONFIG_INVALID_EXTENSION;
                                         }
 
                                         if ( (temp = json_value_find(val->u.array.values[j], "config")) != NULL ) {
@@ -595,31 +604,17 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
  * @return 			[wss_error_t]       "The error status"
  */
 wss_error_t WSS_config_free(wss_config_t *config) {
-    unsigned int amount = 1;
-
     if ( likely(NULL != config) ) {
-        if ( likely(config->port_http > 0) ) {
-            amount++;
-        }
-
-        if ( likely(config->port_https > 0) ) {
-            amount++;
-        }
-
-        if ( likely(amount > 1) ) {
-            if ( NULL != config->hosts ) {
-                WSS_free((void **)&config->hosts[(config->hosts_length/amount)*(amount-1)]);
-            }
-        }
-
         if ( likely(NULL != config->data) ) {
             json_value_free_ex(&settings, config->data);
             config->data = NULL;
         }
 
         WSS_free((void **) &config->string);
+        WSS_free((void **) &config->hosts_ports);
         WSS_free((void **) &config->hosts);
         WSS_free((void **) &config->origins);
+        WSS_free((void **) &config->paths);
         WSS_free((void **) &config->queries);
         WSS_free((void **) &config->extensions);
         WSS_free((void **) &config->subprotocols);
diff --git a/src/main.c b/src/main.c
index 59effd9..862c2a5 100644
--- a/src/main.c
+++ b/src/main.c
@@ -54,6 +54,7 @@ int main(int argc, char *argv[]) {
     };
     
     // Default values
+    memset(&config, 0, sizeof(config));
     config.subprotocols         = NULL;
     config.subprotocols_length  = 0;
     config.extensions           = NULL;
-- 
2.43.0

