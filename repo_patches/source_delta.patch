From b55531741c1e5368d9b2e685c21c416bf5acfdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 001/118] fix: treat incoming bytes as unsigned so that
 non-ASCII characters are not taken for the end of the stream

---
 src/message.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/message.c b/src/message.c
index 8be8510..c0566f2 100644
--- a/src/message.c
+++ b/src/message.c
@@ -74,7 +74,7 @@ int __is_valid_key(char* c, int len) {
     if (len > MAX_KEY_LENGTH) return 0;
 
     for (i = 0; i < len; i++) {
-        if (!(isalnum(c[i]) || c[i] == '.' || c[i] == '_')) return 0;
+        if (!(isalnum((unsigned char) c[i]) || c[i] == '.' || c[i] == '_')) return 0;
     }
 
     return 1;
@@ -295,7 +295,7 @@ static __INLINE int read_character(message_stream* stream) {
 
     stream->buffer_position++;
 
-    return chr;
+    return (unsigned char) chr;
 
 }
 
@@ -321,7 +321,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
         switch (stream->input.state) {
             case PARSE_STATE_TYPE: { // Parsing message type
 
-                if (isalnum(chr)) {
+                if (isalnum((unsigned char) chr)) {
 
                     buffer_push(stream->input.key_buffer, chr);
 
-- 
2.43.0


From c2e98f985734c99ec044fa54af423609c86fa6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 002/118] fix: skip malformed and cut-off messages as a whole
 instead of mixing them with other messages

---
 src/message.c | 59 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/src/message.c b/src/message.c
index c0566f2..be369c0 100644
--- a/src/message.c
+++ b/src/message.c
@@ -299,22 +299,40 @@ static __INLINE int read_character(message_stream* stream) {
 
 }
 
+// Discards everything that was collected from a malformed message and ignores the rest of its line
+static void discard_message(message_stream* stream, string_list* arguments, trax_properties* properties, char chr) {
+
+    stream->input.message_type = -1;
+    stream->input.state = chr == '\n' ? -prefix_length : PARSE_STATE_PASS;
+
+    buffer_reset(stream->input.key_buffer);
+    buffer_reset(stream->input.value_buffer);
+
+    list_reset(arguments);
+    trax_properties_clear(properties);
+
+}
+
 int read_message(message_stream* stream, trax_logging* log, string_list* arguments, trax_properties* properties) {
 	
 	VALIDATE_MESSAGE_STREAM(stream);
 
     list_reset(arguments);
 
+    stream->input.message_type = -1;
+
     while (!stream->input.complete) {
 
     	char chr; 
     	int val = read_character(stream);
 
     	if (val < 0) {
-    		if (stream->input.message_type == -1) break;
-    		chr = '\n';
-    		stream->input.complete = TRUE;
-    	} else chr = (char) val;
+    		// A message that was cut off by the end of the stream is never reported
+    		discard_message(stream, arguments, properties, '\n');
+    		break;
+    	}
+
+    	chr = (char) val;
 
         LOG_CHAR(log, chr);
 
@@ -348,8 +366,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     free(key_tmp);
 
                     if (stream->input.message_type == -1) {
-                		stream->input.state = PARSE_STATE_PASS;
-                		stream->input.message_type = -1;
+                		stream->input.state = -prefix_length;
                     } else {
                         stream->input.complete = TRUE;
                     }
@@ -371,11 +388,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 } else if (chr == '\n') {
                 	stream->input.complete = TRUE;
                 } else {
-                	stream->input.message_type = -1;
-                	stream->input.state = PARSE_STATE_PASS;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
-                    buffer_push(stream->input.key_buffer, chr);             	
+                    discard_message(stream, arguments, properties, chr);
                 }
 
                 break;
@@ -475,10 +488,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	buffer_push(stream->input.key_buffer, chr);
                     stream->input.state = PARSE_STATE_UNQUOTED_KEY;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
-                    stream->input.message_type = -1;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
+                    discard_message(stream, arguments, properties, chr);
 
                 }
                 
@@ -494,10 +504,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     buffer_push(stream->input.value_buffer, chr);
                     stream->input.state = PARSE_STATE_UNQUOTED_VALUE;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
-                    stream->input.message_type = -1;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
+                    discard_message(stream, arguments, properties, chr);
                 }
                 
                 break;
@@ -521,6 +528,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	else { // If the key is not valid then we probably have a Base64 encoding
                 		buffer_push(stream->input.key_buffer, chr);
                 	}
+                } else if (chr == '\n') { // a message never extends over its line
+                    discard_message(stream, arguments, properties, chr);
                 } else {                    
                 	buffer_push(stream->input.key_buffer, chr);
                 } 
@@ -543,6 +552,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
 
+                } else if (chr == '\n') { // a message never extends over its line
+                    discard_message(stream, arguments, properties, chr);
                 } else
                     buffer_push(stream->input.value_buffer, chr);
 
@@ -558,10 +569,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	buffer_push(stream->input.key_buffer, chr);
                     stream->input.state = PARSE_STATE_QUOTED_KEY;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
-                    stream->input.message_type = -1;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
+                    discard_message(stream, arguments, properties, chr);
 
                 }
                 
@@ -577,10 +585,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     buffer_push(stream->input.value_buffer, chr);
                     stream->input.state = PARSE_STATE_QUOTED_VALUE;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
-                    stream->input.message_type = -1;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
+                    discard_message(stream, arguments, properties, chr);
                 }
                 
                 break;
-- 
2.43.0


From 3b309ca46e27012d3a89ec83b4f2dc511bb06204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 003/118] fix: interpret an escape sequence at the beginning of
 an unquoted argument

---
 src/message.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message.c b/src/message.c
index be369c0..de93568 100644
--- a/src/message.c
+++ b/src/message.c
@@ -404,6 +404,10 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     stream->input.state = PARSE_STATE_QUOTED_KEY;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
+                } else if (chr == '\\') {
+                    stream->input.state = PARSE_STATE_UNQUOTED_ESCAPE_KEY;
+                    buffer_reset(stream->input.key_buffer);
+                    buffer_reset(stream->input.value_buffer);
                 } else {
                 	stream->input.state = PARSE_STATE_UNQUOTED_KEY;
                     buffer_reset(stream->input.key_buffer);
-- 
2.43.0


From 65d0396d01a7cac678a3148cc0ea01c10b8d34c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 004/118] fix: retry reads and writes that were interrupted by
 a signal

---
 src/message.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/message.c b/src/message.c
index de93568..d67d02c 100644
--- a/src/message.c
+++ b/src/message.c
@@ -24,6 +24,7 @@
 #endif
 
 #include <ctype.h>
+#include <errno.h>
 
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER) 
 #include <winsock2.h>
@@ -268,15 +269,21 @@ static __INLINE int read_character(message_stream* stream) {
 
     if (stream->buffer_position >= stream->buffer_length) {
 
-        if (stream->flags & TRAX_STREAM_SOCKET) {
+        do {
 
-		    stream->buffer_length = recv(stream->socket.socket, stream->buffer, TRAX_BUFFER_SIZE, 0);
+            errno = 0;
 
-        } else {
+            if (stream->flags & TRAX_STREAM_SOCKET) {
 
-        	stream->buffer_length = read(stream->files.input, stream->buffer, TRAX_BUFFER_SIZE);
-           
-        }
+                stream->buffer_length = recv(stream->socket.socket, stream->buffer, TRAX_BUFFER_SIZE, 0);
+
+            } else {
+
+                stream->buffer_length = read(stream->files.input, stream->buffer, TRAX_BUFFER_SIZE);
+
+            }
+
+        } while (stream->buffer_length < 0 && errno == EINTR); // Interrupted by a signal, nothing was read yet
 
         if (stream->buffer_length < 0) {
             return -1; // An error has occured  
@@ -645,6 +652,7 @@ int write_buffer(message_stream* stream, const char* buf, int len, trax_logging*
             int l = send(stream->socket.socket, buf+cnt, len-cnt, 0);
             #endif
             if(l == -1) {
+                if (errno == EINTR) continue;
                 return -1;
             }
             cnt += l;
@@ -657,6 +665,7 @@ int write_buffer(message_stream* stream, const char* buf, int len, trax_logging*
         while(cnt < len) {
             int l = write(stream->files.output, buf+cnt, len-cnt);
             if(l == -1) {
+                if (errno == EINTR) continue;
                 return -1;
             }
             cnt += l;
-- 
2.43.0


From 265cb8475efa0ebc616b03ecd86381c91513bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 005/118] fix: keep the connection timeout when waiting is
 interrupted by a signal and close the rejected socket

---
 src/message.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/message.c b/src/message.c
index d67d02c..51f0c07 100644
--- a/src/message.c
+++ b/src/message.c
@@ -185,6 +185,7 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
 
 	fd_set readfds,writefds,exceptfds;
 	int asock=-1;
+    int ready;
     int one = 1;
     message_stream* stream = NULL;
     struct timeval tv;
@@ -198,15 +199,18 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
 		return NULL;
 	}
 
-	FD_ZERO(&readfds);
-	FD_ZERO(&writefds);
-	FD_ZERO(&exceptfds);
-	FD_SET(server,&readfds);
-	FD_SET(server,&exceptfds);
+    do {
+        FD_ZERO(&readfds);
+        FD_ZERO(&writefds);
+        FD_ZERO(&exceptfds);
+        FD_SET(server,&readfds);
+        FD_SET(server,&exceptfds);
 
-    select(server+1,&readfds,&writefds,&exceptfds,&tv);
-	
-	if(FD_ISSET(server,&readfds)) {
+        errno = 0;
+        ready = select(server+1,&readfds,&writefds,&exceptfds,&tv);
+    } while (ready < 0 && errno == EINTR);
+
+	if(ready > 0 && FD_ISSET(server,&readfds)) {
 		struct sockaddr_in pin;
 		int addrlen = sizeof(struct sockaddr_in);
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER) 
@@ -223,6 +227,7 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
 	if (setsockopt(asock, IPPROTO_TCP , TCP_NODELAY,
 						 (const char *)&one, sizeof(int)) == -1) {
         perror("nodelay");
+        if (asock != -1) closesocket(asock);
         return NULL;
     }
 
-- 
2.43.0


From a165fb3b201e6513baf0c72fa73d38db90d4a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 006/118] fix: do not take an argument that starts with an
 equals sign for a property with an empty key

---
 src/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 51f0c07..3cac808 100644
--- a/src/message.c
+++ b/src/message.c
@@ -72,7 +72,7 @@ const int prefix_length = sizeof(TRAX_PREFIX) - 1;
 int __is_valid_key(char* c, int len) {
     int i;
 
-    if (len > MAX_KEY_LENGTH) return 0;
+    if (len < 1 || len > MAX_KEY_LENGTH) return 0;
 
     for (i = 0; i < len; i++) {
         if (!(isalnum((unsigned char) c[i]) || c[i] == '.' || c[i] == '_')) return 0;
-- 
2.43.0


From c2a2b3f423eec3b615eaf00259d60f213524731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 007/118] fix: keep existing values when properties are
 appended without overwriting

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 9e8286f..b526d8f 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -520,8 +520,8 @@ void channels_encode(int channels, char *key) {
 void copy_properties(const trax_properties* source, trax_properties* dest, int flags) {
 
     trax_enumerator f = (flags & COPY_ALL) ?
-     ((flags && COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
-     ((flags && COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
+     ((flags & COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
+     ((flags & COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
     
     trax_properties_enumerate(source, f, dest);
 
-- 
2.43.0


From 9765532e08de1477466b0ec07919d20007e70e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 008/118] fix: accept only valid property keys, as documented,
 because others corrupt messages

---
 src/message.c | 2 +-
 src/message.h | 2 ++
 src/trax.c    | 3 +++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 3cac808..178734c 100644
--- a/src/message.c
+++ b/src/message.c
@@ -69,7 +69,7 @@ static void initialize_sockets(void) {}
 
 const int prefix_length = sizeof(TRAX_PREFIX) - 1;
 
-int __is_valid_key(char* c, int len) {
+int __is_valid_key(const char* c, int len) {
     int i;
 
     if (len < 1 || len > MAX_KEY_LENGTH) return 0;
diff --git a/src/message.h b/src/message.h
index 412c00a..e6d63d8 100644
--- a/src/message.h
+++ b/src/message.h
@@ -60,6 +60,8 @@ message_stream* create_message_stream_socket_accept(int server, int timeout);
 
 void destroy_message_stream(message_stream** stream);
 
+int __is_valid_key(const char* c, int len);
+
 int read_message(message_stream* stream, trax_logging* log, string_list* arguments, trax_properties* properties);
 	
 void write_message(message_stream* stream, trax_logging* log, int type, const string_list* arguments, trax_properties* properties);
diff --git a/src/trax.c b/src/trax.c
index b526d8f..1713381 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1956,6 +1956,9 @@ void trax_properties_append(const trax_properties* source, trax_properties* drai
 
 void trax_properties_set(trax_properties* properties, const char* key, const char* value) {
 
+    // Only keys that are valid according to the protocol are accepted
+    if (!key || !__is_valid_key(key, (int) strlen(key))) return;
+
     sm_put(properties->map, key, value);
 
 }
-- 
2.43.0


From 284fe39130257ac294140cbe77a0fa7ec17a1ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 009/118] fix: return the default for an empty property value
 instead of an uninitialized number

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 1713381..0e020e2 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2001,7 +2001,7 @@ int trax_properties_has(const trax_properties* properties, const char* key) {
 int trax_properties_get_int(const trax_properties* properties, const char* key, int def) {
 
     char* end;
-    long ret;
+    long ret = def;
     char* value = trax_properties_get(properties, key);
 
     if (value == NULL) return def;
@@ -2020,7 +2020,7 @@ int trax_properties_get_int(const trax_properties* properties, const char* key,
 float trax_properties_get_float(const trax_properties* properties, const char* key, float def) {
 
     char* end;
-    float ret;
+    float ret = def;
     char* value = trax_properties_get(properties, key);
 
     if (value == NULL) return def;
-- 
2.43.0


From 0c0ddd2b67d738a1d0556861667ea4ce9d134ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 010/118] fix: return the default for a numeric property value
 outside the integer range

---
 src/trax.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 0e020e2..5711eed 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -4,6 +4,7 @@
 #include <string.h>
 #include <assert.h>
 #include <float.h>
+#include <limits.h>
 
 #define _TRAX_BUILDING
 
@@ -2001,14 +2002,15 @@ int trax_properties_has(const trax_properties* properties, const char* key) {
 int trax_properties_get_int(const trax_properties* properties, const char* key, int def) {
 
     char* end;
-    long ret = def;
+    double ret = def;
     char* value = trax_properties_get(properties, key);
 
     if (value == NULL) return def;
 
     if (value[0] != '\0') {
-        ret = (int) strtod(value, &end);
+        ret = strtod(value, &end);
         ret = (*end == '\0' && end != value) ? ret : def;
+        if (!(ret > (double) INT_MIN - 1 && ret < (double) INT_MAX + 1)) ret = def;
     }
 
     free(value);
-- 
2.43.0


From c255aa1a18b82c641a48f18d6a75b321ce500547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 011/118] fix: format the text of errors from the actual
 arguments

---
 src/buffer.h | 20 +++++++++++++++-----
 src/trax.c   |  2 +-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/buffer.h b/src/buffer.h
index a85c769..2dadd42 100644
--- a/src/buffer.h
+++ b/src/buffer.h
@@ -72,33 +72,33 @@ static __INLINE void buffer_push(string_buffer* B, char C) {
 	B->position += required;
 }
 
-static __INLINE void buffer_append(string_buffer* B, const char *format, ...) {
+static __INLINE void buffer_append_list(string_buffer* B, const char *format, va_list list) {
 
 	int required;
 	va_list args;
 
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(_MSC_VER)
 
-	va_start(args, format);
+	va_copy(args, list);
 	required = _vscprintf(format, args) + 1;
 	va_end(args);
 	if (required >= B->size - B->position) {
 		B->size = B->position + required + 1;
 		B->buffer = (char*) realloc(B->buffer, sizeof(char) * B->size);
 	}
-	va_start(args, format);
+	va_copy(args, list);
 	required = _vsnprintf_s(&(B->buffer[B->position]), B->size - B->position, _TRUNCATE, format, args);
 	va_end(args);
 	B->position += required;
 
 #else
-	va_start(args, format);
+	va_copy(args, list);
 	required = vsnprintf(&(B->buffer[B->position]), B->size - B->position, format, args);
 	va_end(args);
 	if (required >= B->size - B->position) {
 		B->size = B->position + required + 1;
 		B->buffer = (char*) realloc(B->buffer, sizeof(char) * B->size);
-		va_start(args, format);
+		va_copy(args, list);
 		required = vsnprintf(&(B->buffer[B->position]), B->size - B->position, format, args);
 		va_end(args);
 	}
@@ -107,6 +107,16 @@ static __INLINE void buffer_append(string_buffer* B, const char *format, ...) {
 
 }
 
+static __INLINE void buffer_append(string_buffer* B, const char *format, ...) {
+
+	va_list args;
+
+	va_start(args, format);
+	buffer_append_list(B, format, args);
+	va_end(args);
+
+}
+
 static __INLINE string_list* list_create(int L) {
 	string_list* B = (string_list*) malloc(sizeof(string_list));
 	B->size = L;
diff --git a/src/trax.c b/src/trax.c
index 5711eed..18b996a 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -544,7 +544,7 @@ void set_error(trax_handle* handle, const char *format, ...) {
 
 	va_start(args, format);
 	
-    buffer_append(buffer, format, args);
+    buffer_append_list(buffer, format, args);
 
 	va_end(args);
 
-- 
2.43.0


From dfdcc79ea9a46b710cc420715d50d75d50345984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 012/118] fix: deliver the complete address of URL images and
 not only their scheme

---
 src/trax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 18b996a..4182251 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -365,7 +365,7 @@ trax_image* image_decode(char* buffer) {
         result->data = (char*) malloc(sizeof(char) * (outlen));
         base64decode((unsigned char*)result->data, resource);
     } else {
-        *(resource--) = ':'; // Restore the semicolon and use the buffer as URL
+        *(--resource) = ':'; // Restore the colon and use the buffer as URL
         result = trax_image_create_url(buffer);
     }
     return result;
-- 
2.43.0


From 257039930887c15becfcf168609c1727e3acadd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 013/118] fix: decode images only from valid data, within the
 allocated memory and with the exact length

---
 src/base64.c | 17 ++++++++++-------
 src/trax.c   | 23 ++++++++++++++++-------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index b432bf3..6ff0162 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -87,15 +87,18 @@ static const unsigned char pr2six[256] =
 
 int base64decodelen(const char *bufcoded) {
 
-    size_t len = strlen(bufcoded),
-        padding = 0;
+    const unsigned char *end = (const unsigned char *) bufcoded;
+    int nprbytes, padding = 0;
 
-    if (bufcoded[len-1] == '=' && bufcoded[len-2] == '=') //last two chars are =
-        padding = 2;
-    else if (bufcoded[len-1] == '=') //last char is =
-        padding = 1;
+    while (pr2six[*end] <= 63) end++;
+    nprbytes = (int) (end - (const unsigned char *) bufcoded);
 
-    return ((len*3)/4 - padding) + 1;
+    while (end[padding] == '=') padding++;
+
+    // Not a valid encoding if there is anything but padding after the data
+    if (end[padding] || padding > 2) return 0;
+
+    return ((nprbytes + 3) / 4) * 3 - ((4 - nprbytes) & 3) + 1;
 }
 
 int base64decode(unsigned char *bufplain, const char *bufcoded) {
diff --git a/src/trax.c b/src/trax.c
index 4182251..9745381 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -313,7 +313,8 @@ trax_image* image_decode(char* buffer) {
     if (strcmp(buffer, "file") == 0) {
         result = trax_image_create_path(buffer + (compare_prefix(resource, "//") ? 7 : 5));
     } else if (strcmp(buffer, "image") == 0) {
-        int outlen, width, height, depth, format, channels, allocated, verify;
+        int outlen, depth, format, channels, allocated, verify;
+        long width, height;
         char* token;
 
         width = strtol(resource, &resource, 10);
@@ -325,6 +326,7 @@ trax_image* image_decode(char* buffer) {
 
         if (!resource) return NULL;
         format = decode_memory_format(token);
+        if (format == TRAX_IMAGE_MEMORY_ILLEGAL) return NULL;
 
         outlen = base64decodelen(resource) - 1;
 
@@ -332,16 +334,20 @@ trax_image* image_decode(char* buffer) {
                 (format == TRAX_IMAGE_MEMORY_GRAY8 ? 1 :
                  (format == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 0));
         channels = format == TRAX_IMAGE_MEMORY_RGB ? 3 : 1;
-        allocated =  (width * height * depth * channels);
 
-        if (width < 1 || height < 1 || outlen != allocated) return result;
+        if (width < 1 || height < 1 || width > INT_MAX / (depth * channels) ||
+            height > INT_MAX / (width * depth * channels)) return result;
+
+        allocated = (int) (width * height * depth * channels);
+
+        if (outlen != allocated) return result;
 
         result = (trax_image*) malloc(sizeof(trax_image));
         result->type = TRAX_IMAGE_MEMORY;
-        result->width = width;
-        result->height = height;
+        result->width = (int) width;
+        result->height = (int) height;
         result->format = format;
-        result->data = (char*) malloc(sizeof(char) * allocated);
+        result->data = (char*) malloc(sizeof(char) * (allocated + 1)); // The decoder also writes a terminator
         verify = base64decode((unsigned char*)result->data, resource);
 
         assert(verify == allocated);
@@ -354,11 +360,14 @@ trax_image* image_decode(char* buffer) {
         resource = strntok(token, ';', 32);
         if (!resource) return NULL;
         format = decode_buffer_format(token);
+        if (format == TRAX_IMAGE_BUFFER_ILLEGAL) return NULL;
+        if (compare_prefix(resource, "base64;")) resource += 7;
         outlen = base64decodelen(resource);
+        if (outlen < 2) return NULL;
 
         result = (trax_image*) malloc(sizeof(trax_image));
         result->type = TRAX_IMAGE_BUFFER;
-        result->width = outlen;
+        result->width = outlen - 1;
         result->height = 1;
         result->format = format;
 
-- 
2.43.0


From abb73f92bcda580f6f74eb3f63ddc520579e275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 014/118] fix: recognize every kind of JPEG data and not only
 JFIF

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 9745381..d74d823 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -133,10 +133,10 @@ char* parse_uri(char* buffer) {
 int verify_image_format(const char* buffer) {
 
     int i;
-    char jpeg_prefix[] = { (char) 255, (char) 216, (char) 255, (char) 224 };
+    char jpeg_prefix[] = { (char) 255, (char) 216, (char) 255 }; // the fourth byte depends on the kind of JPEG file
     char png_prefix[] = { (char) 137, (char) 80, (char) 78, (char) 71 };
 
-    for (i = 0; i < 4; i++) {
+    for (i = 0; i < 3; i++) {
         if (buffer[i] != jpeg_prefix[i])
             goto png;
     }
-- 
2.43.0


From 1df53c46c792481365fc9674f1757af23861e5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 015/118] fix: address rows of a memory image by its width

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index d74d823..6edadf6 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1673,7 +1673,7 @@ char* trax_image_write_memory_row(trax_image* image, int row) {
     depth = MEMORY_DEPTH(image);
     channels = MEMORY_CHANNELS(image);
 
-    return &(image->data[depth * channels * row]);
+    return &(image->data[depth * channels * image->width * row]);
 }
 
 const char* trax_image_get_memory_row(const trax_image* image, int row) {
@@ -1686,7 +1686,7 @@ const char* trax_image_get_memory_row(const trax_image* image, int row) {
     depth = MEMORY_DEPTH(image);
     channels = MEMORY_CHANNELS(image);
 
-    return &(image->data[depth * channels * row]);
+    return &(image->data[depth * channels * image->width * row]);
 }
 
 const char* trax_image_get_buffer(const trax_image* image, int* length, int* format) {
-- 
2.43.0


From 511b5bcfa1ff7c8841aa467af548be1e8ebfecdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 016/118] fix: check the range of channels and polygon points

---
 src/trax.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 6edadf6..06fe16e 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1838,7 +1838,7 @@ void trax_region_set_polygon_point(trax_region* region, int index, float x, floa
 
     assert(REGION(region)->type == POLYGON);
 
-    assert(index >= 0 || index < (REGION(region)->data.polygon.count));
+    assert(index >= 0 && index < (REGION(region)->data.polygon.count));
 
     REGION(region)->data.polygon.x[index] = x;
     REGION(region)->data.polygon.y[index] = y;
@@ -1848,7 +1848,7 @@ void trax_region_get_polygon_point(const trax_region* region, int index, float*
 
     assert(REGION(region)->type == POLYGON);
 
-    assert (index >= 0 || index < (REGION(region)->data.polygon.count));
+    assert (index >= 0 && index < (REGION(region)->data.polygon.count));
 
     if (x) *x = REGION(region)->data.polygon.x[index];
     if (y) *y = REGION(region)->data.polygon.y[index];
@@ -2184,14 +2184,14 @@ void trax_image_list_release(trax_image_list** list) {
 
 trax_image* trax_image_list_get(const trax_image_list* list, int channel) {
     int i = TRAX_CHANNEL_INDEX(channel);
-    if (i < 0 || i > TRAX_CHANNELS) return NULL;
+    if (i < 0 || i >= TRAX_CHANNELS) return NULL;
 
     return list->images[i];
 }
 
 void trax_image_list_set(trax_image_list* list, trax_image* image, int channel) {
     int i = TRAX_CHANNEL_INDEX(channel);
-    if (i < 0 || i > TRAX_CHANNELS) return;
+    if (i < 0 || i >= TRAX_CHANNELS) return;
 
     list->images[i] = image;
 }
-- 
2.43.0


From bcf23cd905587747ae06ca474f10322555c9e2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 017/118] fix: parse capability lists without the shared state
 of strtok

---
 src/trax.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 06fe16e..1c274db 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -381,12 +381,30 @@ trax_image* image_decode(char* buffer) {
 
 }
 
+// Splits the string at spaces and semicolons, unlike strtok does not rely on a shared state
+static char* next_token(char** str) {
+
+    char* token;
+
+    if (!*str) return NULL;
+
+    *str += strspn(*str, " ;");
+    if (!**str) return NULL;
+
+    token = *str;
+    *str += strcspn(*str, " ;");
+    if (**str) *((*str)++) = 0;
+
+    return token;
+
+}
+
 int image_formats_decode(char *str) {
 
     int formats = 0;
 
     char *pch;
-    pch = strtok (str, " ;");
+    pch = next_token(&str);
     while (pch != NULL) {
         if (strcmp(pch, "path") == 0)
             formats |= TRAX_IMAGE_PATH;
@@ -400,7 +418,7 @@ int image_formats_decode(char *str) {
             continue; // Skip empty
         else return -1;
 
-        pch = strtok (NULL, ";");
+        pch = next_token(&str);
     }
 
     return formats;
@@ -432,7 +450,7 @@ int region_formats_decode(char *str) {
     int formats = 0;
 
     char *pch;
-    pch = strtok (str, " ;");
+    pch = next_token(&str);
     while (pch != NULL) {
 
         if (strcmp(pch, "rectangle") == 0)
@@ -445,7 +463,7 @@ int region_formats_decode(char *str) {
             continue; // Skip empty
         else return -1;
 
-        pch = strtok (NULL, ";");
+        pch = next_token(&str);
     }
 
     return formats;
@@ -489,7 +507,7 @@ int channels_decode(char *str) {
     int channels = 0;
 
     char *pch;
-    pch = strtok (str, " ;");
+    pch = next_token(&str);
     while (pch != NULL) {
 
         if (strcmp(pch, "color") == 0)
@@ -503,7 +521,7 @@ int channels_decode(char *str) {
             continue; // Skip empty
         else return -1;
 
-        pch = strtok (NULL, ";");
+        pch = next_token(&str);
     }
 
     return channels;
-- 
2.43.0


From b3e8715e014cc001f5e925f82c742ad0bc9ad97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 018/118] fix: use default formats if the hello message does
 not declare them

---
 src/trax.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 1c274db..77025a8 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -617,12 +617,13 @@ trax_handle* client_setup(message_stream* stream, const trax_logging log) {
 
     client->version = trax_properties_get_int(tmp_properties, "trax.version", 1);
 
+    // Rectangle and path are the defaults if the tracker does not declare any format
     tmp = trax_properties_get(tmp_properties, "trax.region");
-    region_formats = region_formats_decode(tmp);
+    region_formats = tmp ? region_formats_decode(tmp) : TRAX_REGION_RECTANGLE;
     free(tmp);
 
     tmp = trax_properties_get(tmp_properties, "trax.image");
-    image_formats = image_formats_decode(tmp);
+    image_formats = tmp ? image_formats_decode(tmp) : TRAX_IMAGE_PATH;
     free(tmp);
 
     // Multiple channels are only supported in TraX protocol version 2
-- 
2.43.0


From 537deaa63b4633520671688ee4142d20138cd4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 019/118] fix: release the message stream if the handshake
 fails

---
 src/trax.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trax.c b/src/trax.c
index 77025a8..0abb687 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -666,6 +666,7 @@ failure:
 
     list_destroy(&arguments);
     trax_properties_release(&tmp_properties);
+    destroy_message_stream((message_stream**) &(client->stream));
     free(client);
     return NULL;
 
-- 
2.43.0


From b5e64b2d5ca034d473bafa03a004e1c96cb3d073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 020/118] fix: initialize the flags of servers that use an
 older protocol version

---
 src/trax.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 0abb687..3ac2334 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -677,7 +677,7 @@ trax_handle* server_setup(trax_metadata *metadata, message_stream* stream, const
     trax_properties* properties;
     trax_handle* server = (trax_handle*) malloc(sizeof(trax_handle));
     string_list* arguments;
-    int flags;
+    int flags = 0;
     char tmp[BUFFER_LENGTH];
 
     server->flags = (TRAX_FLAG_SERVER) | TRAX_FLAG_VALID;
@@ -717,7 +717,6 @@ trax_handle* server_setup(trax_metadata *metadata, message_stream* stream, const
         trax_properties_set(properties, "trax.family", metadata->tracker_family);
 
     if (IS_VERSION_4(server)) {
-        flags = 0;
         if (metadata->flags & TRAX_METADATA_MULTI_OBJECT) {
             flags |= TRAX_METADATA_MULTI_OBJECT;
             trax_properties_set_int(properties, "trax.multiobject", 1);
-- 
2.43.0


From bf3b5992bc7fbbd3368047ef572c4f051840d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 021/118] fix: report illegal messages in the client as errors
 and keep the error text up to date

---
 src/trax.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 3ac2334..abdd323 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -806,11 +806,18 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
 
     VALIDATE_CLIENT_HANDLE(client);
 
+    clear_error(client);
+
     if (!HANDLE_ALIVE(client)) {
         set_error(client, "Tracker not alive");
         return TRAX_ERROR;
     }
 
+    if (client->objects < 1) {
+        set_error(client, "No object is being tracked");
+        return TRAX_ERROR;
+    }
+
     (*objects) = trax_object_list_create(client->objects);
 
     for (int i = 0; i < client->objects; i++) {
@@ -824,6 +831,7 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
             region_container *_region = NULL;
 
             if (list_size(arguments) != 1) {
+                set_error(client, "Protocol error, illegal argument number %d != %d", list_size(arguments), 1);
                 list_destroy(&arguments);
                 trax_properties_release(&tmp_properties);
                 trax_object_list_release(objects);
@@ -832,6 +840,7 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
             }
             
             if (!region_parse(arguments->buffer[0], &_region)) {
+                set_error(client, "Protocol error, illegal region");
                 list_destroy(&arguments);
                 trax_properties_release(&tmp_properties);
                 trax_object_list_release(objects);
@@ -846,6 +855,7 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
         } else if (result == TRAX_QUIT) {
 
             if (list_size(arguments) != 0) {
+                set_error(client, "Protocol error, illegal argument number %d != %d", list_size(arguments), 0);
                 list_destroy(&arguments);
                 trax_properties_release(&tmp_properties);
                 trax_object_list_release(objects);
@@ -862,10 +872,12 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
             trax_properties_release(&tmp_properties);
             trax_object_list_release(objects);
             break;
-        } else if (result == TRAX_ERROR) {
+        } else { // Connection lost or a message that a tracker is not allowed to send
+            set_error(client, result == TRAX_ERROR ? "Unable to read message" : "Protocol error, illegal message");
             list_destroy(&arguments);
             trax_properties_release(&tmp_properties);
             trax_object_list_release(objects);
+            result = TRAX_ERROR;
             break;
         }
 
-- 
2.43.0


From 7dee4ca51729d3dbd83faf4ee90f7e4db8779200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 022/118] fix: check images before any message of a client
 request is sent

---
 src/trax.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index abdd323..48989f5 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -890,6 +890,22 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
 
 }
 
+// Checks that images for all required channels are available
+static int check_images(trax_handle* client, const trax_image_list* images) {
+
+    int i;
+
+    for (i = 0; i < TRAX_CHANNELS; i++) {
+        if (TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i)) && !images->images[i]) {
+            set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
+            return 0;
+        }
+    }
+
+    return 1;
+
+}
+
 int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
 
     char* data = NULL;
@@ -920,6 +936,8 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
         return TRAX_ERROR;
     }
 
+    if (!check_images(client, images)) return TRAX_ERROR;
+
     if (IS_VERSION_4(client)) {
         if (client->objects > 0) {
             // Reset object count with an empty initialize message
@@ -997,6 +1015,8 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
         return TRAX_ERROR;
     }
 
+    if (!check_images(client, images)) return TRAX_ERROR;
+
     if (IS_VERSION_4(client)) {
 
         int n = (objects) ? trax_object_list_count(objects) : 0;
-- 
2.43.0


From 4a628d7fce4e2cb13eeb9eba1c65243c28e92d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 023/118] fix: refuse frames before any object was initialized,
 as defined by the protocol

---
 src/trax.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 48989f5..85816be 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1026,6 +1026,11 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
             return TRAX_ERROR;
         }
 
+        if (client->objects + n < 1) {
+            set_error(client, "No object is being tracked");
+            return TRAX_ERROR;
+        }
+
         for (i = 0; i < n; i++) {
             char* data = NULL;
             string_list* arguments;
@@ -1064,6 +1069,11 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
             return TRAX_ERROR;
         }
 
+        if (client->objects < 1) {
+            set_error(client, "No object is being tracked");
+            return TRAX_ERROR;
+        }
+
     }
 
     {
@@ -1161,6 +1171,11 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
 
     if (result == TRAX_FRAME) {
 
+        if (server->objects < 1) {
+            set_error(server, "No object was given to track");
+            goto failure;
+        }
+
         if (list_size(arguments) != argument_count) {
             set_error(server, "Protocol error, illegal argument number %d != %d", list_size(arguments), argument_count);
             goto failure;
@@ -1306,7 +1321,7 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
         if (code == TRAX_FRAME) {
 
-            if (result == TRAX_INITIALIZE && object_count == 0) {
+            if (server->objects + object_count < 1) {
                 set_error(server, "No object was given to track");
                 goto failure;
             }
-- 
2.43.0


From 4724582533de5756e5818d5ba90fcef67262bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 024/118] fix: release temporary memory when waiting for a
 multi-object request

---
 src/trax.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 85816be..dce3cc4 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1278,8 +1278,8 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
     trax_properties* tmp_properties;
     int object_capacity = 1;
     int object_count = 0;
-    trax_region** object_regions = (trax_region**) malloc(sizeof(trax_region*) * object_capacity);
-    trax_properties** object_properties = (trax_properties**) malloc(sizeof(trax_properties*) * object_capacity);
+    trax_region** object_regions;
+    trax_properties** object_properties;
 
     VALIDATE_SERVER_HANDLE(server);
 
@@ -1292,6 +1292,9 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
         return TRAX_ERROR;
     }
 
+    object_regions = (trax_region**) malloc(sizeof(trax_region*) * object_capacity);
+    object_properties = (trax_properties**) malloc(sizeof(trax_properties*) * object_capacity);
+
     int argument_count = trax_image_list_count(server->metadata->channels);
 
     while (1) {
@@ -1358,6 +1361,8 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
             if (list_size(arguments) == 0) {
                 result = TRAX_INITIALIZE;
                 server->objects = 0;
+                list_destroy(&arguments);
+                trax_properties_release(&tmp_properties);
                 continue;
             }
 
-- 
2.43.0


From 965e9dded30abc5dfbc5d3aa024885e56306c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 025/118] fix: deliver the reason of termination to
 multi-object servers

---
 src/trax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index dce3cc4..021890c 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1315,7 +1315,7 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
             }   
 
             if (properties)
-                copy_properties(tmp_properties, properties, COPY_EXTERNAL | COPY_OVERWRITE);
+                copy_properties(tmp_properties, properties, COPY_ALL | COPY_OVERWRITE);
 
             result = TRAX_QUIT;
             server->flags |= TRAX_FLAG_TERMINATED;
-- 
2.43.0


From c2523ff54a8efe8fcd3ede35a171e8c0e8121b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 026/118] fix: report illegal messages in the server as errors
 and provide a text for all errors

---
 src/trax.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 021890c..1dc43ce 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1252,6 +1252,8 @@ failure:
 
     result = TRAX_ERROR;
 
+    if (!server->error) set_error(server, "Unable to read message");
+
     if (*images) {
         for (i = 0; i < TRAX_CHANNELS; i++) {
             if ((*images)->images[i]) trax_image_release(&(*images)->images[i]);
@@ -1388,6 +1390,9 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
             copy_properties(tmp_properties, object_properties[object_count-1], COPY_ALL | COPY_OVERWRITE);
 
             result = TRAX_INITIALIZE;
+        } else {
+            set_error(server, "Protocol error, illegal message");
+            goto failure;
         }
 
         list_destroy(&arguments);
@@ -1399,6 +1404,8 @@ failure:
 
     result = TRAX_ERROR;
 
+    if (!server->error) set_error(server, "Unable to read message");
+
     if (*images) {
         for (i = 0; i < TRAX_CHANNELS; i++) {
             if ((*images)->images[i]) trax_image_release(&(*images)->images[i]);
@@ -1455,7 +1462,10 @@ int trax_server_reply_sot(trax_handle* server, trax_region* region, trax_propert
 
     data = region_string(REGION(region));
 
-    if (!data) return TRAX_ERROR;
+    if (!data) {
+        set_error(server, "Illegal region");
+        return TRAX_ERROR;
+    }
 
     arguments = list_create(1);
 
-- 
2.43.0


From d408a52b83b07db132f117003938c33c4ca1f6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 027/118] fix: reject text that is not a region instead of
 aborting or misinterpreting it, keep the precision of numbers

---
 src/region.c | 158 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 104 insertions(+), 54 deletions(-)

diff --git a/src/region.c b/src/region.c
index cae061b..dfecdd6 100644
--- a/src/region.c
+++ b/src/region.c
@@ -6,6 +6,7 @@
 #include <math.h>
 #include <assert.h>
 #include <ctype.h>
+#include <limits.h>
 
 #include "region.h"
 #include "buffer.h"
@@ -51,7 +52,7 @@ int region_clear_flags(int mask) {
 
 }
 
-int __is_valid_sequence(float* sequence, int len) {
+int __is_valid_sequence(double* sequence, int len) {
 	int i;
 
 	for (i = 0; i < len; i++) {
@@ -246,14 +247,16 @@ const char* __parse_uri_prefix(const char* buffer, region_type* type) {
 		if ((buffer[i] >= 'a' && buffer[i] <= 'z') || buffer[i] == '+' || buffer[i] == '.' || buffer[i] == '-') continue;
 
 		if (buffer[i] == ':') {
-			if (strncmp(buffer, "rect", i - 1) == 0)
+			if (i == 4 && strncmp(buffer, "rect", i) == 0)
 				*type = RECTANGLE;
-			else if (strncmp(buffer, "poly", i - 1) == 0)
+			else if (i == 4 && strncmp(buffer, "poly", i) == 0)
 				*type = POLYGON;
-			else if (strncmp(buffer, "mask", i - 1) == 0)
+			else if (i == 4 && strncmp(buffer, "mask", i) == 0)
 				*type = MASK;
-			else if (strncmp(buffer, "special", i - 1) == 0)
+			else if (i == 7 && strncmp(buffer, "special", i) == 0)
 				*type = SPECIAL;
+			else
+				return NULL; // Not a region
 			return &(buffer[i + 1]);
 		}
 
@@ -274,58 +277,77 @@ region_container* __create_region(region_type type) {
 
 }
 
-static inline const char* _str_find(const char* in, const char delimiter) {
+// Parses a comma-separated sequence of finite numbers (or NaN), returns 0 if there is anything else in the text
+int _parse_sequence(const char* buffer, double** data) {
 
-	int i = 0;
-	while (in[i] && in[i] != delimiter) {
-		i++;
-	}
+	int i = 0, capacity = 8;
+	double* numbers = (double*) malloc(sizeof(double) * capacity);
 
-	return (in[i] == delimiter) ? &(in[i]) + 1 : NULL;
-
-}
-
-int _parse_sequence(const char* buffer, float** data) {
-
-	int i;
+	*data = NULL;
 
-	float* numbers = (float*) malloc(sizeof(float) * (strlen(buffer)));
+	while (1) {
 
-	const char* pch = buffer;
-	for (i = 0; ; i++) {
+		char* end = (char*) buffer;
+		double number;
 
-		if (pch) {
 #if defined (_MSC_VER)
-			if (tolower(pch[0]) == 'n' && tolower(pch[1]) == 'a' && tolower(pch[2]) == 'n') {
-				numbers[i] = NAN;
-			} else {
-				numbers[i] = (float) atof(pch);
-			}
+		while (isspace((unsigned char) *end)) end++;
+		if (tolower(end[0]) == 'n' && tolower(end[1]) == 'a' && tolower(end[2]) == 'n') {
+			number = NAN;
+			end += 3;
+		} else {
+			number = strtod(buffer, &end);
+		}
 #else
-			numbers[i] = (float) atof(pch);
+		number = strtod(buffer, &end);
 #endif
-		} else
-			break;
 
-		pch = _str_find(pch, ',');
+		if (end == buffer || isinf(number)) break;
+
+		while (isspace((unsigned char) *end)) end++;
+
+		if (*end && *end != ',') break;
+
+		if (i == capacity) {
+			capacity *= 2;
+			numbers = (double*) realloc(numbers, sizeof(double) * capacity);
+		}
+
+		numbers[i++] = number;
+
+		if (!*end) {
+			*data = numbers;
+			return i;
+		}
+
+		buffer = end + 1;
 	}
 
-	if (i > 0) {
-		int j;
-		*data = (float*) malloc(sizeof(float) * i);
-		for (j = 0; j < i; j++) { (*data)[j] = numbers[j]; }
-		free(numbers);
-	} else {
-		*data = NULL;
-		free(numbers);
+	free(numbers);
+
+	return 0;
+}
+
+static int _is_integer_range(double number) {
+
+	return number >= (double) INT_MIN && number <= (double) INT_MAX;
+
+}
+
+static int _is_float_range(const double* sequence, int len) {
+
+	int i;
+
+	for (i = 0; i < len; i++) {
+		if (sequence[i] < -FLT_MAX || sequence[i] > FLT_MAX) return 0;
 	}
 
-	return i;
+	return 1;
 }
 
 int region_parse(const char* buffer, region_container** region) {
 
-	float* data = NULL;
+	double* data = NULL;
 	const char* strdata = NULL;
 	int num;
 
@@ -336,20 +358,24 @@ int region_parse(const char* buffer, region_container** region) {
 	(*region) = NULL;
 
 	if (!buffer || !buffer[0]) {
-		return 1;
+		return 0;
 	}
 
 	strdata = __parse_uri_prefix(buffer, &prefix_type);
 
+	if (!strdata) return 0;
+
 	num = _parse_sequence(strdata, &data);
 
+	if (!num) return 0;
+
 	// If at least one of the elements is NaN, then the region cannot be parsed
 	// We return special region with a default code.
-	if (!__is_valid_sequence(data, num) || num == 0) {
+	if (!__is_valid_sequence(data, num)) {
 		// Preserve legacy support: if four values are given and the fourth one is a number
 		// then this number is taken as a code.
-		if (num == 4 && !isnan(data[3])) {
-			(*region) = region_create_special(-(int) data[3]);
+		if (num == 4 && _is_integer_range(-data[3])) {
+			(*region) = region_create_special((int) -data[3]);
 		} else {
 			(*region) = region_create_special(TRAX_DEFAULT_CODE);
 		}
@@ -368,7 +394,8 @@ int region_parse(const char* buffer, region_container** region) {
 
 	switch (prefix_type) {
 	case SPECIAL: {
-		assert(num == 1);
+		if (num != 1 || !_is_integer_range(data[0])) break;
+
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = SPECIAL;
 		(*region)->data.special = (int) data[0];
@@ -377,14 +404,15 @@ int region_parse(const char* buffer, region_container** region) {
 
 	}
 	case RECTANGLE: {
-		assert(num == 4);
+		if (num != 4 || !_is_float_range(data, num)) break;
+
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = RECTANGLE;
 
-		(*region)->data.rectangle.x = data[0];
-		(*region)->data.rectangle.y = data[1];
-		(*region)->data.rectangle.width = data[2];
-		(*region)->data.rectangle.height = data[3];
+		(*region)->data.rectangle.x = (float) data[0];
+		(*region)->data.rectangle.y = (float) data[1];
+		(*region)->data.rectangle.width = (float) data[2];
+		(*region)->data.rectangle.height = (float) data[3];
 
 		free(data);
 		return 1;
@@ -393,7 +421,7 @@ int region_parse(const char* buffer, region_container** region) {
 	case POLYGON: {
 		int j;
 
-		assert(num >= 6 && num % 2 == 0);
+		if (num < 6 || num % 2 != 0 || !_is_float_range(data, num)) break;
 
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = POLYGON;
@@ -403,8 +431,8 @@ int region_parse(const char* buffer, region_container** region) {
 		(*region)->data.polygon.y = (float*) malloc(sizeof(float) * (*region)->data.polygon.count);
 
 		for (j = 0; j < (*region)->data.polygon.count; j++) {
-			(*region)->data.polygon.x[j] = data[j * 2];
-			(*region)->data.polygon.y[j] = data[j * 2 + 1];
+			(*region)->data.polygon.x[j] = (float) data[j * 2];
+			(*region)->data.polygon.y[j] = (float) data[j * 2 + 1];
 		}
 
 		free(data);
@@ -416,7 +444,23 @@ int region_parse(const char* buffer, region_container** region) {
 		int position, length;
 		char value;
 
-		assert(num > 4);
+		// The number of values is at least 4, a mask without foreground does not have any strides
+		if (num < 4) break;
+
+		for (i = 0; i < 4; i++) {
+			if (!_is_integer_range(data[i])) break;
+		}
+
+		if (i < 4 || data[2] < 1 || data[3] < 1) break;
+
+		// The mask and its position have to be representable
+		if (floor(data[2]) * floor(data[3]) >= INT_MAX || data[0] + data[2] >= INT_MAX || data[1] + data[3] >= INT_MAX) break;
+
+		for (i = 4; i < num; i++) {
+			if (data[i] < 0 || !_is_integer_range(data[i])) break;
+		}
+
+		if (i < num) break;
 
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = MASK;
@@ -429,6 +473,12 @@ int region_parse(const char* buffer, region_container** region) {
 		length = (*region)->data.mask.width * (*region)->data.mask.height;
 		(*region)->data.mask.data = (char*) malloc(sizeof(char) * length);
 
+		if (!(*region)->data.mask.data) {
+			free(*region);
+			(*region) = NULL;
+			break;
+		}
+
 		value = 0;
 		position = 0;
 
-- 
2.43.0


From 06da11220ce4a6c025315b364c980dabe825a436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 028/118] fix: convert polygons with negative coordinates to
 the right rectangle

---
 src/region.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/region.c b/src/region.c
index dfecdd6..909570f 100644
--- a/src/region.c
+++ b/src/region.c
@@ -602,9 +602,9 @@ region_container* region_convert(const region_container* region, region_type typ
 		case POLYGON: {
 
 			float top = FLT_MAX;
-			float bottom = FLT_MIN;
+			float bottom = -FLT_MAX;
 			float left = FLT_MAX;
-			float right = FLT_MIN;
+			float right = -FLT_MAX;
 			int i;
 
 			for (i = 0; i < region->data.polygon.count; i++) {
-- 
2.43.0


From b3ee12affd917956b147a4c133690836545e17a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 029/118] fix: return finite bounds for masks without
 foreground

---
 src/region.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/region.c b/src/region.c
index 909570f..66c728f 100644
--- a/src/region.c
+++ b/src/region.c
@@ -166,6 +166,11 @@ region_bounds compute_bounds_mask(const region_mask* mask) {
 		}
 	}
 
+	// Without foreground the bounds are empty
+	if (bounds.right < bounds.left) {
+		return region_create_bounds(mask->x, mask->y, mask->x - 1, mask->y - 1);
+	}
+
 	bounds.top += mask->y;
 	bounds.bottom += mask->y;
 	bounds.left += mask->x;
-- 
2.43.0


From ded78770fefcbd0c79b3596d6aeb0dbf664135f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 030/118] fix: convert polygons and rectangles to masks at the
 right position and with the right size

---
 src/region.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/region.c b/src/region.c
index 66c728f..c157111 100644
--- a/src/region.c
+++ b/src/region.c
@@ -181,6 +181,8 @@ region_bounds compute_bounds_mask(const region_mask* mask) {
 }
 
 
+#define MAX_COORDINATE (1 << 29)
+
 region_bounds bounds_round(region_bounds bounds) {
 
 	bounds.top = floor(bounds.top);
@@ -218,6 +220,19 @@ region_bounds bounds_union(region_bounds a, region_bounds b) {
 
 }
 
+// Tests if (rounded) bounds are not empty and small enough for a mask
+static int bounds_representable(region_bounds bounds) {
+
+	double width = (double) bounds.right - (double) bounds.left + 1;
+	double height = (double) bounds.bottom - (double) bounds.top + 1;
+
+	if (!(bounds.left > -MAX_COORDINATE && bounds.right < MAX_COORDINATE)) return 0;
+	if (!(bounds.top > -MAX_COORDINATE && bounds.bottom < MAX_COORDINATE)) return 0;
+
+	return width >= 1 && height >= 1 && width * height < INT_MAX;
+
+}
+
 float bounds_overlap(region_bounds a, region_bounds b) {
 
 	region_bounds rintersection = bounds_intersection(a, b);
@@ -716,23 +731,17 @@ region_container* region_convert(const region_container* region, region_type typ
 	case MASK: {
 
 		switch (region->type) {
-		case RECTANGLE: {
-
-			reg = region_create_mask((int)region->data.rectangle.x, (int)region->data.rectangle.y, (int)region->data.rectangle.width, (int)region->data.rectangle.height);
-			memset(reg->data.mask.data, 255, reg->data.mask.width * reg->data.mask.height);
-
-			break;
-		}
+		case RECTANGLE:
 		case POLYGON: {
 
-			reg = (region_container*) malloc(sizeof(region_container));
-			reg->type = type;
+			// The mask covers the same pixels as are used for the computation of overlaps
+			region_bounds b = bounds_round(region_compute_bounds(region));
 
-			region_bounds b = compute_bounds_polygon(&(region->data.polygon));
+			if (!bounds_representable(b)) break;
 
-			reg = region_create_mask(b.left, b.right, b.right - b.left, b.bottom - b.top);
+			reg = region_create_mask((int) b.left, (int) b.top, (int) (b.right - b.left) + 1, (int) (b.bottom - b.top) + 1);
 
-			region_get_mask_offset(region, reg->data.mask.data, b.left, b.right, b.right - b.left, b.bottom - b.top);
+			region_get_mask_offset(region, reg->data.mask.data, reg->data.mask.x, reg->data.mask.y, reg->data.mask.width, reg->data.mask.height);
 
 			break;
 		}
@@ -745,7 +754,6 @@ region_container* region_convert(const region_container* region, region_type typ
 
 		}
 		default: {
-			free(reg); reg = NULL;
 			break;
 		}
 		}
-- 
2.43.0


From 7f78bc264d00c56520db3c232d82ec5360adddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 031/118] fix: do not lose or add pixels when polygons with
 concave or redundant vertices are rasterized

---
 src/region.c | 106 +++++++++++++++++++++++++++++----------------------
 1 file changed, 61 insertions(+), 45 deletions(-)

diff --git a/src/region.c b/src/region.c
index c157111..4e69a34 100644
--- a/src/region.c
+++ b/src/region.c
@@ -932,6 +932,16 @@ region_bounds region_compute_bounds(const region_container* region) {
 
 }
 
+// Converts the position within a row to a pixel, positions outside of the row are limited to its neighborhood
+static int raster_clamp(double x, int width) {
+
+	if (!(x > -1)) return -1;
+	if (x > width) return width;
+
+	return (int) floor(x);
+
+}
+
 int rasterize_polygon(const region_polygon polygon_input, char* mask, int width, int height) {
 
 	int nodes, pixelY, i, j, swap;
@@ -989,68 +999,74 @@ int rasterize_polygon(const region_polygon polygon_input, char* mask, int width,
 
 	} else {
 
+		char* row = (char*) malloc(sizeof(char) * width);
+
 		polygon = round_polygon(polygon_input);
 
 		/*  Loop through the rows of the image. */
 		for (pixelY = 0; pixelY < height; pixelY++) {
 
-			/*  Build a list of nodes. */
-			nodes = 0;
-			j = polygon.count - 1;
+			int pass;
 
-			for (i = 0; i < polygon.count; i++) {
-				if ((((int)polygon.y[i] <= pixelY) && ((int)polygon.y[j] > pixelY)) ||
-				        (((int)polygon.y[j] <= pixelY) && ((int)polygon.y[i] > pixelY)) ||
-				        (((int)polygon.y[i] < pixelY) && ((int)polygon.y[j] >= pixelY)) ||
-				        (((int)polygon.y[j] < pixelY) && ((int)polygon.y[i] >= pixelY)) ||
-				        (((int)polygon.y[i] == (int)polygon.y[j]) && ((int)polygon.y[i] == pixelY))) {
-					double r = (polygon.y[j] - polygon.y[i]);
-					double k = (polygon.x[j] - polygon.x[i]);
-					if (r != 0) {
-						nodeX[nodes++] = (int) ((double) polygon.x[i] + (double) (pixelY - polygon.y[i]) / r * k);
+			memset(row, 0, sizeof(char) * width);
+
+			/*  The row is covered by the spans of the shape directly below and directly above of
+			    it, in both cases every edge is crossed only once. */
+			for (pass = 0; pass < 2; pass++) {
+
+				/*  Build a list of nodes. */
+				nodes = 0;
+				j = polygon.count - 1;
+
+				for (i = 0; i < polygon.count; i++) {
+					int above_i = (pass == 0) ? polygon.y[i] <= pixelY : polygon.y[i] < pixelY;
+					int above_j = (pass == 0) ? polygon.y[j] <= pixelY : polygon.y[j] < pixelY;
+					if (above_i != above_j) {
+						double r = (polygon.y[j] - polygon.y[i]);
+						double k = (polygon.x[j] - polygon.x[i]);
+						nodeX[nodes++] = raster_clamp((double) polygon.x[i] + (double) (pixelY - polygon.y[i]) / r * k, width);
+					}
+					j = i;
+				}
+
+				/* Sort the nodes, via a simple “Bubble” sort. */
+				i = 0;
+				while (i < nodes - 1) {
+					if (nodeX[i] > nodeX[i + 1]) {
+						swap = nodeX[i];
+						nodeX[i] = nodeX[i + 1];
+						nodeX[i + 1] = swap;
+						if (i) i--;
 					} else {
-						nodeX[nodes++] = (double) polygon.x[i];
+						i++;
 					}
 				}
-				j = i;
-			}
-			/* Sort the nodes, via a simple “Bubble” sort. */
-			i = 0;
-			while (i < nodes - 1) {
-				if (nodeX[i] > nodeX[i + 1]) {
-					swap = nodeX[i];
-					nodeX[i] = nodeX[i + 1];
-					nodeX[i + 1] = swap;
-					if (i) i--;
-				} else {
-					i++;
+
+				/*  Fill the pixels between node pairs. */
+				for (i = 0; i < nodes - 1; i += 2) {
+					for (j = MAX(nodeX[i], 0); j <= MIN(nodeX[i + 1], width - 1); j++) row[j] = 1;
 				}
+
 			}
 
-			/*  Fill the pixels between node pairs. */
-			i = 0;
-			while (i < nodes - 1) {
-				if (nodeX[i] >= width) break;
-				// If a point is in the line then we get two identical values
-				// Ignore the first, except when it is the last point in vector
-				if (nodeX[i] == nodeX[i + 1] && i < nodes - 2) {
-					i++;
-					continue;
+			/*  Fill the pixels of horizontal edges. */
+			j = polygon.count - 1;
+			for (i = 0; i < polygon.count; i++) {
+				if (polygon.y[i] == pixelY && polygon.y[j] == pixelY) {
+					int k, start = raster_clamp(MIN(polygon.x[i], polygon.x[j]), width), end = raster_clamp(MAX(polygon.x[i], polygon.x[j]), width);
+					for (k = MAX(start, 0); k <= MIN(end, width - 1); k++) row[k] = 1;
 				}
+				j = i;
+			}
 
-				if (nodeX[i + 1] >= 0) {
-					if (nodeX[i] < 0) nodeX[i] = 0;
-					if (nodeX[i + 1] >= width) nodeX[i + 1] = width - 1;
-					for (j = nodeX[i]; j <= nodeX[i + 1]; j++) {
-						if (mask) mask[pixelY * width + j] = 1;
-						sum++;
-					}
-				}
-				i += 2;
+			for (j = 0; j < width; j++) sum += row[j];
+
+			if (mask) memcpy(&(mask[pixelY * width]), row, sizeof(char) * width);
 
-			}
 		}
 
+		free(row);
+
 		free_polygon(&polygon);
 
 	}
-- 
2.43.0


From 53f45aa8398ca576afad8a31fe846e4e350299e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 032/118] fix: compute the overlap of thin, touching, distant
 and non-geometric regions correctly

---
 src/region.c | 48 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/region.c b/src/region.c
index 4e69a34..b4cbe03 100644
--- a/src/region.c
+++ b/src/region.c
@@ -1197,6 +1197,11 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 	overlap.only2 = 0;
 
 
+	// Only regions with a shape can overlap
+	if ((ra->type != RECTANGLE && ra->type != POLYGON && ra->type != MASK) ||
+	        (rb->type != RECTANGLE && rb->type != POLYGON && rb->type != MASK))
+		return overlap;
+
 	if (__flags & REGION_LEGACY_RASTERIZATION) {
 		b1 = bounds_intersection(region_compute_bounds(ra), bounds);
 		b2 = bounds_intersection(region_compute_bounds(rb), bounds);
@@ -1205,23 +1210,21 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 		b2 = bounds_intersection(bounds_round(region_compute_bounds(rb)), bounds);
 	}
 
-	x = MIN(b1.left, b2.left);
-	y = MIN(b1.top, b2.top);
-
-	width = (int) (MAX(b1.right, b2.right) - x) + 1;
-	height = (int) (MAX(b1.bottom, b2.bottom) - y) + 1;
+	// Nothing can be computed for regions that are empty or too big
+	if (!bounds_representable(b1) || !bounds_representable(b2))
+		return overlap;
 
 	// Fixing crashes due to overflowed regions, a simple check if the ratio
 	// between the two bounding boxes is simply too big and the overlap would
-	// be 0 anyway.
-	
-	a1 = (b1.right - b1.left) * (b1.bottom - b1.top);
-	a2 = (b2.right - b2.left) * (b2.bottom - b2.top);
+	// be 0 anyway. Pixels on the right and bottom side are a part of the bounds.
+
+	a1 = ((double) b1.right - b1.left + 1) * ((double) b1.bottom - b1.top + 1);
+	a2 = ((double) b2.right - b2.left + 1) * ((double) b2.bottom - b2.top + 1);
 
-	if (a1 / a2 < 1e-10 || a2 / a1 < 1e-10 || width < 1 || height < 1) 
+	if (a1 / a2 < 1e-10 || a2 / a1 < 1e-10)
 		return overlap;
 
-	if (bounds_overlap(b1, b2) == 0) {
+	if (b1.right < b2.left || b2.right < b1.left || b1.bottom < b2.top || b2.bottom < b1.top) {
 
 		int i;
 
@@ -1239,8 +1242,10 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 			if (tb->data.mask.data[i]) vol_2++;
 		}
 
-		overlap.only1 = (float) vol_1 / (float) (vol_1 + vol_2);
-		overlap.only2 = (float) vol_2 / (float) (vol_1 + vol_2);
+		if (vol_1 + vol_2 > 0) {
+			overlap.only1 = (float) vol_1 / (float) (vol_1 + vol_2);
+			overlap.only2 = (float) vol_2 / (float) (vol_1 + vol_2);
+		}
 
 	} else {
 
@@ -1248,6 +1253,15 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 		char* mask1;
 		char* mask2;
 
+		if (!bounds_representable(bounds_union(b1, b2)))
+			return overlap;
+
+		x = MIN(b1.left, b2.left);
+		y = MIN(b1.top, b2.top);
+
+		width = (int) (MAX(b1.right, b2.right) - x) + 1;
+		height = (int) (MAX(b1.bottom, b2.bottom) - y) + 1;
+
 		ta = region_create_mask(x, y, width, height);
 		tb = region_create_mask(x, y, width, height);
 
@@ -1266,9 +1280,11 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 			else if (mask2[i]) mask_2++;
 		}
 
-		overlap.only1 = (float) mask_1 / (float) (mask_1 + mask_2 + mask_intersect);
-		overlap.only2 = (float) mask_2 / (float) (mask_1 + mask_2 + mask_intersect);
-		overlap.overlap = mask_intersect / (float) (mask_1 + mask_2 + mask_intersect);
+		if (mask_1 + mask_2 + mask_intersect > 0) {
+			overlap.only1 = (float) mask_1 / (float) (mask_1 + mask_2 + mask_intersect);
+			overlap.only2 = (float) mask_2 / (float) (mask_1 + mask_2 + mask_intersect);
+			overlap.overlap = mask_intersect / (float) (mask_1 + mask_2 + mask_intersect);
+		}
 
 	}
 
-- 
2.43.0


From a5ec226ef7b72af45feebaee842dae506fc09d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 033/118] fix: find the pixel of a point in masks with negative
 offsets

---
 src/region.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index b4cbe03..98c594a 100644
--- a/src/region.c
+++ b/src/region.c
@@ -880,7 +880,7 @@ int point_in_mask(const region_mask* mask, float x, float y) {
 	if (x < mask->x || y < mask->y || x >= mask->x + mask->width || y >= mask->y + mask->height)
 		return 0;
 
-	return mask->data[((int)x - mask->x) + ((int)y - mask->y) * mask->width] != 0;
+	return mask->data[((int)floor(x) - mask->x) + ((int)floor(y) - mask->y) * mask->width] != 0;
 }
 
 
-- 
2.43.0


From c0894acba738e3da139c7e3af02c472af001457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 034/118] fix: assign C++ objects to themselves or from empty
 objects without corrupting reference counts

---
 src/traxpp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 67c2b27..b200c43 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -59,7 +59,7 @@ Wrapper::Wrapper() : pn(NULL) {
 }
 
 Wrapper::Wrapper(const Wrapper& count) : pn(count.pn) {
-	acquire();
+	if (pn) acquire();
 }
 
 
@@ -72,9 +72,10 @@ Wrapper::~Wrapper() {
 }
 
 void Wrapper::acquire(const Wrapper& lhs) {
+	if (pn == lhs.pn) return;
 	release();
 	pn = lhs.pn;
-	acquire();
+	if (pn) acquire();
 }
 
 void Wrapper::swap(Wrapper& lhs) {
-- 
2.43.0


From 4e1b0bd6c1794e6e1fc3180750eae7c3926bb1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 035/118] fix: leave moved-from C++ objects in a defined state
 and define the missing move assignment of properties

---
 src/traxpp.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index b200c43..4145929 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -113,8 +113,9 @@ Metadata::Metadata() {
     wrap(trax_metadata_create(0, 0, TRAX_CHANNEL_COLOR, NULL, NULL, NULL, 0));
 }
 
-Metadata::Metadata(Metadata&& original) : Wrapper(std::move(original)) {
-	metadata = original.metadata;
+Metadata::Metadata(Metadata&& original) : Metadata() {
+	swap(original);
+	std::swap(metadata, original.metadata);
 }
 
 Metadata::Metadata(const Metadata& original) : Wrapper(original) {
@@ -230,8 +231,9 @@ Handle::Handle(const Handle& original) : Wrapper(original) {
 	handle = original.handle;
 }
 
-Handle::Handle(Handle&& original) : Wrapper(original) {
-	handle = original.handle;
+Handle::Handle(Handle&& original) : Handle() {
+	swap(original);
+	std::swap(handle, original.handle);
 }
 
 Handle::~Handle() {
@@ -518,8 +520,9 @@ Image::Image(const Image& original) : Wrapper(original) {
 	image = original.image;
 }
 
-Image::Image(Image&& original) : Wrapper(std::move(original)) {
-	image = original.image;
+Image::Image(Image&& original) : Image() {
+	swap(original);
+	std::swap(image, original.image);
 }
 
 Image& Image::operator=(const Image& lhs) throw() {
@@ -622,7 +625,8 @@ ObjectList::ObjectList(const ObjectList& original) : Wrapper(original) {
 	_properties = original._properties;
 }
 
-ObjectList::ObjectList(ObjectList&& original) : Wrapper(std::move(original)) {
+ObjectList::ObjectList(ObjectList&& original) : ObjectList() {
+	swap(original);
 	std::swap(list, original.list);
 	std::swap(_regions, original._regions);
 	std::swap(_properties, original._properties);
@@ -707,7 +711,8 @@ ImageList::ImageList(const ImageList& original)  : Wrapper(original) {
 	images = original.images;
 }
 
-ImageList::ImageList(ImageList&& original)  : Wrapper(std::move(original)) {
+ImageList::ImageList(ImageList&& original)  : ImageList() {
+	swap(original);
 	std::swap(list, original.list);
 	std::swap(images, original.images);
 }
@@ -790,7 +795,8 @@ Region::Region(const Region& original) : Wrapper(original) {
 	region = original.region;
 }
 
-Region::Region(Region&& original) : Wrapper(std::move(original)) {
+Region::Region(Region&& original) : Region() {
+	swap(original);
 	std::swap(region, original.region);
 }
 
@@ -1036,7 +1042,8 @@ Properties::Properties(const Properties& original) : Wrapper(original) {
 	properties = original.properties;
 }
 
-Properties::Properties(Properties&& original) : Wrapper(std::move(original)) {
+Properties::Properties(Properties&& original) : Properties() {
+	swap(original);
 	std::swap(properties, original.properties);
 }
 
@@ -1046,6 +1053,12 @@ Properties& Properties::operator=(const Properties& original) throw() {
 	return *this;
 }
 
+Properties& Properties::operator=(Properties&& original) throw() {
+	swap(original);
+	std::swap(properties, original.properties);
+	return *this;
+}
+
 Properties::~Properties() {
 	release();
 }
-- 
2.43.0


From 7ed89092009d5f4909464ecb698934d55bb33fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 036/118] fix: do not keep the previous value of a C++ object
 if it could not be replaced by a new one

---
 src/traxpp.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 4145929..f92ab72 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -187,7 +187,6 @@ void Metadata::cleanup() {
 }
 
 void Metadata::wrap(trax_metadata* obj) {
-	if (!obj) return;
 	release();
 	if (obj) acquire();
 	metadata = obj;
@@ -253,7 +252,6 @@ int Handle::get_parameter(int id, int* value) {
 }
 
 void Handle::wrap(trax_handle* obj) {
-	if (!obj) return;
 	release();
 	if (obj) acquire();
 	handle = obj;
@@ -603,7 +601,6 @@ void Image::cleanup() {
 }
 
 void Image::wrap(trax_image* obj) {
-	if (!obj) return;
 	release();
 	image = obj;
 	if (image) acquire();
@@ -948,7 +945,6 @@ float Region::overlap(const Region& region, const Bounds& bounds) const {
 }
 
 void Region::wrap(trax_region* obj) {
-	if (!obj) return;
 	release();
 	if (obj) acquire();
 	region = obj;
@@ -1137,10 +1133,9 @@ void Properties::cleanup() {
 }
 
 void Properties::wrap(trax_properties* obj) {
-	if (!obj) return;
 	release();
 	properties = obj;
-	acquire();
+	if (properties) acquire();
 }
 
 void copy_enumerator(const char *key, const char *value, const void *obj) {
-- 
2.43.0


From c093ae510e61d1140a40f94f68e207b2e42b4917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 037/118] fix: own the memory of image and object lists that
 were created in C++

---
 src/traxpp.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index f92ab72..4c8efbc 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -611,9 +611,7 @@ ObjectList::ObjectList() {
 }
 
 ObjectList::ObjectList(int count) {
-	list = trax_object_list_create(count);
-	_regions.resize(count);
-	_properties.resize(count);
+	wrap(trax_object_list_create(count));
 }
 
 ObjectList::ObjectList(const ObjectList& original) : Wrapper(original) {
@@ -686,7 +684,7 @@ void ObjectList::wrap(trax_object_list* obj) {
 	if (!obj) return;
 	release();
 	list = obj;
-	if (list) acquire();
+	acquire();
 
 	_regions.resize(trax_object_list_count(obj));
 	_properties.resize(trax_object_list_count(obj));
@@ -699,8 +697,8 @@ void ObjectList::wrap(trax_object_list* obj) {
 
 
 ImageList::ImageList()  {
-	list = trax_image_list_create();
 	images.resize(TRAX_CHANNELS);
+	wrap(trax_image_list_create());
 }
 
 ImageList::ImageList(const ImageList& original)  : Wrapper(original) {
@@ -776,7 +774,7 @@ void ImageList::wrap(trax_image_list* obj) {
 	if (!obj) return;
 	release();
 	list = obj;
-	if (list) acquire();
+	acquire();
 
 	for (int i = 0; i < TRAX_CHANNELS; i++)
 		images[i].wrap(obj->images[i]);
-- 
2.43.0


From 66b75c75cdd26393b9d4642278de7996856cd7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 038/118] fix: do not change copies of C++ image and object
 lists and ignore illegal channels and indices

---
 src/traxpp.cpp | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 4c8efbc..902a232 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -649,10 +649,26 @@ ObjectList::~ObjectList() {
 }
 
 Region ObjectList::get(int index) const {
+	if (index < 0 || index >= size()) return Region();
 	return _regions[index];
 }
 
 void ObjectList::set(int index, Region region) {
+	if (index < 0 || index >= size()) return;
+	if (region.empty()) region.set(0);
+	if (claims() > 1) {
+		// Do not change other copies of the list, regions and properties are shared
+		trax_object_list* copy = trax_object_list_create(size());
+		for (int i = 0; i < copy->size; i++) {
+			trax_region_release(&(copy->regions[i]));
+			trax_properties_release(&(copy->properties[i]));
+			copy->regions[i] = list->regions[i];
+			copy->properties[i] = list->properties[i];
+		}
+		release();
+		list = copy;
+		acquire();
+	}
 	_regions[index] = region;
 	list->regions[index] = region.region;
 	// Do not use C function as it will try to free old region
@@ -660,6 +676,7 @@ void ObjectList::set(int index, Region region) {
 }
 
 Properties ObjectList::properties(int index) const {
+	if (index < 0 || index >= size()) return Properties();
 	return _properties[index];
 }
 
@@ -732,20 +749,36 @@ ImageList::~ImageList() {
 
 Image ImageList::get(int channel) const {
 
-	return images[TRAX_CHANNEL_INDEX(channel)];
+	int i = TRAX_CHANNEL_INDEX(channel);
+	if (i < 0 || i >= TRAX_CHANNELS) return Image();
+
+	return images[i];
 
 }
 
 bool ImageList::has(int channel) const {
 
-	return !images[TRAX_CHANNEL_INDEX(channel)].empty();
+	return !get(channel).empty();
 
 }
 
 void ImageList::set(Image image, int channel) {
 
-	images[TRAX_CHANNEL_INDEX(channel)] = image;
-	list->images[TRAX_CHANNEL_INDEX(channel)] = image.image;
+	int i = TRAX_CHANNEL_INDEX(channel);
+	if (i < 0 || i >= TRAX_CHANNELS) return;
+
+	if (claims() > 1) {
+		// Do not change other copies of the list
+		trax_image_list* copy = trax_image_list_create();
+		for (int j = 0; j < TRAX_CHANNELS; j++)
+			copy->images[j] = list->images[j];
+		release();
+		list = copy;
+		acquire();
+	}
+
+	images[i] = image;
+	list->images[i] = image.image;
 
 }
 
-- 
2.43.0


From bb8340e163338e3a178a5eb039b9406423529440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 039/118] fix: do not change or lose the data of other C++
 objects when a copy is modified

---
 src/traxpp.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 902a232..beb1b9c 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -139,6 +139,8 @@ Metadata::Metadata(trax_metadata* metadata) {
     wrap(trax_metadata_create(metadata->format_region, metadata->format_image, metadata->channels,
 		metadata->tracker_name, metadata->tracker_description, metadata->tracker_family, metadata->flags));
 
+    trax_properties_append(metadata->custom, this->metadata->custom, 1);
+
 }
 
 Metadata::~Metadata() {
@@ -218,6 +220,11 @@ std::string Metadata::get_custom(const std::string key) const {
 
 void Metadata::set_custom(const std::string key, const std::string value) {
 
+	if (claims() > 1) {
+		Metadata copy(metadata);
+		*this = std::move(copy);
+	}
+
 	trax_properties_set(metadata->custom, key.c_str(), value.c_str());
 
 }
@@ -584,6 +591,18 @@ void Image::get_memory_header(int* width, int* height, int* format) const {
 }
 
 char* Image::write_memory_row(int row) {
+	if (claims() > 1 && type() == TRAX_IMAGE_MEMORY) {
+		// Do not change other copies of the image
+		int width, height, format;
+		trax_image* original = image;
+		trax_image_get_memory_header(original, &width, &height, &format);
+		trax_image* copy = trax_image_create_memory(width, height, format);
+		int length = width * (format == TRAX_IMAGE_MEMORY_RGB ? 3 : (format == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1));
+		for (int i = 0; i < height; i++)
+			std::copy_n(trax_image_get_memory_row(original, i), length, trax_image_write_memory_row(copy, i));
+		wrap(copy);
+	}
+
 	return trax_image_write_memory_row(image, row);
 }
 
@@ -932,6 +951,9 @@ void Region::get_mask_header(int* x, int* y, int* width, int* height) const {
 
 char* Region::write_mask_row(int row) {
 
+	if (claims() > 1)
+		wrap(trax_region_clone(region));
+
 	return trax_region_write_mask_row(region, row);
 
 }
@@ -1097,9 +1119,10 @@ int Properties::size() const {
 
 void Properties::clear()  {
 	if (!properties) return;
-	if (claims() > 1)
+	if (claims() > 1) {
 		release();
-	else
+		properties = NULL;
+	} else
 		trax_properties_clear(properties);
 }
 
-- 
2.43.0


From 26e6989cc944729c34ffb59045361936d57ad014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 040/118] fix: report failure for C++ handles without a
 session, release objects and deliver the latest properties

---
 src/traxpp.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index beb1b9c..c4076b6 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -251,10 +251,12 @@ void Handle::cleanup() {
 }
 
 int Handle::set_parameter(int id, int value) {
+	if (!claims()) return -1;
 	return trax_set_parameter(handle, id, value);
 }
 
 int Handle::get_parameter(int id, int* value) {
+	if (!claims()) return -1;
 	return trax_get_parameter(handle, id, value);
 }
 
@@ -273,7 +275,7 @@ const Metadata Handle::metadata() {
 }
 
 bool Handle::terminate(const std::string reason) {
-	if (!claims()) return -1;
+	if (!claims()) return false;
 	return trax_terminate(handle, reason.c_str()) == TRAX_OK;
 }
 
@@ -325,7 +327,7 @@ int Client::wait(Region& region, Properties& properties) {
 		if (trax_object_list_count(tobjects) == 1) {
 			tregion = trax_region_clone(trax_object_list_get(tobjects, 0));
 			region.wrap(tregion);
-			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 0);
+			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 1);
 		}
 		trax_object_list_release(&tobjects);
 	}
@@ -463,8 +465,9 @@ int ServerMOT::wait(ImageList& image, Region& region, Properties& properties) {
 		if (trax_object_list_count(tobjects) == 1) {
 			tregion = trax_region_clone(trax_object_list_get(tobjects, 0));
 			region.wrap(tregion);
-			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 0);
+			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 1);
 		}
+		trax_object_list_release(&tobjects);
 	}
 
 	return result;
@@ -489,6 +492,8 @@ int ServerMOT::reply(const Region& region, const Properties& properties) {
 
 int ServerMOT::wait(ImageList& image, ObjectList& objects, Properties& properties) {
 
+	if (!claims()) return -1;
+
 	trax_object_list* tobjects = NULL;
     trax_image_list* timagelist = NULL;
 
-- 
2.43.0


From 5a184937a22f60d7b6cd4f2181e4fa6072fa3757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 041/118] fix: handle object lists that are appended to
 themselves or assigned their own regions

---
 src/trax.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 1dc43ce..eff9937 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2181,9 +2181,11 @@ void trax_object_list_set(trax_object_list* list, int index, trax_region* region
 
     if (index < 0 || index >= list->size) return;
 
+    region = trax_region_clone(region);
+
     trax_region_release(&(list->regions[index]));
 
-    list->regions[index] = trax_region_clone(region);
+    list->regions[index] = region;
 
 }
 
@@ -2206,17 +2208,18 @@ int trax_object_list_count(const trax_object_list* list) {
 
 int trax_object_list_append(trax_object_list* list, const trax_object_list* src) {
 
-    int i, o;
+    int i, o, n;
 
     assert(list && src);
 
     o = list->size;
-    list->size += src->size;
+    n = src->size;
+    list->size += n;
 
     list->regions = (trax_region**) realloc(list->regions, sizeof(trax_region*) * list->size);
     list->properties = (trax_properties**) realloc(list->properties, sizeof(trax_properties*) * list->size);
 
-    for (i = 0; i < src->size; i++) {
+    for (i = 0; i < n; i++) {
         list->regions[i + o] = trax_region_clone(src->regions[i]);
         list->properties[i + o] = trax_properties_create();
         copy_properties(src->properties[i], list->properties[i + o], COPY_ALL | COPY_OVERWRITE);
-- 
2.43.0


From 7580dabaac86a17491703b911c5fa4b9d6528392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 042/118] fix: do not send fragments of messages after a failed
 write

---
 src/message.c | 5 +++++
 src/message.h | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/message.c b/src/message.c
index 178734c..34f2b87 100644
--- a/src/message.c
+++ b/src/message.c
@@ -646,6 +646,9 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
 int write_buffer(message_stream* stream, const char* buf, int len, trax_logging* log) {
     if (len < 1) return 1;
 
+    // If a part of a message was lost then the remaining parts must not be sent
+    if (stream->flags & TRAX_STREAM_BROKEN) return -1;
+
     if (stream->flags & TRAX_STREAM_SOCKET) {
 
         int cnt = 0;
@@ -658,6 +661,7 @@ int write_buffer(message_stream* stream, const char* buf, int len, trax_logging*
             #endif
             if(l == -1) {
                 if (errno == EINTR) continue;
+                stream->flags |= TRAX_STREAM_BROKEN;
                 return -1;
             }
             cnt += l;
@@ -671,6 +675,7 @@ int write_buffer(message_stream* stream, const char* buf, int len, trax_logging*
             int l = write(stream->files.output, buf+cnt, len-cnt);
             if(l == -1) {
                 if (errno == EINTR) continue;
+                stream->flags |= TRAX_STREAM_BROKEN;
                 return -1;
             }
             cnt += l;
diff --git a/src/message.h b/src/message.h
index e6d63d8..4101883 100644
--- a/src/message.h
+++ b/src/message.h
@@ -7,6 +7,7 @@
 #define TRAX_STREAM_SOCKET 2
 #define TRAX_STREAM_SOCKET_LISTEN 8
 #define TRAX_STREAM_ASYNC 16
+#define TRAX_STREAM_BROKEN 32
 
 #define TRAX_BUFFER_SIZE 4096
 
-- 
2.43.0


From 2968504fef160b5c6c0606ecccaeb4269d8fa426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 043/118] fix: do not wait for a connection that was
 established while connecting was interrupted by a signal

---
 src/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 34f2b87..61c91ff 100644
--- a/src/message.c
+++ b/src/message.c
@@ -153,7 +153,7 @@ message_stream* create_message_stream_socket_connect(int port) {
 
 	while (1) {
 
-	    if (connect(sid, (const struct sockaddr *)&pin, sizeof(pin))) {
+	    if (connect(sid, (const struct sockaddr *)&pin, sizeof(pin)) && errno != EISCONN) {
             perror("connect"); // Wait a bit for connection ...
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER) 
             Sleep(1000);
-- 
2.43.0


From 32ad21327234642898ac6843b4f7b69bcdefb2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 044/118] fix: wait for a connection without a limit if the
 timeout is negative, as by default in C++

---
 src/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 61c91ff..16507f3 100644
--- a/src/message.c
+++ b/src/message.c
@@ -207,7 +207,7 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
         FD_SET(server,&exceptfds);
 
         errno = 0;
-        ready = select(server+1,&readfds,&writefds,&exceptfds,&tv);
+        ready = select(server+1,&readfds,&writefds,&exceptfds,timeout < 0 ? NULL : &tv);
     } while (ready < 0 && errno == EINTR);
 
 	if(ready > 0 && FD_ISSET(server,&readfds)) {
-- 
2.43.0


From 0f738f9fa4c3dcb0ae14a2b2ea9a5e81cf083c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 045/118] fix: refuse objects without a usable region before
 anything is sent

---
 src/region.c |  2 ++
 src/trax.c   | 37 +++++++++++++++++++++++++++++++++++--
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/region.c b/src/region.c
index 98c594a..f835a39 100644
--- a/src/region.c
+++ b/src/region.c
@@ -777,6 +777,8 @@ region_container* region_convert(const region_container* region, region_type typ
 
 void region_release(region_container** region) {
 
+	if (!*region) return;
+
 	switch ((*region)->type) {
 	case RECTANGLE:
 		break;
diff --git a/src/trax.c b/src/trax.c
index eff9937..9f80fd9 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -906,6 +906,31 @@ static int check_images(trax_handle* client, const trax_image_list* images) {
 
 }
 
+// Checks that objects have regions that can be sent to a tracker
+static int check_objects(trax_handle* client, const trax_object_list* objects) {
+
+    int i;
+
+    for (i = 0; objects && i < objects->size; i++) {
+        int type = trax_region_get_type(objects->regions[i]);
+        int legal = type != TRAX_REGION_EMPTY && type != TRAX_REGION_SPECIAL;
+
+        if (legal && !TRAX_SUPPORTS(client->metadata->format_region, type)) {
+            trax_region* converted = region_autoconvert(objects->regions[i], client->metadata->format_region);
+            legal = converted != NULL;
+            if (converted) trax_region_release(&converted);
+        }
+
+        if (!legal) {
+            set_error(client, "Illegal region of object %d", i);
+            return 0;
+        }
+    }
+
+    return 1;
+
+}
+
 int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
 
     char* data = NULL;
@@ -936,7 +961,7 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
         return TRAX_ERROR;
     }
 
-    if (!check_images(client, images)) return TRAX_ERROR;
+    if (!check_images(client, images) || !check_objects(client, objects)) return TRAX_ERROR;
 
     if (IS_VERSION_4(client)) {
         if (client->objects > 0) {
@@ -1031,6 +1056,8 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
             return TRAX_ERROR;
         }
 
+        if (!check_objects(client, objects)) return TRAX_ERROR;
+
         for (i = 0; i < n; i++) {
             char* data = NULL;
             string_list* arguments;
@@ -1508,9 +1535,15 @@ int trax_server_reply_mot(trax_handle* server, trax_object_list* objects) {
         return TRAX_ERROR;
     }
 
+    for (i = 0; i < n; i++) {
+        if (trax_region_get_type(trax_object_list_get(objects, i)) == TRAX_REGION_EMPTY) {
+            set_error(server, "Illegal region of object %d", i);
+            return TRAX_ERROR;
+        }
+    }
+
     for (i = 0; i < n; i++) {
         data = region_string(REGION(trax_object_list_get(objects, i)));
-        if (!data) return TRAX_ERROR;
         arguments = list_create(1);
         list_append_direct(arguments, data);
         write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, trax_object_list_properties(objects, i));
-- 
2.43.0


From 571392cc845c5e82d693884d7d8ddebea359ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 046/118] fix: do not take unknown or no declared formats for
 support of all or none of them

---
 src/trax.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 9f80fd9..81f9ad3 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -619,12 +619,16 @@ trax_handle* client_setup(message_stream* stream, const trax_logging log) {
 
     // Rectangle and path are the defaults if the tracker does not declare any format
     tmp = trax_properties_get(tmp_properties, "trax.region");
-    region_formats = tmp ? region_formats_decode(tmp) : TRAX_REGION_RECTANGLE;
+    region_formats = tmp ? region_formats_decode(tmp) : 0;
     free(tmp);
+    if (region_formats == 0)
+        region_formats = TRAX_REGION_RECTANGLE;
 
     tmp = trax_properties_get(tmp_properties, "trax.image");
-    image_formats = tmp ? image_formats_decode(tmp) : TRAX_IMAGE_PATH;
+    image_formats = tmp ? image_formats_decode(tmp) : 0;
     free(tmp);
+    if (image_formats == 0)
+        image_formats = TRAX_IMAGE_PATH;
 
     // Multiple channels are only supported in TraX protocol version 2
     if (client->version < 2) {
@@ -637,6 +641,11 @@ trax_handle* client_setup(message_stream* stream, const trax_logging log) {
             channels = TRAX_CHANNEL_COLOR;
     }
 
+    if (region_formats < 0 || image_formats < 0 || channels < 0) {
+        DEBUGMSG("Unknown format or channel declared.");
+        goto failure;
+    }
+
     tracker_name = trax_properties_get(tmp_properties, "trax.name");
     tracker_description = trax_properties_get(tmp_properties, "trax.description");
     tracker_family = trax_properties_get(tmp_properties, "trax.family");
-- 
2.43.0


From ac8a8cfd6da7456d6385704a1ee6e9d328cd6c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 047/118] fix: accept comma-separated channels, as documented
 in the protocol

---
 src/trax.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 81f9ad3..b9977c4 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -381,18 +381,18 @@ trax_image* image_decode(char* buffer) {
 
 }
 
-// Splits the string at spaces and semicolons, unlike strtok does not rely on a shared state
+// Splits the string at spaces, semicolons and commas, unlike strtok does not rely on a shared state
 static char* next_token(char** str) {
 
     char* token;
 
     if (!*str) return NULL;
 
-    *str += strspn(*str, " ;");
+    *str += strspn(*str, " ;,");
     if (!**str) return NULL;
 
     token = *str;
-    *str += strcspn(*str, " ;");
+    *str += strcspn(*str, " ;,");
     if (**str) *((*str)++) = 0;
 
     return token;
-- 
2.43.0


From 99a02a7d420e9ba091e3addbd6b5f3e7d3366ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 048/118] fix: appending a property set to itself copies
 overlapping strings

---
 src/trax.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index b9977c4..24a2948 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -547,6 +547,9 @@ void channels_encode(int channels, char *key) {
 
 void copy_properties(const trax_properties* source, trax_properties* dest, int flags) {
 
+    // Everything is already there, the map must not be changed while it is being enumerated
+    if (source == dest) return;
+
     trax_enumerator f = (flags & COPY_ALL) ?
      ((flags & COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
      ((flags & COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
-- 
2.43.0


From 26d2943274817d221f62dfceec92c6467fd3e37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 049/118] fix: bounds of an empty mask at the lowest coordinate
 overflow

---
 src/region.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index f835a39..0d96c31 100644
--- a/src/region.c
+++ b/src/region.c
@@ -168,7 +168,7 @@ region_bounds compute_bounds_mask(const region_mask* mask) {
 
 	// Without foreground the bounds are empty
 	if (bounds.right < bounds.left) {
-		return region_create_bounds(mask->x, mask->y, mask->x - 1, mask->y - 1);
+		return region_create_bounds(mask->x, mask->y, (float) mask->x - 1, (float) mask->y - 1);
 	}
 
 	bounds.top += mask->y;
-- 
2.43.0


From 55df8fb1d154d2565d81b64988cba5366e48ee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 050/118] fix: a point far away from a mask reads outside of
 its data

---
 src/region.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/region.c b/src/region.c
index 0d96c31..dacc414 100644
--- a/src/region.c
+++ b/src/region.c
@@ -879,10 +879,14 @@ int point_in_polygon(const region_polygon* polygon, float x, float y) {
 
 int point_in_mask(const region_mask* mask, float x, float y) {
 	
-	if (x < mask->x || y < mask->y || x >= mask->x + mask->width || y >= mask->y + mask->height)
+	// Differences of floats and integers are exact only in double precision
+	double column = floor(x) - (double) mask->x;
+	double row = floor(y) - (double) mask->y;
+
+	if (!(column >= 0 && row >= 0 && column < mask->width && row < mask->height))
 		return 0;
 
-	return mask->data[((int)floor(x) - mask->x) + ((int)floor(y) - mask->y) * mask->width] != 0;
+	return mask->data[(int) column + (int) row * mask->width] != 0;
 }
 
 
-- 
2.43.0


From fffa764a60f2c7a12d56c8ee792464db390908ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 051/118] fix: properties of a reply are not sent by the C++
 multi-object server

---
 src/traxpp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index c4076b6..5a44d7f 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -480,7 +480,8 @@ int ServerMOT::reply(const Region& region, const Properties& properties) {
 
 	trax_object_list* objects = trax_object_list_create(1);
 	trax_object_list_set(objects, 0, region.region);
-	trax_properties_append(trax_object_list_properties(objects, 0), properties.properties, 0);
+	if (properties.properties)
+		trax_properties_append(properties.properties, trax_object_list_properties(objects, 0), 1);
 
 	int result = trax_server_reply_mot(handle, objects);
 
-- 
2.43.0


From 298d87bc3d36fd89a0fe8def892aaef692f117ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 052/118] fix: a command that cannot be parsed crashes the
 client

---
 support/client/process.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index b0265d6..d2a14c0 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -94,23 +94,30 @@ int __next_token(const char* str, int start, char* buffer, int len)
 
     buffer[e - s] = '\0';
 
-    return str[e] == '\0' ? e : (quotes ? e + 2 : e + 1);
+    // Continue behind the token, also skip the space that follows a closing quote
+    if (str[e] == '\0') return e;
+
+    return (quotes && str[e + 1] != '\0') ? e + 2 : e + 1;
 }
 
 char** parse_command(const char* command) {
 
     int length = (int)strlen(command);
     char* buffer = new char[length+1];
-    char** tokens = new char*[length];
+    char** tokens = new char*[length + 1];
     int position = 0;
     int i = 0;
 
     while (1) {
 
-        position = __next_token(command, position, buffer, 1024);
+        // Spaces after the last argument do not start another one
+        if (i > 0 && command[position + strspn(command + position, " ")] == '\0')
+            break;
+
+        position = __next_token(command, position, buffer, length + 1);
 
         if (position < 0) {
-            for (int j = 0; j < i; j++) delete[] tokens[j];
+            for (int j = 0; j < i; j++) free(tokens[j]);
             delete [] tokens;
             delete [] buffer;
             return NULL;
@@ -152,7 +159,7 @@ Process::Process(string command, bool explicit_mode) : running(false), explicit_
 
     char** tokens = parse_command(command.c_str());
 
-    if (!tokens[0])
+    if (!tokens)
         throw std::runtime_error("Unable to parse command string");
 
     program = tokens[0];
-- 
2.43.0


From 457017fc165e5ea72c08549c0550dc8c7a969e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 053/118] fix: a process that was not started closes random
 descriptors

---
 support/client/process.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index d2a14c0..3c05b8b 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -155,8 +155,17 @@ Process::Process(string command, bool explicit_mode) : running(false), explicit_
     piProcInfo.hProcess = 0;
 #else
     pid = 0;
+    action_initialized = false;
+    out[0] = out[1] = -1;
+    in[0] = in[1] = -1;
+    err[0] = err[1] = -1;
 #endif
 
+    p_stdin = -1;
+    p_stdout = -1;
+    p_stderr = -1;
+    exit_status = -1;
+
     char** tokens = parse_command(command.c_str());
 
     if (!tokens)
-- 
2.43.0


From 23eb8b1830a9c6c713d912fe320a7a3df215a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 054/118] fix: the client does not notice that a tracker closed
 its streams

---
 support/client/process.cpp | 67 ++++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 10 deletions(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index 3c05b8b..5acf81f 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -15,10 +15,40 @@
 #include <io.h>
 #include <process.h>
 
+#define CLOSE_AND_RESET(H) { if (H) { CloseHandle((H)); H = NULL; }  }
+
 #else
 
 extern char **environ;
 
+// The descriptors must not be inherited by any other process that is started later, otherwise
+// the end of a stream is not noticed.
+static int create_pipe(int fd[2]) {
+
+#ifdef __linux__
+
+    return pipe2(fd, O_CLOEXEC);
+
+#else
+
+    if (pipe(fd) == -1) return -1;
+
+    fcntl(fd[0], F_SETFD, FD_CLOEXEC);
+    fcntl(fd[1], F_SETFD, FD_CLOEXEC);
+
+    return 0;
+
+#endif
+
+}
+
+static void close_descriptor(int& fd) {
+
+    if (fd != -1) close(fd);
+    fd = -1;
+
+}
+
 const string __getcwd()
 {
     size_t buf_size = 1024;
@@ -255,6 +285,7 @@ bool Process::start() {
             return false;
 
 
+        HANDLE handle_IN_Rd2 = NULL, handle_OUT_Wr2 = NULL;
         STARTUPINFO siStartInfo;
 
         // Set up members of the PROCESS_INFORMATION structure.
@@ -289,7 +320,6 @@ bool Process::start() {
         } else {
             siStartInfo.hStdError = handle_ERR_Wr;
             HANDLE pHandle = GetCurrentProcess();
-            HANDLE handle_IN_Rd2, handle_OUT_Wr2;
             DuplicateHandle(pHandle, handle_IN_Rd, pHandle, &handle_IN_Rd2, DUPLICATE_SAME_ACCESS, true, DUPLICATE_SAME_ACCESS);
             DuplicateHandle(pHandle, handle_OUT_Wr, pHandle, &handle_OUT_Wr2, DUPLICATE_SAME_ACCESS, true, DUPLICATE_SAME_ACCESS);
             envbuffer << string("TRAX_IN=") << handle_IN_Rd2 << '\0';
@@ -307,11 +337,21 @@ bool Process::start() {
         curdir, &siStartInfo, &piProcInfo )) {
 
             std::cerr << "Error: " << GetLastError()  << std::endl;
+            CLOSE_AND_RESET(handle_IN_Rd2);
+            CLOSE_AND_RESET(handle_OUT_Wr2);
             running = true;
             cleanup();
             return false;
         }
 
+        // The ends of the streams that belong to the process, the end of a stream would never be
+        // noticed if they remained open.
+        CLOSE_AND_RESET(handle_IN_Rd2);
+        CLOSE_AND_RESET(handle_OUT_Wr2);
+        CLOSE_AND_RESET(handle_IN_Rd);
+        CLOSE_AND_RESET(handle_OUT_Wr);
+        CLOSE_AND_RESET(handle_ERR_Wr);
+
         int wrfd = _open_osfhandle((intptr_t)handle_IN_Wr, 0);
         int rdfd = _open_osfhandle((intptr_t)handle_OUT_Rd, _O_RDONLY);
         int erfd = _open_osfhandle((intptr_t)handle_ERR_Rd, _O_RDONLY);
@@ -336,7 +376,8 @@ bool Process::start() {
 
         if (pid) return false;
 
-        if (pipe(out) == -1 || pipe(in) == -1 || pipe(err) == -1) {
+        if (create_pipe(out) == -1 || create_pipe(in) == -1 || create_pipe(err) == -1) {
+            cleanup();
             std::cerr << "Error: unable to configure process streams" << std::endl;
             return false;
         }
@@ -361,6 +402,8 @@ bool Process::start() {
             posix_spawn_file_actions_adddup2(&action, err[1], 2);
         } else {
             posix_spawn_file_actions_adddup2(&action, err[1], 2);
+            fcntl(in[1], F_SETFD, 0);
+            fcntl(out[0], F_SETFD, 0);
             vars.push_back(string("TRAX_OUT=") + int_to_string(in[1]));
             vars.push_back(string("TRAX_IN=") + int_to_string(out[0]));
         }
@@ -393,6 +436,12 @@ bool Process::start() {
 
         if (directory.size() > 0) CHDIR_SOFT(cwd);
 
+        // The ends of the streams that belong to the process, the end of a stream would never be
+        // noticed if they remained open.
+        close_descriptor(out[0]);
+        close_descriptor(in[1]);
+        close_descriptor(err[1]);
+
         p_stdin = out[1];
         p_stdout = in[0];
         p_stderr = err[0];
@@ -479,8 +528,6 @@ void Process::cleanup() {
 
 #ifdef WIN32
 
-#define CLOSE_AND_RESET(H) { if (H) { CloseHandle((H)); H = NULL; }  }
-
        /* if (p_stdin != -1) {
             _close(p_stdin);
             p_stdin = -1;
@@ -513,12 +560,12 @@ void Process::cleanup() {
 
 #else
 
-        if (out[0] != -1) {close(out[0]); out[0] = -1; };
-        if (err[0] != -1) {close(err[0]); err[0] = -1; };
-        if (in[1] != -1) {close(in[1]); in[1] = -1; };
-        if (out[1] != -1) {close(out[1]); out[1] = -1; };
-        if (err[1] != -1) {close(err[1]); err[1] = -1; };
-        if (in[0] != -1) {close(in[0]); in[0] = -1; };
+        close_descriptor(out[0]);
+        close_descriptor(err[0]);
+        close_descriptor(in[1]);
+        close_descriptor(out[1]);
+        close_descriptor(err[1]);
+        close_descriptor(in[0]);
 
         if (action_initialized) {
             posix_spawn_file_actions_destroy(&action);
-- 
2.43.0


From 4f2d5612ae477225f3784c49994313360f3d66c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 055/118] fix: inherited TRAX_IN and TRAX_OUT hide the ones of
 the tracker

---
 support/client/process.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index 5acf81f..515db39 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -385,6 +385,13 @@ bool Process::start() {
         vector<string> vars;
 
         map<string, string>::iterator iter;
+
+        if (explicit_mode) {
+            // Replaces the values that are inherited if the client itself was started this way
+            env["TRAX_OUT"] = int_to_string(in[1]);
+            env["TRAX_IN"] = int_to_string(out[0]);
+        }
+
         for (iter = env.begin(); iter != env.end(); ++iter) {
             // if (iter->first == "PWD") continue;
             vars.push_back(iter->first + string("=") + iter->second);
@@ -404,8 +411,6 @@ bool Process::start() {
             posix_spawn_file_actions_adddup2(&action, err[1], 2);
             fcntl(in[1], F_SETFD, 0);
             fcntl(out[0], F_SETFD, 0);
-            vars.push_back(string("TRAX_OUT=") + int_to_string(in[1]));
-            vars.push_back(string("TRAX_IN=") + int_to_string(out[0]));
         }
 
         std::vector<char *> vars_c(vars.size() + 1);
-- 
2.43.0


From 911cf803e7c9a064d21848c153b8752e48f96e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 056/118] fix: a killed tracker remains a zombie

---
 support/client/process.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index 515db39..5ea58fa 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -513,7 +513,12 @@ bool Process::kill() {
 #else
 
             ::kill(pid, SIGKILL);
-            is_alive();
+
+            // The process can not ignore the signal, wait for it so that it does not remain a zombie
+            while (is_alive()) {
+                siginfo_t info;
+                if (waitid(P_PID, pid, &info, WEXITED | WNOWAIT) == -1 && errno != EINTR) break;
+            }
 
 #endif
 
-- 
2.43.0


From 2dc83aee0c62a8615adfae8d0d9880af544ac864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 057/118] fix: invalid time of a timed wait

---
 support/client/threads.cpp | 491 +++++++++++++++++++------------------
 1 file changed, 246 insertions(+), 245 deletions(-)

diff --git a/support/client/threads.cpp b/support/client/threads.cpp
index 24e3298..777238d 100644
--- a/support/client/threads.cpp
+++ b/support/client/threads.cpp
@@ -1,245 +1,246 @@
-
-#include "threads.h"
-
-#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
-
-int simple_threads_cond_wait(THREAD h, HANDLE m, long milisec) {
-	if (milisec < 0)
-		return WaitForSingleObject(h, INFINITE);
-
-	return WaitForSingleObject(h, milisec);
-}
-
-int WINAPI simple_threads_create_thread(THREAD* h, LPTHREAD_START_ROUTINE lpStartAddress, LPVOID lpParameter) {
-
-	HANDLE hn = CreateThread(NULL, 0, lpStartAddress, lpParameter, 0, NULL);
-
-	if (hn == 0)
-		return -1;
-	*h = hn;
-
-	return 0;
-}
-
-void* simple_threads_release_thread(THREAD t) {
-
-	void* result = simple_threads_join_thread(t);
-
-	CloseHandle(t);
-
-	return result;
-}
-
-void* simple_threads_join_thread(THREAD t) {
-
-	WaitForSingleObject(t, INFINITE);
-
-	return NULL; // TODO: also get thread exit status
-
-}
-
-#else
-
-int simple_threads_cond_wait(pthread_cond_t * h, pthread_mutex_t *m, long milisec) {
-	struct timespec waittime;
-	struct timeval curtime;
-	int retcode;
-
-	if (milisec < 0) {
-		return pthread_cond_wait(h, m);
-
-	}
-
-	/*
-	 * We calculate the delay time (representing the desired frame
-	 * rate).  This delay time is in *nanoseconds*.
-	 * We will wait 0.5 seconds which gives a practical minimum
-	 * framerate of 2 which is desired for the motion_loop to
-	 * function.
-	 */
-	gettimeofday(&curtime, NULL);
-	curtime.tv_usec += milisec * 1000;
-
-	if (curtime.tv_usec > 1000000) {
-		curtime.tv_usec -= 1000000;
-		curtime.tv_sec++;
-	}
-
-	waittime.tv_sec = curtime.tv_sec;
-	waittime.tv_nsec = 1000L * curtime.tv_usec;
-
-	do {
-		retcode = pthread_cond_timedwait(h, m, &waittime);
-	} while (retcode == EINTR);
-
-	return retcode;
-}
-
-int simple_threads_create_thread(THREAD* t, void *(*start_routine)(void*), void *arg) {
-
-	pthread_attr_init(&(t->attr));
-
-	//pthread_attr_setdetachstate(&(t->attr), PTHREAD_CREATE_DETACHED);
-
-	return pthread_create(&(t->thread), &(t->attr), start_routine, arg);
-}
-
-void* simple_threads_release_thread(THREAD t) {
-
-	void* result = simple_threads_join_thread(t);
-
-	pthread_attr_destroy(&(t.attr));
-
-	return result;
-}
-
-void* simple_threads_join_thread(THREAD t) {
-
-	void* result;
-
-	pthread_join(t.thread, &result);
-
-	return result;
-
-}
-
-#endif
-
-Mutex::Mutex() {
-	MUTEX_INIT(mutex);
-
-	owner = THREAD_NONE;
-
-	counter = 0;
-
-	recursive = false;
-}
-
-Mutex::~Mutex() {
-	MUTEX_DESTROY(mutex);
-}
-
-void Mutex::acquire() {
-
-	if (!recursive) {
-    	MUTEX_LOCK(mutex);		
-	} else {
-		THREAD_IDENTIFIER tid = THREAD_GET_IDENTIFIER();
-
-	    if (!THREAD_EQUALS(tid, owner)) {
-	    	MUTEX_LOCK(mutex);
-	    	owner = tid;
-	    	counter = 0;
-	    }
-
-	    counter++;
-	}
-
-}
-
-void Mutex::release() {
-
-	if (!recursive) {
-    	MUTEX_UNLOCK(mutex);
-	} else {
-
-		THREAD_IDENTIFIER tid = THREAD_GET_IDENTIFIER();
-
-		if (THREAD_EQUALS(tid, owner)) {
-			counter--;
-
-			if (counter < 1) {
-				owner = THREAD_NONE;
-	    		MUTEX_UNLOCK(mutex);
-	    	}
-	    }
-	}
-
-
-}
-
-RecursiveMutex::RecursiveMutex() : Mutex() {
-	recursive = true;
-}
-
-RecursiveMutex::~RecursiveMutex() {
-
-}
-
-Lock::Lock(Mutex& mutex) : mutex(mutex), locked(false)
-{
-	lock();
-}
-
-Lock::Lock(Synchronized& mutex) : mutex(mutex.object_mutex), locked(false) {
-	
-	lock();
-
-}
-
-Lock::~Lock()
-{
-	unlock();
-}
-
-
-Lock::operator bool () const
-{
-	return locked;
-}
-
-void Lock::lock() {
-	if (!locked) {
-		mutex.acquire();
-		locked = true;
-	}
-}
-
-void Lock::unlock() {
-	if (locked) {
-		locked = false;
-		mutex.release();
-
-	}
-}
-
-
-Signal::Signal() {
-
-	CONDITION_INIT(condition);
-	MUTEX_INIT(mutex);
-}
-
-Signal::~Signal() {
-
-	CONDITION_DESTROY(condition);
-	MUTEX_DESTROY(mutex);
-}
-
-void Signal::wait(long timeout) {
-	MUTEX_LOCK(mutex);
-
-	if (timeout > 0) {
-		CONDITION_TIMEDWAIT(condition, mutex, timeout);
-	} else {
-		CONDITION_WAIT(condition, mutex);
-	}
-	MUTEX_UNLOCK(mutex);
-}
-
-void Signal::notify() {
-	
-	MUTEX_LOCK(mutex);
-	CONDITION_SIGNAL(condition);
-	MUTEX_UNLOCK(mutex);
-
-}
-
-
-Synchronized::Synchronized() {
-
-}
-
-Synchronized::~Synchronized() {
-
-}
+
+#include "threads.h"
+
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+
+int simple_threads_cond_wait(THREAD h, HANDLE m, long milisec) {
+	if (milisec < 0)
+		return WaitForSingleObject(h, INFINITE);
+
+	return WaitForSingleObject(h, milisec);
+}
+
+int WINAPI simple_threads_create_thread(THREAD* h, LPTHREAD_START_ROUTINE lpStartAddress, LPVOID lpParameter) {
+
+	HANDLE hn = CreateThread(NULL, 0, lpStartAddress, lpParameter, 0, NULL);
+
+	if (hn == 0)
+		return -1;
+	*h = hn;
+
+	return 0;
+}
+
+void* simple_threads_release_thread(THREAD t) {
+
+	void* result = simple_threads_join_thread(t);
+
+	CloseHandle(t);
+
+	return result;
+}
+
+void* simple_threads_join_thread(THREAD t) {
+
+	WaitForSingleObject(t, INFINITE);
+
+	return NULL; // TODO: also get thread exit status
+
+}
+
+#else
+
+int simple_threads_cond_wait(pthread_cond_t * h, pthread_mutex_t *m, long milisec) {
+	struct timespec waittime;
+	struct timeval curtime;
+	int retcode;
+
+	if (milisec < 0) {
+		return pthread_cond_wait(h, m);
+
+	}
+
+	/*
+	 * We calculate the delay time (representing the desired frame
+	 * rate).  This delay time is in *nanoseconds*.
+	 * We will wait 0.5 seconds which gives a practical minimum
+	 * framerate of 2 which is desired for the motion_loop to
+	 * function.
+	 */
+	gettimeofday(&curtime, NULL);
+	curtime.tv_sec += milisec / 1000;
+	curtime.tv_usec += (milisec % 1000) * 1000;
+
+	if (curtime.tv_usec >= 1000000) {
+		curtime.tv_usec -= 1000000;
+		curtime.tv_sec++;
+	}
+
+	waittime.tv_sec = curtime.tv_sec;
+	waittime.tv_nsec = 1000L * curtime.tv_usec;
+
+	do {
+		retcode = pthread_cond_timedwait(h, m, &waittime);
+	} while (retcode == EINTR);
+
+	return retcode;
+}
+
+int simple_threads_create_thread(THREAD* t, void *(*start_routine)(void*), void *arg) {
+
+	pthread_attr_init(&(t->attr));
+
+	//pthread_attr_setdetachstate(&(t->attr), PTHREAD_CREATE_DETACHED);
+
+	return pthread_create(&(t->thread), &(t->attr), start_routine, arg);
+}
+
+void* simple_threads_release_thread(THREAD t) {
+
+	void* result = simple_threads_join_thread(t);
+
+	pthread_attr_destroy(&(t.attr));
+
+	return result;
+}
+
+void* simple_threads_join_thread(THREAD t) {
+
+	void* result;
+
+	pthread_join(t.thread, &result);
+
+	return result;
+
+}
+
+#endif
+
+Mutex::Mutex() {
+	MUTEX_INIT(mutex);
+
+	owner = THREAD_NONE;
+
+	counter = 0;
+
+	recursive = false;
+}
+
+Mutex::~Mutex() {
+	MUTEX_DESTROY(mutex);
+}
+
+void Mutex::acquire() {
+
+	if (!recursive) {
+    	MUTEX_LOCK(mutex);		
+	} else {
+		THREAD_IDENTIFIER tid = THREAD_GET_IDENTIFIER();
+
+	    if (!THREAD_EQUALS(tid, owner)) {
+	    	MUTEX_LOCK(mutex);
+	    	owner = tid;
+	    	counter = 0;
+	    }
+
+	    counter++;
+	}
+
+}
+
+void Mutex::release() {
+
+	if (!recursive) {
+    	MUTEX_UNLOCK(mutex);
+	} else {
+
+		THREAD_IDENTIFIER tid = THREAD_GET_IDENTIFIER();
+
+		if (THREAD_EQUALS(tid, owner)) {
+			counter--;
+
+			if (counter < 1) {
+				owner = THREAD_NONE;
+	    		MUTEX_UNLOCK(mutex);
+	    	}
+	    }
+	}
+
+
+}
+
+RecursiveMutex::RecursiveMutex() : Mutex() {
+	recursive = true;
+}
+
+RecursiveMutex::~RecursiveMutex() {
+
+}
+
+Lock::Lock(Mutex& mutex) : mutex(mutex), locked(false)
+{
+	lock();
+}
+
+Lock::Lock(Synchronized& mutex) : mutex(mutex.object_mutex), locked(false) {
+	
+	lock();
+
+}
+
+Lock::~Lock()
+{
+	unlock();
+}
+
+
+Lock::operator bool () const
+{
+	return locked;
+}
+
+void Lock::lock() {
+	if (!locked) {
+		mutex.acquire();
+		locked = true;
+	}
+}
+
+void Lock::unlock() {
+	if (locked) {
+		locked = false;
+		mutex.release();
+
+	}
+}
+
+
+Signal::Signal() {
+
+	CONDITION_INIT(condition);
+	MUTEX_INIT(mutex);
+}
+
+Signal::~Signal() {
+
+	CONDITION_DESTROY(condition);
+	MUTEX_DESTROY(mutex);
+}
+
+void Signal::wait(long timeout) {
+	MUTEX_LOCK(mutex);
+
+	if (timeout > 0) {
+		CONDITION_TIMEDWAIT(condition, mutex, timeout);
+	} else {
+		CONDITION_WAIT(condition, mutex);
+	}
+	MUTEX_UNLOCK(mutex);
+}
+
+void Signal::notify() {
+	
+	MUTEX_LOCK(mutex);
+	CONDITION_SIGNAL(condition);
+	MUTEX_UNLOCK(mutex);
+
+}
+
+
+Synchronized::Synchronized() {
+
+}
+
+Synchronized::~Synchronized() {
+
+}
-- 
2.43.0


From 354bb083ef27a6032461ce34c0e1eec7ad244e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 058/118] fix: the owner of a recursive mutex is read without
 synchronisation

---
 support/client/threads.cpp |  62 +++---
 support/client/threads.h   | 438 ++++++++++++++++++-------------------
 2 files changed, 243 insertions(+), 257 deletions(-)

diff --git a/support/client/threads.cpp b/support/client/threads.cpp
index 777238d..d8f64b5 100644
--- a/support/client/threads.cpp
+++ b/support/client/threads.cpp
@@ -40,6 +40,21 @@ void* simple_threads_join_thread(THREAD t) {
 
 #else
 
+int simple_threads_mutex_init_recursive(pthread_mutex_t* m) {
+
+	int result;
+	pthread_mutexattr_t attr;
+
+	pthread_mutexattr_init(&attr);
+	pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_RECURSIVE);
+
+	result = pthread_mutex_init(m, &attr);
+
+	pthread_mutexattr_destroy(&attr);
+
+	return result;
+}
+
 int simple_threads_cond_wait(pthread_cond_t * h, pthread_mutex_t *m, long milisec) {
 	struct timespec waittime;
 	struct timeval curtime;
@@ -106,14 +121,14 @@ void* simple_threads_join_thread(THREAD t) {
 
 #endif
 
-Mutex::Mutex() {
-	MUTEX_INIT(mutex);
-
-	owner = THREAD_NONE;
+Mutex::Mutex(bool recursive) {
 
-	counter = 0;
+	if (recursive) {
+		MUTEX_INIT_RECURSIVE(mutex);
+	} else {
+		MUTEX_INIT(mutex);
+	}
 
-	recursive = false;
 }
 
 Mutex::~Mutex() {
@@ -122,45 +137,18 @@ Mutex::~Mutex() {
 
 void Mutex::acquire() {
 
-	if (!recursive) {
-    	MUTEX_LOCK(mutex);		
-	} else {
-		THREAD_IDENTIFIER tid = THREAD_GET_IDENTIFIER();
-
-	    if (!THREAD_EQUALS(tid, owner)) {
-	    	MUTEX_LOCK(mutex);
-	    	owner = tid;
-	    	counter = 0;
-	    }
-
-	    counter++;
-	}
+	MUTEX_LOCK(mutex);
 
 }
 
 void Mutex::release() {
 
-	if (!recursive) {
-    	MUTEX_UNLOCK(mutex);
-	} else {
-
-		THREAD_IDENTIFIER tid = THREAD_GET_IDENTIFIER();
-
-		if (THREAD_EQUALS(tid, owner)) {
-			counter--;
-
-			if (counter < 1) {
-				owner = THREAD_NONE;
-	    		MUTEX_UNLOCK(mutex);
-	    	}
-	    }
-	}
-
+	MUTEX_UNLOCK(mutex);
 
 }
 
-RecursiveMutex::RecursiveMutex() : Mutex() {
-	recursive = true;
+RecursiveMutex::RecursiveMutex() : Mutex(true) {
+
 }
 
 RecursiveMutex::~RecursiveMutex() {
diff --git a/support/client/threads.h b/support/client/threads.h
index 762d0b6..43fdd37 100644
--- a/support/client/threads.h
+++ b/support/client/threads.h
@@ -1,220 +1,218 @@
-
-#ifndef SIMPLE_THREADS
-#define SIMPLE_THREADS
-
-#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
-#include <windows.h>
-#include <process.h>
-#else
-#include <pthread.h>
-#include <sys/types.h>
-#include <sys/time.h>
-#include <sys/stat.h>
-#include <sys/wait.h>
-#include <sys/ioctl.h>
-#include <sys/param.h>
-#endif
-
-#include <errno.h>
-
-#undef HAVE_STDLIB_H
-#include <stdio.h>
-
-#ifdef __cplusplus
-extern "C" {
-#endif
-
-#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
-
-#define CREATE_THREAD(T, R, P) simple_threads_create_thread(&T, R, P)
-#define RELEASE_THREAD(T) simple_threads_release_thread(T)
-#define JOIN_THREAD(T) simple_threads_join_thread(T)
-
-#define THREAD_CALLBACK(NAME, ARGUMENT) DWORD WINAPI NAME(void* ARGUMENT)
-#define THREAD_IDENTIFIER DWORD
-#define THREAD_GET_IDENTIFIER() GetCurrentThreadId()
-#define THREAD HANDLE
-#define THREAD_MUTEX HANDLE
-#define THREAD_COND HANDLE
-#define MUTEX_LOCK(M) WaitForSingleObject(M, INFINITE)
-#define MUTEX_UNLOCK(M) ReleaseMutex(M)
-#define MUTEX_INIT(M) (M = CreateMutex(NULL, FALSE, NULL))
-#define MUTEX_DESTROY(M) WaitForSingleObject(M, INFINITE); CloseHandle(M)
-#define THREAD_EQUALS(T1, T2) (T1 == T2)
-#define THREAD_NONE -1
-
-#define CONDITION_SIGNAL(C) SetEvent(C)
-#define CONDITION_DESTROY(C) CloseHandle(C)
-#define CONDITION_INIT(C) (C = CreateEvent(NULL, FALSE, FALSE, NULL))
-#define CONDITION_TIMEDWAIT(C, M, T) simple_threads_cond_wait(C, M, T)
-#define CONDITION_WAIT(C, M) simple_threads_cond_wait(C, M, -1)
-
-int simple_threads_cond_wait(HANDLE h, HANDLE m, long milisec);
-
-int WINAPI simple_threads_create_thread(HANDLE* h, LPTHREAD_START_ROUTINE lpStartAddress, LPVOID lpParameter);
-
-void* simple_threads_release_thread(THREAD t);
-
-void* simple_threads_join_thread(THREAD t);
-
-#else
-
-typedef struct pthread_wrapper {
-	pthread_t thread;
-	pthread_attr_t attr;
-} pthread_wrapper;
-
-#define CREATE_THREAD(T, R, P) simple_threads_create_thread(&T, R, P)
-#define RELEASE_THREAD(T) simple_threads_release_thread(T)
-#define JOIN_THREAD(T) simple_threads_join_thread(T)
-
-#define THREAD_CALLBACK(NAME, ARGUMENT) void* NAME(void* ARGUMENT)
-#define THREAD_IDENTIFIER pthread_t
-#define THREAD_GET_IDENTIFIER() pthread_self()
-#define THREAD pthread_wrapper
-#define THREAD_MUTEX pthread_mutex_t
-#define THREAD_COND pthread_cond_t
-#define SSIZE_T ssize_t
-#define MUTEX_LOCK(M) pthread_mutex_lock(&M)
-#define MUTEX_UNLOCK(M) pthread_mutex_unlock(&M)
-#define MUTEX_INIT(M) pthread_mutex_init(&M, NULL)
-#define MUTEX_DESTROY(M) pthread_mutex_destroy(&M)
-#define THREAD_EQUALS(T1, T2) (T1 == T2 || (T1 && T2 && pthread_equal(T1, T2)))
-#define THREAD_NONE ((pthread_t) 0)
-
-#define CONDITION_SIGNAL(C) pthread_cond_signal(&C)
-#define CONDITION_DESTROY(C) pthread_cond_destroy(&C)
-#define CONDITION_INIT(C) pthread_cond_init(&C, NULL)
-#define CONDITION_TIMEDWAIT(C, M, T) simple_threads_cond_wait(&C, &M, T)
-#define CONDITION_WAIT(C, M) simple_threads_cond_wait(&C, &M, -1)
-
-
-typedef void *LPVOID;
-
-int simple_threads_cond_wait(pthread_cond_t* h, pthread_mutex_t* m, long milisec);
-
-int simple_threads_create_thread(THREAD* t, void *(*start_routine)(void*), void *arg);
-
-void* simple_threads_release_thread(THREAD t);
-
-void* simple_threads_join_thread(THREAD t);
-
-#endif
-
-#ifdef __cplusplus
-}
-
-class Synchronized;
-
-class Mutex {
-public:
-
-	Mutex();
-
-	virtual ~Mutex();
-
-	void acquire();
-
-	void release();
-
-protected:
-
-	THREAD_MUTEX mutex;
-
-	THREAD_IDENTIFIER owner;
-
-	int counter;
-
-	bool recursive;
-
-private:
-
-	Mutex& operator=(Mutex& p) throw();
-    //const Mutex& operator=(const Mutex&);
-
-};
-
-class RecursiveMutex : public Mutex {
-public:
-
-	RecursiveMutex();
-
-	RecursiveMutex(const RecursiveMutex& m);
-
-	virtual ~RecursiveMutex();
-
-private:
-
-	RecursiveMutex& operator=(RecursiveMutex& p) throw();
-    //const RecursiveMutex& operator=(const RecursiveMutex&);
-
-};
-
-class Lock {
-public:
-
-	Lock(Mutex& mutex);
-
-	Lock(Synchronized& mutex);
-
-	~Lock();
-
-	//report the state of locking when used as a boolean
-	operator bool () const;
-
-	void lock();
-
-	void unlock();
-
-private:
-
-	Lock& operator=(Lock& p) throw();
-	//const Lock& operator=(const Lock&);
-
-	Mutex& mutex;
-
-	bool locked;
-
-};
-
-class Signal {
-
-public:
-
-	Signal();
-
-	~Signal();
-
-	void wait(long timeout = -1);
-
-	void notify();
-
-private:
-
-	THREAD_COND condition;
-
-	THREAD_MUTEX mutex;
-
-};
-
-class Synchronized {
-friend class Lock;
-public:
-
-	Synchronized();
-	virtual ~Synchronized();
-
-protected:
-
-	RecursiveMutex object_mutex;
-
-};
-
-#define OBJECT_SYNCHRONIZE for(Lock M##_lock(object_mutex); M##_lock; M##_lock.unlock())
-
-#define MUTEX_SYNCHRONIZE(mutex) for(Lock M##_lock(mutex); M##_lock; M##_lock.unlock())
-
-
-#endif
-
-#endif
+
+#ifndef SIMPLE_THREADS
+#define SIMPLE_THREADS
+
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+#include <windows.h>
+#include <process.h>
+#else
+#include <pthread.h>
+#include <sys/types.h>
+#include <sys/time.h>
+#include <sys/stat.h>
+#include <sys/wait.h>
+#include <sys/ioctl.h>
+#include <sys/param.h>
+#endif
+
+#include <errno.h>
+
+#undef HAVE_STDLIB_H
+#include <stdio.h>
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+
+#define CREATE_THREAD(T, R, P) simple_threads_create_thread(&T, R, P)
+#define RELEASE_THREAD(T) simple_threads_release_thread(T)
+#define JOIN_THREAD(T) simple_threads_join_thread(T)
+
+#define THREAD_CALLBACK(NAME, ARGUMENT) DWORD WINAPI NAME(void* ARGUMENT)
+#define THREAD_IDENTIFIER DWORD
+#define THREAD_GET_IDENTIFIER() GetCurrentThreadId()
+#define THREAD HANDLE
+#define THREAD_MUTEX HANDLE
+#define THREAD_COND HANDLE
+#define MUTEX_LOCK(M) WaitForSingleObject(M, INFINITE)
+#define MUTEX_UNLOCK(M) ReleaseMutex(M)
+#define MUTEX_INIT(M) (M = CreateMutex(NULL, FALSE, NULL))
+#define MUTEX_INIT_RECURSIVE(M) MUTEX_INIT(M)
+#define MUTEX_DESTROY(M) WaitForSingleObject(M, INFINITE); CloseHandle(M)
+#define THREAD_EQUALS(T1, T2) (T1 == T2)
+#define THREAD_NONE -1
+
+#define CONDITION_SIGNAL(C) SetEvent(C)
+#define CONDITION_DESTROY(C) CloseHandle(C)
+#define CONDITION_INIT(C) (C = CreateEvent(NULL, FALSE, FALSE, NULL))
+#define CONDITION_TIMEDWAIT(C, M, T) simple_threads_cond_wait(C, M, T)
+#define CONDITION_WAIT(C, M) simple_threads_cond_wait(C, M, -1)
+
+int simple_threads_cond_wait(HANDLE h, HANDLE m, long milisec);
+
+int WINAPI simple_threads_create_thread(HANDLE* h, LPTHREAD_START_ROUTINE lpStartAddress, LPVOID lpParameter);
+
+void* simple_threads_release_thread(THREAD t);
+
+void* simple_threads_join_thread(THREAD t);
+
+#else
+
+typedef struct pthread_wrapper {
+	pthread_t thread;
+	pthread_attr_t attr;
+} pthread_wrapper;
+
+#define CREATE_THREAD(T, R, P) simple_threads_create_thread(&T, R, P)
+#define RELEASE_THREAD(T) simple_threads_release_thread(T)
+#define JOIN_THREAD(T) simple_threads_join_thread(T)
+
+#define THREAD_CALLBACK(NAME, ARGUMENT) void* NAME(void* ARGUMENT)
+#define THREAD_IDENTIFIER pthread_t
+#define THREAD_GET_IDENTIFIER() pthread_self()
+#define THREAD pthread_wrapper
+#define THREAD_MUTEX pthread_mutex_t
+#define THREAD_COND pthread_cond_t
+#define SSIZE_T ssize_t
+#define MUTEX_LOCK(M) pthread_mutex_lock(&M)
+#define MUTEX_UNLOCK(M) pthread_mutex_unlock(&M)
+#define MUTEX_INIT(M) pthread_mutex_init(&M, NULL)
+#define MUTEX_INIT_RECURSIVE(M) simple_threads_mutex_init_recursive(&M)
+#define MUTEX_DESTROY(M) pthread_mutex_destroy(&M)
+#define THREAD_EQUALS(T1, T2) (T1 == T2 || (T1 && T2 && pthread_equal(T1, T2)))
+#define THREAD_NONE ((pthread_t) 0)
+
+#define CONDITION_SIGNAL(C) pthread_cond_signal(&C)
+#define CONDITION_DESTROY(C) pthread_cond_destroy(&C)
+#define CONDITION_INIT(C) pthread_cond_init(&C, NULL)
+#define CONDITION_TIMEDWAIT(C, M, T) simple_threads_cond_wait(&C, &M, T)
+#define CONDITION_WAIT(C, M) simple_threads_cond_wait(&C, &M, -1)
+
+
+typedef void *LPVOID;
+
+int simple_threads_mutex_init_recursive(pthread_mutex_t* m);
+
+int simple_threads_cond_wait(pthread_cond_t* h, pthread_mutex_t* m, long milisec);
+
+int simple_threads_create_thread(THREAD* t, void *(*start_routine)(void*), void *arg);
+
+void* simple_threads_release_thread(THREAD t);
+
+void* simple_threads_join_thread(THREAD t);
+
+#endif
+
+#ifdef __cplusplus
+}
+
+class Synchronized;
+
+class Mutex {
+public:
+
+	Mutex(bool recursive = false);
+
+	virtual ~Mutex();
+
+	void acquire();
+
+	void release();
+
+protected:
+
+	THREAD_MUTEX mutex;
+
+private:
+
+	Mutex& operator=(Mutex& p) throw();
+    //const Mutex& operator=(const Mutex&);
+
+};
+
+class RecursiveMutex : public Mutex {
+public:
+
+	RecursiveMutex();
+
+	RecursiveMutex(const RecursiveMutex& m);
+
+	virtual ~RecursiveMutex();
+
+private:
+
+	RecursiveMutex& operator=(RecursiveMutex& p) throw();
+    //const RecursiveMutex& operator=(const RecursiveMutex&);
+
+};
+
+class Lock {
+public:
+
+	Lock(Mutex& mutex);
+
+	Lock(Synchronized& mutex);
+
+	~Lock();
+
+	//report the state of locking when used as a boolean
+	operator bool () const;
+
+	void lock();
+
+	void unlock();
+
+private:
+
+	Lock& operator=(Lock& p) throw();
+	//const Lock& operator=(const Lock&);
+
+	Mutex& mutex;
+
+	bool locked;
+
+};
+
+class Signal {
+
+public:
+
+	Signal();
+
+	~Signal();
+
+	void wait(long timeout = -1);
+
+	void notify();
+
+private:
+
+	THREAD_COND condition;
+
+	THREAD_MUTEX mutex;
+
+};
+
+class Synchronized {
+friend class Lock;
+public:
+
+	Synchronized();
+	virtual ~Synchronized();
+
+protected:
+
+	RecursiveMutex object_mutex;
+
+};
+
+#define OBJECT_SYNCHRONIZE for(Lock M##_lock(object_mutex); M##_lock; M##_lock.unlock())
+
+#define MUTEX_SYNCHRONIZE(mutex) for(Lock M##_lock(mutex); M##_lock; M##_lock.unlock())
+
+
+#endif
+
+#endif
-- 
2.43.0


From 8f79e07833f4759b5a777bf63188368bb5949f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 059/118] fix: a long debug message of the client reads invalid
 arguments

---
 support/client/client.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 083fc91..9d30f44 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -526,6 +526,9 @@ flush_condition.wait(1000);
 		if (required >= size) {
 			size = required;
 			buffer = (char*) realloc(buffer, sizeof(char) * size);
+			// The arguments were consumed by the first call
+			va_end(args);
+			va_start(args, format);
 			required = vsnprintf(buffer, size, format, args);
 		}
 #endif
-- 
2.43.0


From b3a2f184a9347a11720f7d85cee1746efeff3006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 060/118] fix: wrong port number given to the tracker if it is
 the last one or if sessions start at once

---
 support/client/client.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 9d30f44..3163b7a 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -221,7 +221,8 @@ int read_stream(int fd, char* buffer, int len) {
 
 namespace trax {
 
-int next_available_socket_port = TRAX_DEFAULT_PORT;
+static int next_available_socket_port = TRAX_DEFAULT_PORT;
+static Mutex next_available_socket_mutex;
 class TrackerProcess::State : public Synchronized {
 public:
 	State(const string& command, const map<std::string, std::string> environment, ConnectionMode connection, VerbosityMode verbosity, int timeout, string directory, ostream *log):
@@ -238,18 +239,18 @@ public:
 		if (connection == CONNECTION_SOCKETS) {
 			// Try to create a listening socket by looking for a free port number.
 			int attempts = 10;
+			Lock lock(next_available_socket_mutex);
 			while (attempts--) {
+				socket_port = next_available_socket_port;
 				socket_id = create_server_socket(next_available_socket_port++);
 				if (next_available_socket_port > 65535)
 					next_available_socket_port = TRAX_DEFAULT_PORT;
 
-				if (socket_id > 0) break;
+				if (socket_id >= 0) break;
 			}
 			if (socket_id < 0)
 				throw std::runtime_error("Unable to configure TCP server socket.");
 
-			socket_port = next_available_socket_port-1;
-
 			print_debug("Socket opened successfully on port %d.", socket_port);
 
 		}
-- 
2.43.0


From 38456e7df6eb98fd573b4132c28b5b5c1599628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 061/118] fix: server socket of the client is inherited by the
 trackers

---
 support/client/client.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 3163b7a..c99fe73 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -58,6 +58,7 @@ __inline void sleep(long time) {
 #include <sys/socket.h>
 #include <unistd.h>
 #include <sys/select.h>
+#include <fcntl.h>
 #include <arpa/inet.h>
 #include <netinet/tcp.h>
 #define closesocket close
@@ -94,10 +95,16 @@ int create_server_socket(int port) {
 		return -1;
 	}
 
+#ifdef FD_CLOEXEC
+	// The trackers must not keep the socket open
+	fcntl(sid, F_SETFD, FD_CLOEXEC);
+#endif
+
 	{
 		const int enable = 1;
 		if (setsockopt(sid, SOL_SOCKET, SO_REUSEADDR, (const char*) &enable, sizeof(int)) < 0) {
 			perror("setsockopt");
+			closesocket(sid);
 			return -1;
 		}
 	}
-- 
2.43.0


From 18cd48ad0e3ea1e7f83c626fb9face4119774faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 062/118] fix: a tracker that does not read its input ends the
 client with a signal

---
 support/client/client.cpp | 68 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index c99fe73..8f1af18 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -79,6 +79,62 @@ static void initialize_sockets(void) {}
 #include "process.h"
 #include "threads.h"
 
+// Writing to a tracker that does not exist any more must not end the client, the signal is
+// blocked while the guard exists and the error is reported by the write itself.
+class PipeGuard {
+public:
+
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+
+	PipeGuard() {}
+
+#else
+
+	PipeGuard() : active(false) {
+
+		if (pending()) return;
+
+		sigemptyset(&mask);
+		sigaddset(&mask, SIGPIPE);
+		active = pthread_sigmask(SIG_BLOCK, &mask, &previous) == 0;
+
+	}
+
+	~PipeGuard() {
+
+		if (!active) return;
+
+		if (pending()) {
+#ifdef __APPLE__
+			int signal;
+			sigwait(&mask, &signal);
+#else
+			struct timespec timeout = {0, 0};
+			sigtimedwait(&mask, NULL, &timeout);
+#endif
+		}
+
+		pthread_sigmask(SIG_SETMASK, &previous, NULL);
+
+	}
+
+private:
+
+	static bool pending() {
+		sigset_t signals;
+		sigemptyset(&signals);
+		sigpending(&signals);
+		return sigismember(&signals, SIGPIPE) == 1;
+	}
+
+	bool active;
+	sigset_t mask;
+	sigset_t previous;
+
+#endif
+
+};
+
 #define LOGGER_BUFFER_SIZE 1024
 
 int create_server_socket(int port) {
@@ -275,6 +331,8 @@ public:
 
 	~State() {
 
+		PipeGuard guard;
+
 		print_debug("Cleaning up.");
 
 		watchdog_active = false;
@@ -392,6 +450,8 @@ public:
 
 	bool stop_process() {
 
+		PipeGuard guard;
+
 		int exit_status = -1;
 
 		stop_watchdog();
@@ -768,6 +828,8 @@ bool TrackerProcess::initialize(const ImageList& image, const Region& region, co
 
 	state->start_watchdog();
 
+	PipeGuard guard;
+
 	// Initialize the tracker ...
 	int result = state->client->initialize(image, region, properties);
 
@@ -816,6 +878,8 @@ bool TrackerProcess::frame(const ImageList& image, const Properties& properties)
 
 	state->start_watchdog();
 
+	PipeGuard guard;
+
 	int result = state->client->frame(image, properties);
 
 	state->stop_watchdog();
@@ -841,6 +905,8 @@ bool TrackerProcess::initialize(const ImageList& image, const ObjectList& object
 
 	state->start_watchdog();
 
+	PipeGuard guard;
+
 	// Initialize the tracker ...
 	int result = state->client->initialize(image, objects, properties);
 
@@ -888,6 +954,8 @@ bool TrackerProcess::frame(const ImageList& image, const ObjectList& objects, co
 
 	state->start_watchdog();
 
+	PipeGuard guard;
+
 	int result = state->client->frame(image, objects, properties);
 
 	state->stop_watchdog();
-- 
2.43.0


From e3fa3a129a4daadffa075530065e0ea5c76458d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 063/118] fix: a tracker that could not be started properly is
 left behind

---
 support/client/client.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 8f1af18..78a915c 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -290,7 +290,7 @@ class TrackerProcess::State : public Synchronized {
 public:
 	State(const string& command, const map<std::string, std::string> environment, ConnectionMode connection, VerbosityMode verbosity, int timeout, string directory, ostream *log):
 		client(NULL), process(NULL), command(command), environment(environment), socket_id(-1), socket_port(-1),
-		connection(connection), verbosity(verbosity), timeout(timeout), directory(directory) {
+		tracking(false), connection(connection), verbosity(verbosity), timeout(timeout), directory(directory) {
 
 		timer_init();
 
@@ -364,6 +364,9 @@ public:
 
 		if (process_running()) return false;
 
+		// Release everything that belongs to a process that is gone
+		stop_process();
+
 		if (client) {
 			delete client;
 			client = NULL;
@@ -372,13 +375,13 @@ public:
 
 		print_debug("Creating process %s", command.c_str());
 
-		process_state_mutex.acquire();
-		process = new Process(command, connection == CONNECTION_EXPLICIT);
-		if (!directory.empty()) {
-			print_debug("Working directory is %s", directory.c_str());
-			process->set_directory(directory);
+		MUTEX_SYNCHRONIZE(process_state_mutex) {
+			process = new Process(command, connection == CONNECTION_EXPLICIT);
+			if (!directory.empty()) {
+				print_debug("Working directory is %s", directory.c_str());
+				process->set_directory(directory);
+			}
 		}
-		process_state_mutex.release();
 
 		process->copy_environment();
 
@@ -401,12 +404,14 @@ public:
 
 		if (!started) {
 			print_debug("Unable to start process");
+			stop_process();
 			throw std::runtime_error("Unable to start the tracker process");
 		} else {
 
 			sleepf(0.1);
 			if (!process->is_alive()) {
 				print_debug("Unable to start process");
+				stop_process();
 				throw std::runtime_error("Unable to start the tracker process");
 			}
 
@@ -427,6 +432,9 @@ public:
 			// TODO: check tracker exit state
 			if (!(*client)) {
 				print_debug("Unable to establish connection.");
+				delete client;
+				client = NULL;
+				stop_process();
 				throw std::runtime_error("Unable to establish connection.");
 			}
 
@@ -437,7 +445,10 @@ public:
 
 			client->get_parameter(TRAX_PARAMETER_VERSION, &server_version);
 
-			if (server_version > TRAX_VERSION) throw std::runtime_error("Unsupported protocol version");
+			if (server_version > TRAX_VERSION) {
+				stop_process();
+				throw std::runtime_error("Unsupported protocol version");
+			}
 
 			print_debug("Connection with tracker established.");
 
@@ -974,7 +985,7 @@ bool TrackerProcess::frame(const ImageList& image, const ObjectList& objects, co
 
 bool TrackerProcess::ready() const {
 
-	if (!state || !state->process_running() || !state->client->is_alive()) return false;
+	if (!state || !state->process_running() || !state->client || !state->client->is_alive()) return false;
 
 	return true;
 
-- 
2.43.0


From 10f5539af382ac5239677372f7924ceb7af909a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 064/118] fix: the watchdog uses the connection while it is
 used by the session

---
 support/client/client.cpp | 89 ++++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 35 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 78a915c..3cf9a47 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -335,7 +335,10 @@ public:
 
 		print_debug("Cleaning up.");
 
-		watchdog_active = false;
+		MUTEX_SYNCHRONIZE(watchdog_mutex) {
+			watchdog_active = false;
+		}
+
 		logger_active = false;
 
 		RELEASE_THREAD(watchdog_thread);
@@ -459,21 +462,45 @@ public:
 	}
 
 
+	// Ends the process with increasing force, process_state_mutex has to be locked by the caller
+	void end_process(int* exit_status) {
+
+		if (!process->is_alive(exit_status)) return;
+
+		print_debug("Trying to terminate process nicely.");
+		process->stop();
+
+		for (int i = 0; i < 5; i++) {
+			if (!process->is_alive(exit_status)) return;
+			sleepf(0.1);
+		}
+
+		if (process->is_alive(exit_status)) {
+			print_debug("Escalating to brute-force termination.");
+			process->kill();
+			sleepf(0.1);
+			process->is_alive(exit_status);
+		}
+
+	}
+
 	bool stop_process() {
 
 		PipeGuard guard;
 
 		int exit_status = -1;
 
-		stop_watchdog();
-
-		Lock lock(process_state_mutex);
-
 		if (client != NULL) {
 			print_debug("Trying to stop process using protocol.");
+			// The process may not accept the message at all
+			reset_watchdog(1);
 			client->terminate();
 		}
 
+		stop_watchdog();
+
+		Lock lock(process_state_mutex);
+
 		if (process) {
 
 			for (int i = 0; i < 5; i++) {
@@ -481,21 +508,7 @@ public:
 				sleepf(0.1);
 			}
 
-			if (process->is_alive(&exit_status)) {
-				print_debug("Trying to terminate process nicely.");
-				process->stop();
-				for (int i = 0; i < 5; i++) {
-					if (!process->is_alive(&exit_status)) break;
-					sleepf(0.1);
-				}
-
-				if (process->is_alive(&exit_status)) {
-					print_debug("Escalating to brute-force termination.");
-					process->kill();
-					sleepf(0.1);
-					process->is_alive(&exit_status);
-				}
-			}
+			end_process(&exit_status);
 
 			flush_streams();
 
@@ -526,6 +539,8 @@ public:
 
 	void reset_watchdog(int timeout) {
 
+		Lock lock(process_state_mutex);
+
 		watchdog_timeout = timeout * 10;
 
 	}
@@ -632,33 +647,37 @@ flush_condition.wait(1000);
 
 			sleepf(0.1);
 
-			state->watchdog_mutex.acquire();
+			bool terminate = false;
 
-			run = state->watchdog_active;
+			MUTEX_SYNCHRONIZE(state->watchdog_mutex) {
 
-			bool terminate = !state->process_running();
+				run = state->watchdog_active;
+
+				for (vector<WatchdogCallback*>::iterator c = state->callbacks.begin(); c != state->callbacks.end(); c++) {
+					terminate |= (*c)();
+				}
 
-			for (vector<WatchdogCallback*>::iterator c = state->callbacks.begin(); c != state->callbacks.end(); c++) {
-				terminate |= (*c)();
 			}
 
-			if (terminate) {
-				state->stop_process();
-			} else {
+			// Only the process is ended here, the thread that communicates with it is going to notice
+			// that and will clean up.
+			MUTEX_SYNCHRONIZE(state->process_state_mutex) {
+
+				if (state->process && state->process->is_alive()) {
 
-				if (state->watchdog_timeout > 0) {
+					if (state->watchdog_timeout > 0) {
 
-					state->watchdog_timeout--;
+						state->watchdog_timeout--;
+
+						if (state->watchdog_timeout == 0) terminate = true;
 
-					if (state->watchdog_timeout == 0) {
-						
-						state->stop_process();
 					}
 
+					if (terminate) state->end_process(NULL);
+
 				}
-			}
 
-			state->watchdog_mutex.release();
+			}
 
 		}
 
-- 
2.43.0


From 7f5319090a90dc5cf759c7aec4b160fde9d948fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 065/118] fix: output of the tracker is lost, reordered or
 never read by the client

---
 support/client/client.cpp | 196 +++++++++++++++++++++++---------------
 1 file changed, 120 insertions(+), 76 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 3cf9a47..b74edea 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -137,6 +137,11 @@ private:
 
 #define LOGGER_BUFFER_SIZE 1024
 
+// Streams of the process that are forwarded to the log
+#define LOGGER_STREAM_ERROR 0
+#define LOGGER_STREAM_OUTPUT 1
+#define LOGGER_STREAMS 2
+
 int create_server_socket(int port) {
 
 	int sid;
@@ -254,31 +259,31 @@ bool line_buffer_flush(line_buffer& buffer, ostream* out) {
 }
 
 
-int read_stream(int fd, char* buffer, int len) {
+// Waits until something can be read from any of the streams
+void wait_streams(const int* fds, bool* ready, int count, float timeout) {
 
-	fd_set readfds, writefds, exceptfds;
+	fd_set readfds;
 	struct timeval tv;
+	int last = -1;
 
-	tv.tv_sec = 1;
-	tv.tv_usec = 0;
-
-	if (fd < 0 || fd >= FD_SETSIZE)
-		return -1;
+	tv.tv_sec = 0;
+	tv.tv_usec = (long) (timeout * 1000000.0);
 
 	FD_ZERO(&readfds);
-	FD_ZERO(&writefds);
-	FD_ZERO(&exceptfds);
-	FD_SET(fd, &readfds);
-	FD_SET(fd, &exceptfds);
 
-	if (select(fd + 1, &readfds, &writefds, &exceptfds, &tv) < 0)
-		return -1;
+	for (int i = 0; i < count; i++) {
+		ready[i] = false;
+		if (fds[i] < 0 || fds[i] >= FD_SETSIZE) continue;
+		FD_SET(fds[i], &readfds);
+		if (fds[i] > last) last = fds[i];
+	}
 
-	if (FD_ISSET(fd, &readfds)) {
-		return read(fd, buffer, len);
-	} else if (FD_ISSET(fd, &exceptfds)) {
-		return -1;
-	} else return 0;
+	if (select(last + 1, &readfds, NULL, NULL, &tv) < 0) return;
+
+	for (int i = 0; i < count; i++) {
+		// Streams that can not be waited for are read directly
+		if (fds[i] >= 0) ready[i] = fds[i] >= FD_SETSIZE || FD_ISSET(fds[i], &readfds);
+	}
 
 }
 
@@ -320,6 +325,9 @@ public:
 
 		watchdog_active = true;
 		logger_active = true;
+		logger_abandon = false;
+
+		for (int i = 0; i < LOGGER_STREAMS; i++) logger_streams[i] = -1;
 
 		stop_watchdog();
 		reset_logger();
@@ -335,17 +343,20 @@ public:
 
 		print_debug("Cleaning up.");
 
+		// Both threads are needed until the process is gone
+		stop_process();
+
 		MUTEX_SYNCHRONIZE(watchdog_mutex) {
 			watchdog_active = false;
 		}
 
-		logger_active = false;
+		MUTEX_SYNCHRONIZE(logger_mutex) {
+			logger_active = false;
+		}
 
 		RELEASE_THREAD(watchdog_thread);
 		RELEASE_THREAD(logger_thread);
 
-		stop_process();
-
 		if (client) {
 			delete client;
 			client = NULL;
@@ -411,6 +422,12 @@ public:
 			throw std::runtime_error("Unable to start the tracker process");
 		} else {
 
+			forward_stream(LOGGER_STREAM_ERROR, process->get_error());
+
+			// The output stream is not used by the protocol in this case
+			if (connection == CONNECTION_SOCKETS)
+				forward_stream(LOGGER_STREAM_OUTPUT, process->get_output());
+
 			sleepf(0.1);
 			if (!process->is_alive()) {
 				print_debug("Unable to start process");
@@ -562,37 +579,71 @@ public:
 
 		Lock lock(logger_mutex);
 
-		RESET_LINE_BUFFER(stderr_buffer);
+		for (int i = 0; i < LOGGER_STREAMS; i++) RESET_LINE_BUFFER(logger_buffers[i]);
 		RESET_LINE_BUFFER(stdout_buffer);
 
 		line_truncate = 256;
 
 	}
 
-	void flush_streams() {
+	// Hands a duplicate of a stream to the logger thread, which is the only one that reads and closes it.
+	void forward_stream(int index, int fd) {
 
-		print_debug("Flushing streams");
+		if (fd < 0) return;
 
-#ifdef _MSC_VER
-flush_condition.wait(1000);
-			return;
+		fd = dup(fd);
+
+#ifdef FD_CLOEXEC
+		fcntl(fd, F_SETFD, FD_CLOEXEC);
 #endif
 
-		char buffer[LOGGER_BUFFER_SIZE];
+		Lock lock(logger_mutex);
+		logger_streams[index] = fd;
+
+	}
+
+	void close_stream(int index) {
+
+		if (logger_streams[index] < 0) return;
+
+		line_buffer_flush(logger_buffers[index], (verbosity != VERBOSITY_SILENT) ? logger_stream : NULL);
+
+		close(logger_streams[index]);
+		logger_streams[index] = -1;
+
+		flush_condition.notify();
+
+	}
+
+	bool streams_closed() {
 
-		for (int i = 0; i < 10; i++) {
+		Lock lock(logger_mutex);
 
-			int read = read_stream(process->get_error(), buffer, LOGGER_BUFFER_SIZE);
+		for (int i = 0; i < LOGGER_STREAMS; i++) {
+			if (logger_streams[i] >= 0) return false;
+		}
 
-			if (read <= 0) break;
+		logger_abandon = false;
 
-			client_logger(buffer, read, this);
+		return true;
+
+	}
+
+	void flush_streams() {
+
+		print_debug("Flushing streams");
 
-			sleepf(0.05);
+		// The streams end with the process
+		for (int i = 0; i < 100 && !streams_closed(); i++)
+			flush_condition.wait(10);
 
+		// Unless they are used by some other process
+		MUTEX_SYNCHRONIZE(logger_mutex) {
+			logger_abandon = true;
 		}
 
-		flush_condition.wait(1000);
+		while (!streams_closed())
+			flush_condition.wait(10);
 
 	}
 
@@ -690,54 +741,54 @@ flush_condition.wait(1000);
 		State* state  = (State*) param;
 
 		bool run = true;
-		int err = -1;
 
 		while (run) {
 
-			run = state->logger_active;
-
-			if (err == -1) {
-
-				if (state->process_running()) {
-
-					err = state->process->get_error();
+			int streams[LOGGER_STREAMS];
+			bool ready[LOGGER_STREAMS];
+			bool idle = true;
 
-				} else {
+			MUTEX_SYNCHRONIZE(state->logger_mutex) {
 
-					state->flush_condition.notify();
+				run = state->logger_active;
 
-				}
-				if (err == -1) {
-					sleep(0);
-					continue;
+				for (int i = 0; i < LOGGER_STREAMS; i++) {
+					if (state->logger_abandon) state->close_stream(i);
+					streams[i] = state->logger_streams[i];
+					if (streams[i] >= 0) idle = false;
 				}
 
 			}
 
-			char chr;
-			bool flush = false;
-			int read = read_stream(err, &chr, 1);
+			if (idle) {
+				sleepf(0.01);
+				continue;
+			}
 
-			if (read != 1) {
+			wait_streams(streams, ready, LOGGER_STREAMS, 0.1);
 
-				if (state->process_running()) err =  -1;
-				flush = true;
+			for (int i = 0; i < LOGGER_STREAMS; i++) {
 
-			} else {
+				char buffer[LOGGER_BUFFER_SIZE];
 
-				flush = line_buffer_push(state->stderr_buffer, chr, state->line_truncate);
+				if (!ready[i]) continue;
 
-			}
+				int length = read(streams[i], buffer, LOGGER_BUFFER_SIZE);
 
-			if (flush) {
+				if (length < 0 && errno == EINTR) continue;
 
 				MUTEX_SYNCHRONIZE(state->logger_mutex) {
 
-					line_buffer_flush(state->stderr_buffer, (state->verbosity != VERBOSITY_SILENT) ? state->logger_stream : NULL);
+					for (int j = 0; j < length; j++) {
 
-				}
+						if (line_buffer_push(state->logger_buffers[i], buffer[j], state->line_truncate))
+							line_buffer_flush(state->logger_buffers[i], (state->verbosity != VERBOSITY_SILENT) ? state->logger_stream : NULL);
 
-				if (err == -1) state->flush_condition.notify();
+					}
+
+					if (length <= 0) state->close_stream(i);
+
+				}
 
 			}
 
@@ -753,27 +804,18 @@ flush_condition.wait(1000);
 
 		State* state  = (State*) obj;
 
-		if (!string) {
-
-			MUTEX_SYNCHRONIZE(state->logger_mutex) {
+		Lock lock(state->logger_mutex);
 
-				line_buffer_flush(state->stdout_buffer, state->logger_stream);
+		if (!string) {
 
-			}
+			line_buffer_flush(state->stdout_buffer, state->logger_stream);
 
 		} else {
 
 			for (int i = 0; i < length; i++) {
 
-				if (line_buffer_push(state->stdout_buffer, string[i], state->line_truncate)) {
-
-					MUTEX_SYNCHRONIZE(state->logger_mutex) {
-
-						line_buffer_flush(state->stdout_buffer, state->logger_stream);
-
-					}
-
-				}
+				if (line_buffer_push(state->stdout_buffer, string[i], state->line_truncate))
+					line_buffer_flush(state->stdout_buffer, state->logger_stream);
 
 			}
 
@@ -808,8 +850,10 @@ flush_condition.wait(1000);
 	int watchdog_timeout;
 
 	bool logger_active;
+	bool logger_abandon;
+	int logger_streams[LOGGER_STREAMS];
+	line_buffer logger_buffers[LOGGER_STREAMS];
 	line_buffer stdout_buffer;
-	line_buffer stderr_buffer;
 	int line_truncate;
 
 	ostream* logger_stream;
-- 
2.43.0


From 152138fa832c7dedad29f1e8e155b8911b1c572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 066/118] fix: a restarted session uses the connection of the
 previous process

---
 support/client/client.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index b74edea..c3b3afb 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -215,6 +215,32 @@ void destroy_server_socket(int server) {
 
 }
 
+// Closes connections that were not accepted, they belong to processes that do not exist any more
+void discard_connections(int server) {
+
+	while (true) {
+
+		fd_set readfds;
+		struct timeval tv;
+
+		tv.tv_sec = 0;
+		tv.tv_usec = 0;
+
+		FD_ZERO(&readfds);
+		FD_SET(server, &readfds);
+
+		if (select(server + 1, &readfds, NULL, NULL, &tv) < 1) return;
+
+		int sid = (int) accept(server, NULL, NULL);
+
+		if (sid < 0) return;
+
+		closesocket(sid);
+
+	}
+
+}
+
 typedef struct line_buffer {
 
 	char buffer[LOGGER_BUFFER_SIZE];
@@ -412,6 +438,9 @@ public:
 
 		reset_logger();
 
+		if (connection == CONNECTION_SOCKETS)
+			discard_connections(socket_id);
+
 		bool started = false;
 		print_debug("Starting process");
 		started = process->start();
-- 
2.43.0


From 9941e6cf1fc7c621143996f5b5b707ddbf6ca600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 067/118] fix: the timer is initialised by several threads at
 once

---
 support/client/timer.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/support/client/timer.cpp b/support/client/timer.cpp
index 87704e4..899fb7e 100644
--- a/support/client/timer.cpp
+++ b/support/client/timer.cpp
@@ -28,29 +28,33 @@
 namespace trax {
 
 
-static double freq = 0;
-
-void timer_init() {
-    if (freq != 0) {
-        // Already initialized
-        return;
-    }
+static double timer_frequency() {
 
 #if defined(WINDOWS)
     LARGE_INTEGER tmp;
     QueryPerformanceFrequency (&tmp);
-    freq = tmp.QuadPart;
+    return (double) tmp.QuadPart;
 #elif defined(OSX)
     // Convert Mach Absolute Time Units to seconds, use double to avoid overflow.
     // See more on https://developer.apple.com/library/content/qa/qa1398/_index.html
     mach_timebase_info_data_t timebase_info;
     mach_timebase_info(&timebase_info);
-    freq = TIMER_NSEC_PER_SEC * timebase_info.denom / (double) timebase_info.numer;
+    return TIMER_NSEC_PER_SEC * timebase_info.denom / (double) timebase_info.numer;
 #else
-    freq = TIMER_USEC_PER_SEC;
+    return TIMER_USEC_PER_SEC;
 #endif
 }
 
+static double frequency() {
+    // Initialization of a local static variable is thread-safe
+    static const double value = timer_frequency();
+    return value;
+}
+
+void timer_init() {
+    frequency();
+}
+
 
 timer_state timer_clock() {
 #if defined(WINDOWS)
@@ -71,7 +75,7 @@ double timer_elapsed(timer_state start) {
     stop = timer_clock();
     delta = stop - start;
 
-    return (double) delta / freq;
+    return (double) delta / frequency();
 }
 
 }
-- 
2.43.0


From 68f42c9602a38b82b967fdd4b3505eaa6dfbba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 068/118] fix: the command-line client confuses channels and
 image formats

---
 support/client/cli.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index d47e39c..cc9afe4 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -640,7 +640,7 @@ int main( int argc, char** argv) {
                 Metadata metadata = tracker.metadata();
 
                 Region initialize = initialization[frame];
-                ImageList image = load_images(images[frame], metadata.image_formats(), metadata.channels());
+                ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                 // Start timing a frame
                 double timing_elapsed;
@@ -710,7 +710,7 @@ int main( int argc, char** argv) {
                     if (frame >= images.size()) break;
 
                     print_debug("Loading frame images.\n");
-                    ImageList image = load_images(images[frame], metadata.image_formats(), metadata.channels());
+                    ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                     // Start timing a frame
                     timing_start = timer_clock();
-- 
2.43.0


From 3c787042e834ac445ffe3bdefe76b377d4b33946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 069/118] fix: the last image of a list without a line end is
 ignored

---
 support/client/cli.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index cc9afe4..33fabcd 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -311,8 +311,8 @@ void read_images(const string& file, vector<vector<string> >& list) {
     while (true) {
         string line;
         vector<string> images;
-        getline(input, line);
-        if (!input.good()) break;
+        // Also handle the case when the last line has no line ending
+        if (!getline(input, line)) break;
 
         size_t pos = 0;
         std::string token;
-- 
2.43.0


From 5f791c5803bba0da7aebacc2a64db74f8156dc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 070/118] fix: a missing or short file with regions is ignored
 or read behind its end

---
 support/client/cli.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 33fabcd..7d0d046 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -590,7 +590,8 @@ int main( int argc, char** argv) {
             vector<double> timings;
 
             read_images(images_file, images);
-            load_trajectory(groundtruth_file, groundtruth);
+            if (!load_trajectory(groundtruth_file, groundtruth))
+                throw std::runtime_error("Groundtruth file not available.");
 
             print_debug("Images loaded from file %s.\n", images_file.c_str());
             print_debug("Groundtruth loaded from file %s.\n", groundtruth_file.c_str());
@@ -606,7 +607,10 @@ int main( int argc, char** argv) {
             }
 
             if (!initialization_file.empty()) {
-                load_trajectory(initialization_file, initialization);
+                if (!load_trajectory(initialization_file, initialization))
+                    throw std::runtime_error("Initialization file not available.");
+                // No initialization data for the frames that are not listed
+                initialization.resize(images.size());
                 print_debug("Initialization loaded from file %s.\n", initialization_file.c_str());
             } else {
                 initialization = vector<Region>(groundtruth.begin(), groundtruth.end());
-- 
2.43.0


From 35d57fede4fce1c134406b35bc343143d6f1f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 071/118] fix: timings of skipped frames are missing

---
 support/client/cli.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 7d0d046..7b8f348 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -631,6 +631,7 @@ int main( int argc, char** argv) {
                     if (!initialization[frame].empty()) break;
                     print_debug("Skipping frame %d, no initialization data. \n", (int) frame);
                     output.push_back(Region::create_special(0));
+                    timings.push_back(0);
                 }
 
                 if (frame == images.size()) break;
-- 
2.43.0


From bf418e009539e7ca58c97d7a3eb455212110aeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 072/118] fix: output files that could not be written are not
 reported

---
 support/client/cli.cpp    | 3 +++
 support/client/client.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 7b8f348..f36afd4 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -347,6 +347,9 @@ void save_timings(const string& file, vector<double>& timings) {
 
     output.close();
 
+    if (output.fail())
+        throw std::runtime_error("Unable to write file " + file);
+
 }
 
 Image load_image(string& path, int formats) {
diff --git a/support/client/client.cpp b/support/client/client.cpp
index c3b3afb..6527439 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -1165,6 +1165,9 @@ void save_trajectory(const std::string& file, std::vector<Region>& trajectory) {
 
 	output.close();
 
+	if (output.fail())
+		throw std::runtime_error("Unable to write file " + file);
+
 }
 
 
-- 
2.43.0


From 77f9fd189f6df6ae857f0552f4cce845cb275c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 073/118] fix: an image that can not be read crashes the
 command-line client

---
 support/client/cli.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index f36afd4..b4b3e34 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -378,12 +378,16 @@ Image load_image(string& path, int formats) {
     }
     case TRAX_IMAGE_BUFFER: {
         // Read the file to memory
-        std::ifstream t(path.c_str());
+        std::ifstream t(path.c_str(), std::ios::in | std::ios::binary);
         t.seekg(0, std::ios::end);
+        if (!t.good())
+            throw std::runtime_error("Unable to read image " + path);
         size_t size = t.tellg();
         std::string buffer(size, ' ');
         t.seekg(0);
         t.read(&buffer[0], size);
+        if (!t.good())
+            throw std::runtime_error("Unable to read image " + path);
         return Image::create_buffer(buffer.size(), buffer.c_str());
         break;
     }
-- 
2.43.0


From 5da8bdeecb36f8a6548e04b5e91fd0674877138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 074/118] fix: the size of an image that bounds the overlap is
 wrong or not initialised

---
 support/client/cli.cpp | 126 ++++++++++++++++++-----------------------
 1 file changed, 55 insertions(+), 71 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index b4b3e34..aaefe25 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -188,76 +188,29 @@ typedef struct image_size {
 } image_size;
 
 // Based on the example from: http://www.wischik.com/lu/programmer/get-image-size.html
-// Retrieve image size from image header
-image_size image_get_size(Image image) {
+// Retrieve image size from image header, the size is negative if it is not known
+image_size image_get_size(const unsigned char* buf, size_t len) {
 
-    int len;
     image_size result;
-    unsigned char buf[24];
-
-    if (image.type() == TRAX_IMAGE_MEMORY) {
-
-        image.get_memory_header(&result.width, &result.height, NULL);
-        return result;
-
-    }
-
-    if (image.type() == TRAX_IMAGE_PATH) {
-        const string filename = image.get_path();
-        int r;
-
-        result.width = -1;
-        result.height = -1;
-
-        FILE *f=fopen(filename.c_str(),"rb");
-        if ( f==0 ) return result;
-
-        fseek(f,0,SEEK_END);
-        int len=ftell(f);
-        fseek(f,0,SEEK_SET);
+    result.width = -1;
+    result.height = -1;
 
-        if (len<24) {fclose(f); return result;}
+    // In all formats, the file is at least 24 bytes big
+    if (len < 24) return result;
 
-        // Strategy:
-        // reading GIF dimensions requires the first 10 bytes of the file
-        // reading PNG dimensions requires the first 24 bytes of the file
-        // reading JPEG dimensions requires scanning through jpeg chunks
-        // In all formats, the file is at least 24 bytes big, so we'll read that always    
-        r = fread(buf,1,24,f);
-        if (r == -1) {
-            return result;
-        }
-
-        // For JPEGs, we need to read the first 12 bytes of each chunk.
-        // We'll read those 12 bytes at buf+2...buf+14, i.e. overwriting the existing buf.
-        if (buf[0]==0xFF && buf[1]==0xD8 && buf[2]==0xFF && buf[3]==0xE0 && buf[6]=='J' && buf[7]=='F' && buf[8]=='I' && buf[9]=='F') {
-            long pos=2;
-            while (buf[2]==0xFF) {
-                if (buf[3]==0xC0 || buf[3]==0xC1 || buf[3]==0xC2 || buf[3]==0xC3 || buf[3]==0xC9 || buf[3]==0xCA || buf[3]==0xCB) break;
-                pos += 2+(buf[4]<<8)+buf[5];
-                if (pos+12>len) break;
-                fseek(f,pos,SEEK_SET);
-                r = fread(buf+2,1,12,f);
-                if (r == -1) { return result; }
+    // JPEG: scan through the chunks until the frame header
+    if (buf[0]==0xFF && buf[1]==0xD8 && buf[2]==0xFF) {
+        size_t pos = 2;
+        while (pos + 9 <= len && buf[pos] == 0xFF) {
+            unsigned char marker = buf[pos+1];
+            if (marker == 0xFF) { pos++; continue; } // Fill byte
+            if (marker >= 0xC0 && marker <= 0xCF && marker != 0xC4 && marker != 0xC8 && marker != 0xCC) {
+                result.height = (buf[pos+5]<<8) + buf[pos+6];
+                result.width = (buf[pos+7]<<8) + buf[pos+8];
+                break;
             }
+            pos += 2 + (buf[pos+2]<<8) + buf[pos+3];
         }
-
-        fclose(f);
-        
-    } else if (image.type() == TRAX_IMAGE_BUFFER) {
-
-        const char* src = image.get_buffer(&len, NULL);
-
-        if (len<24) { return result; }
-
-        memcpy(buf, src, 24);
-
-    }
-
-    // JPEG: (first two bytes of buf are first two bytes of the jpeg file; rest of buf is the DCT frame
-    if (buf[0]==0xFF && buf[1]==0xD8 && buf[2]==0xFF) {
-        result.height = (buf[7]<<8) + buf[8];
-        result.width = (buf[9]<<8) + buf[10];
     }
 
     // GIF: first three bytes say "GIF", next three give version number. Then dimensions
@@ -269,11 +222,41 @@ image_size image_get_size(Image image) {
     // PNG: the first frame is by definition an IHDR frame, which gives dimensions
     if ( buf[0]==0x89 && buf[1]=='P' && buf[2]=='N' && buf[3]=='G' && buf[4]==0x0D && buf[5]==0x0A && buf[6]==0x1A && buf[7]==0x0A
         && buf[12]=='I' && buf[13]=='H' && buf[14]=='D' && buf[15]=='R') {
-        result.width = (buf[16]<<24) + (buf[17]<<16) + (buf[18]<<8) + (buf[19]<<0);
-        result.height = (buf[20]<<24) + (buf[21]<<16) + (buf[22]<<8) + (buf[23]<<0);
+        result.width = (int) (((unsigned int) buf[16]<<24) + (buf[17]<<16) + (buf[18]<<8) + (buf[19]<<0));
+        result.height = (int) (((unsigned int) buf[20]<<24) + (buf[21]<<16) + (buf[22]<<8) + (buf[23]<<0));
+    }
+
+    return result;
+}
+
+image_size image_get_size(Image image) {
+
+    image_size result;
+    result.width = -1;
+    result.height = -1;
+
+    if (image.type() == TRAX_IMAGE_MEMORY) {
+
+        int format;
+        image.get_memory_header(&result.width, &result.height, &format);
+
+    } else if (image.type() == TRAX_IMAGE_PATH) {
+
+        ifstream input(image.get_path().c_str(), std::ios::in | std::ios::binary);
+        stringstream data;
+        data << input.rdbuf();
+        const string content = data.str();
+        result = image_get_size((const unsigned char*) content.data(), content.size());
+
+    } else if (image.type() == TRAX_IMAGE_BUFFER) {
+
+        int len, format;
+        const char* src = image.get_buffer(&len, &format);
+        result = image_get_size((const unsigned char*) src, len);
+
     }
 
-  return result;
+    return result;
 }
 
 image_size image_get_size(ImageList image) {
@@ -290,8 +273,7 @@ image_size image_get_size(ImageList image) {
         return image_get_size(image.get(TRAX_CHANNEL_IR));
     }
 
-    image_size size;
-    return size;
+    return image_get_size(Image());
 }
 
 
@@ -684,7 +666,9 @@ int main( int argc, char** argv) {
                         if (overlap_bounded) {
                             image_size is = image_get_size(image);
                             print_debug("Bounds for overlap calculation %dx%d\n", is.width, is.height);
-                            bounds = Bounds(0, 0, is.width, is.height);
+                            // Without a known size the overlap can not be bounded
+                            if (is.width > 0 && is.height > 0)
+                                bounds = Bounds(0, 0, is.width, is.height);
                         }
 
                         float overlap = reference.overlap(status, bounds);
@@ -722,7 +706,7 @@ int main( int argc, char** argv) {
                     if (frame >= images.size()) break;
 
                     print_debug("Loading frame images.\n");
-                    ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
+                    image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                     // Start timing a frame
                     timing_start = timer_clock();
-- 
2.43.0


From 0ca4810721db3b3ab1a5c6ca09737e94b45d8991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 075/118] fix: the number of initializations crashes traxtest

---
 support/client/tester.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/client/tester.cpp b/support/client/tester.cpp
index f44f20c..5609fe2 100644
--- a/support/client/tester.cpp
+++ b/support/client/tester.cpp
@@ -129,7 +129,7 @@ void configure_signals() {
 }
 
 #ifndef MAX
-#define MAX(a,b) ((a) > (b)) ? (a) : (b)
+#define MAX(a,b) (((a) > (b)) ? (a) : (b))
 #endif
 
 string get_temp_name(const string& file) {
@@ -168,7 +168,7 @@ void print_debug(const char *format, ...) {
 }
 
 
-#define CMD_OPTIONS "hdt:p:e:xXI"
+#define CMD_OPTIONS "hdt:p:e:xXI:"
 
 int main(int argc, char** argv) {
 
-- 
2.43.0


From fce4c21e311ea1bc51fc891bd873f3667edea28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 076/118] fix: traxtest sends an image that is only partly
 initialised

---
 support/client/tester.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/client/tester.cpp b/support/client/tester.cpp
index 5609fe2..7478282 100644
--- a/support/client/tester.cpp
+++ b/support/client/tester.cpp
@@ -263,7 +263,7 @@ int main(int argc, char** argv) {
             tester_copy_resource("static.bin", &buffer, &length);
             Image tmp = Image::create_memory(320, 240, TRAX_IMAGE_MEMORY_RGB);
             char* dst = tmp.write_memory_row(0);
-            memcpy(dst, buffer, 320 * 240);
+            memcpy(dst, buffer, 320 * 240 * 3);
             free(buffer);
             image.set(tmp, TRAX_CHANNEL_COLOR);
         } else if TRAX_SUPPORTS(image_formats, TRAX_IMAGE_PATH) {
-- 
2.43.0


From b3fba7a9a82ed9ca2f13fd0bf9fd230d0e191625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 077/118] fix: traxtest does not wait for the reply to the last
 frame

---
 support/client/tester.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/support/client/tester.cpp b/support/client/tester.cpp
index 7478282..9c6de45 100644
--- a/support/client/tester.cpp
+++ b/support/client/tester.cpp
@@ -311,7 +311,7 @@ int main(int argc, char** argv) {
 
             frame = 0;
 
-            while (frame < 20) {
+            while (true) {
                 // Repeat while tracking the target.
                 bool result = false;
                 Properties additional;
@@ -339,6 +339,9 @@ int main(int argc, char** argv) {
                     }
                 }
 
+                // All frames were processed
+                if (frame >= 20) break;
+
                 Properties no_properties;
 
                 if (multiobject && frame % 5 == 3) {
-- 
2.43.0


From 029c0c349421883c395aac18a830a95aefa172ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 078/118] fix: the resources of traxtest are read with
 misaligned accesses

---
 support/client/tester_resources.c | 1096 ++++++++++++++---------------
 1 file changed, 548 insertions(+), 548 deletions(-)

diff --git a/support/client/tester_resources.c b/support/client/tester_resources.c
index 4c9a91f..907fcb4 100644
--- a/support/client/tester_resources.c
+++ b/support/client/tester_resources.c
@@ -1,551 +1,551 @@
-
-#ifndef tester_header_only
-#include <stdlib.h>
-
-#if defined(_M_IX86) || defined(_M_X64) || defined(__i386__) || defined(__i386) || defined(__i486__) || defined(__i486) || defined(i386) || defined(__ia64__) || defined(__x86_64__)
-#define MINIZ_X86_OR_X64_CPU 1
-#endif
-
-#if (__BYTE_ORDER__==__ORDER_LITTLE_ENDIAN__) || MINIZ_X86_OR_X64_CPU
-#define MINIZ_LITTLE_ENDIAN 1
-#endif
-
-#if MINIZ_X86_OR_X64_CPU
-#define MINIZ_USE_UNALIGNED_LOADS_AND_STORES 1
-#endif
-
-#if defined(_M_X64) || defined(_WIN64) || defined(__MINGW64__) || defined(_LP64) || defined(__LP64__) || defined(__ia64__) || defined(__x86_64__)
-#define MINIZ_HAS_64BIT_REGISTERS 1
-#endif
-
-#ifdef __cplusplus
-extern "C" {
-#endif
-
-// Beware: mz_ulong can be either 32 or 64-bits!
-typedef unsigned long mz_ulong;
-
-#define MZ_ADLER32_INIT (1)
-// mz_adler32() returns the initial adler-32 value to use when called with ptr==NULL.
-mz_ulong mz_adler32(mz_ulong adler, const unsigned char *ptr, size_t buf_len);
-
-#define MZ_CRC32_INIT (0)
-// mz_crc32() returns the initial CRC-32 value to use when called with ptr==NULL.
-mz_ulong mz_crc32(mz_ulong crc, const unsigned char *ptr, size_t buf_len);
-
-// Compression strategies.
-enum { MZ_DEFAULT_STRATEGY = 0, MZ_FILTERED = 1, MZ_HUFFMAN_ONLY = 2, MZ_RLE = 3, MZ_FIXED = 4 };
-
-// Method
-#define MZ_DEFLATED 8
-
-typedef unsigned char mz_uint8;
-typedef signed short mz_int16;
-typedef unsigned short mz_uint16;
-typedef unsigned int mz_uint32;
-typedef unsigned int mz_uint;
-typedef long long mz_int64;
-typedef unsigned long long mz_uint64;
-typedef int mz_bool;
-
-#define MZ_FALSE (0)
-#define MZ_TRUE (1)
-
-// An attempt to work around MSVC's spammy "warning C4127: conditional expression is constant" message.
-#ifdef _MSC_VER
-   #define MZ_MACRO_END while (0, 0)
-#else
-   #define MZ_MACRO_END while (0)
-#endif
-
-// Decompression flags used by tinfl_decompress().
-// TINFL_FLAG_PARSE_ZLIB_HEADER: If set, the input has a valid zlib header and ends with an adler32 checksum (it's a valid zlib stream). Otherwise, the input is a raw deflate stream.
-// TINFL_FLAG_HAS_MORE_INPUT: If set, there are more input bytes available beyond the end of the supplied input buffer. If clear, the input buffer contains all remaining input.
-// TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF: If set, the output buffer is large enough to hold the entire decompressed stream. If clear, the output buffer is at least the size of the dictionary (typically 32KB).
-// TINFL_FLAG_COMPUTE_ADLER32: Force adler-32 checksum computation of the decompressed bytes.
-enum
-{
-  TINFL_FLAG_PARSE_ZLIB_HEADER = 1,
-  TINFL_FLAG_HAS_MORE_INPUT = 2,
-  TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF = 4,
-  TINFL_FLAG_COMPUTE_ADLER32 = 8
-};
-
-// tinfl_decompress_mem_to_mem() decompresses a block in memory to another block in memory.
-// Returns TINFL_DECOMPRESS_MEM_TO_MEM_FAILED on failure, or the number of bytes written on success.
-#define TINFL_DECOMPRESS_MEM_TO_MEM_FAILED ((size_t)(-1))
-size_t tinfl_decompress_mem_to_mem(void *pOut_buf, size_t out_buf_len, const void *pSrc_buf, size_t src_buf_len, int flags);
-
-struct tinfl_decompressor_tag; typedef struct tinfl_decompressor_tag tinfl_decompressor;
-
-// Max size of LZ dictionary.
-#define TINFL_LZ_DICT_SIZE 32768
-
-// Return status.
-typedef enum
-{
-  TINFL_STATUS_BAD_PARAM = -3,
-  TINFL_STATUS_ADLER32_MISMATCH = -2,
-  TINFL_STATUS_FAILED = -1,
-  TINFL_STATUS_DONE = 0,
-  TINFL_STATUS_NEEDS_MORE_INPUT = 1,
-  TINFL_STATUS_HAS_MORE_OUTPUT = 2
-} tinfl_status;
-
-// Initializes the decompressor to its initial state.
-#define tinfl_init(r) do { (r)->m_state = 0; } MZ_MACRO_END
-#define tinfl_get_adler32(r) (r)->m_check_adler32
-
-// Main low-level decompressor coroutine function. This is the only function actually needed for decompression. All the other functions are just high-level helpers for improved usability.
-// This is a universal API, i.e. it can be used as a building block to build any desired higher level decompression API. In the limit case, it can be called once per every byte input or output.
-tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_next, size_t *pIn_buf_size, mz_uint8 *pOut_buf_start, mz_uint8 *pOut_buf_next, size_t *pOut_buf_size, const mz_uint32 decomp_flags);
-
-// Internal/private bits follow.
-enum
-{
-  TINFL_MAX_HUFF_TABLES = 3, TINFL_MAX_HUFF_SYMBOLS_0 = 288, TINFL_MAX_HUFF_SYMBOLS_1 = 32, TINFL_MAX_HUFF_SYMBOLS_2 = 19,
-  TINFL_FAST_LOOKUP_BITS = 10, TINFL_FAST_LOOKUP_SIZE = 1 << TINFL_FAST_LOOKUP_BITS
-};
-
-typedef struct
-{
-  mz_uint8 m_code_size[TINFL_MAX_HUFF_SYMBOLS_0];
-  mz_int16 m_look_up[TINFL_FAST_LOOKUP_SIZE], m_tree[TINFL_MAX_HUFF_SYMBOLS_0 * 2];
-} tinfl_huff_table;
-
-#if MINIZ_HAS_64BIT_REGISTERS
-  #define TINFL_USE_64BIT_BITBUF 1
-#endif
-
-#if TINFL_USE_64BIT_BITBUF
-  typedef mz_uint64 tinfl_bit_buf_t;
-  #define TINFL_BITBUF_SIZE (64)
-#else
-  typedef mz_uint32 tinfl_bit_buf_t;
-  #define TINFL_BITBUF_SIZE (32)
-#endif
-
-struct tinfl_decompressor_tag
-{
-  mz_uint32 m_state, m_num_bits, m_zhdr0, m_zhdr1, m_z_adler32, m_final, m_type, m_check_adler32, m_dist, m_counter, m_num_extra, m_table_sizes[TINFL_MAX_HUFF_TABLES];
-  tinfl_bit_buf_t m_bit_buf;
-  size_t m_dist_from_out_buf_start;
-  tinfl_huff_table m_tables[TINFL_MAX_HUFF_TABLES];
-  mz_uint8 m_raw_header[4], m_len_codes[TINFL_MAX_HUFF_SYMBOLS_0 + TINFL_MAX_HUFF_SYMBOLS_1 + 137];
-};
-
-typedef unsigned char mz_validate_uint16[sizeof(mz_uint16)==2 ? 1 : -1];
-typedef unsigned char mz_validate_uint32[sizeof(mz_uint32)==4 ? 1 : -1];
-typedef unsigned char mz_validate_uint64[sizeof(mz_uint64)==8 ? 1 : -1];
-
-#include <string.h>
-#include <assert.h>
-
-#define MZ_ASSERT(x) assert(x)
-
-#define MZ_MALLOC(x) malloc(x)
-#define MZ_FREE(x) free(x)
-#define MZ_REALLOC(p, x) realloc(p, x)
-
-#define MZ_MAX(a,b) (((a)>(b))?(a):(b))
-#define MZ_MIN(a,b) (((a)<(b))?(a):(b))
-#define MZ_CLEAR_OBJ(obj) memset(&(obj), 0, sizeof(obj))
-
-#if MINIZ_USE_UNALIGNED_LOADS_AND_STORES && MINIZ_LITTLE_ENDIAN
-  #define MZ_READ_LE16(p) *((const mz_uint16 *)(p))
-  #define MZ_READ_LE32(p) *((const mz_uint32 *)(p))
-#else
-  #define MZ_READ_LE16(p) ((mz_uint32)(((const mz_uint8 *)(p))[0]) | ((mz_uint32)(((const mz_uint8 *)(p))[1]) << 8U))
-  #define MZ_READ_LE32(p) ((mz_uint32)(((const mz_uint8 *)(p))[0]) | ((mz_uint32)(((const mz_uint8 *)(p))[1]) << 8U) | ((mz_uint32)(((const mz_uint8 *)(p))[2]) << 16U) | ((mz_uint32)(((const mz_uint8 *)(p))[3]) << 24U))
-#endif
-
-#ifdef _MSC_VER
-  #define MZ_FORCEINLINE __forceinline
-#elif defined(__GNUC__)
-  #define MZ_FORCEINLINE inline __attribute__((__always_inline__))
-#else
-  #define MZ_FORCEINLINE inline
-#endif
-
-mz_ulong mz_adler32(mz_ulong adler, const unsigned char *ptr, size_t buf_len)
-{
-  mz_uint32 i, s1 = (mz_uint32)(adler & 0xffff), s2 = (mz_uint32)(adler >> 16); size_t block_len = buf_len % 5552;
-  if (!ptr) return MZ_ADLER32_INIT;
-  while (buf_len) {
-    for (i = 0; i + 7 < block_len; i += 8, ptr += 8) {
-      s1 += ptr[0], s2 += s1; s1 += ptr[1], s2 += s1; s1 += ptr[2], s2 += s1; s1 += ptr[3], s2 += s1;
-      s1 += ptr[4], s2 += s1; s1 += ptr[5], s2 += s1; s1 += ptr[6], s2 += s1; s1 += ptr[7], s2 += s1;
-    }
-    for ( ; i < block_len; ++i) s1 += *ptr++, s2 += s1;
-    s1 %= 65521U, s2 %= 65521U; buf_len -= block_len; block_len = 5552;
-  }
-  return (s2 << 16) + s1;
-}
-
-// Karl Malbrain's compact CRC-32. See "A compact CCITT crc16 and crc32 C implementation that balances processor cache usage against speed": http://www.geocities.com/malbrain/
-mz_ulong mz_crc32(mz_ulong crc, const mz_uint8 *ptr, size_t buf_len)
-{
-  static const mz_uint32 s_crc32[16] = { 0, 0x1db71064, 0x3b6e20c8, 0x26d930ac, 0x76dc4190, 0x6b6b51f4, 0x4db26158, 0x5005713c,
-    0xedb88320, 0xf00f9344, 0xd6d6a3e8, 0xcb61b38c, 0x9b64c2b0, 0x86d3d2d4, 0xa00ae278, 0xbdbdf21c };
-  mz_uint32 crcu32 = (mz_uint32)crc;
-  if (!ptr) return MZ_CRC32_INIT;
-  crcu32 = ~crcu32; while (buf_len--) { mz_uint8 b = *ptr++; crcu32 = (crcu32 >> 4) ^ s_crc32[(crcu32 & 0xF) ^ (b & 0xF)]; crcu32 = (crcu32 >> 4) ^ s_crc32[(crcu32 & 0xF) ^ (b >> 4)]; }
-  return ~crcu32;
-}
-
-#define TINFL_MEMCPY(d, s, l) memcpy(d, s, l)
-#define TINFL_MEMSET(p, c, l) memset(p, c, l)
-
-#define TINFL_CR_BEGIN switch(r->m_state) { case 0:
-#define TINFL_CR_RETURN(state_index, result) do { status = result; r->m_state = state_index; goto common_exit; case state_index:; } MZ_MACRO_END
-#define TINFL_CR_RETURN_FOREVER(state_index, result) do { for ( ; ; ) { TINFL_CR_RETURN(state_index, result); } } MZ_MACRO_END
-#define TINFL_CR_FINISH }
-
-// TODO: If the caller has indicated that there's no more input, and we attempt to read beyond the input buf, then something is wrong with the input because the inflator never
-// reads ahead more than it needs to. Currently TINFL_GET_BYTE() pads the end of the stream with 0's in this scenario.
-#define TINFL_GET_BYTE(state_index, c) do { \
-  if (pIn_buf_cur >= pIn_buf_end) { \
-    for ( ; ; ) { \
-      if (decomp_flags & TINFL_FLAG_HAS_MORE_INPUT) { \
-        TINFL_CR_RETURN(state_index, TINFL_STATUS_NEEDS_MORE_INPUT); \
-        if (pIn_buf_cur < pIn_buf_end) { \
-          c = *pIn_buf_cur++; \
-          break; \
-        } \
-      } else { \
-        c = 0; \
-        break; \
-      } \
-    } \
-  } else c = *pIn_buf_cur++; } MZ_MACRO_END
-
-#define TINFL_NEED_BITS(state_index, n) do { mz_uint c; TINFL_GET_BYTE(state_index, c); bit_buf |= (((tinfl_bit_buf_t)c) << num_bits); num_bits += 8; } while (num_bits < (mz_uint)(n))
-#define TINFL_SKIP_BITS(state_index, n) do { if (num_bits < (mz_uint)(n)) { TINFL_NEED_BITS(state_index, n); } bit_buf >>= (n); num_bits -= (n); } MZ_MACRO_END
-#define TINFL_GET_BITS(state_index, b, n) do { if (num_bits < (mz_uint)(n)) { TINFL_NEED_BITS(state_index, n); } b = bit_buf & ((1 << (n)) - 1); bit_buf >>= (n); num_bits -= (n); } MZ_MACRO_END
-
-// TINFL_HUFF_BITBUF_FILL() is only used rarely, when the number of bytes remaining in the input buffer falls below 2.
-// It reads just enough bytes from the input stream that are needed to decode the next Huffman code (and absolutely no more). It works by trying to fully decode a
-// Huffman code by using whatever bits are currently present in the bit buffer. If this fails, it reads another byte, and tries again until it succeeds or until the
-// bit buffer contains >=15 bits (deflate's max. Huffman code size).
-#define TINFL_HUFF_BITBUF_FILL(state_index, pHuff) \
-  do { \
-    temp = (pHuff)->m_look_up[bit_buf & (TINFL_FAST_LOOKUP_SIZE - 1)]; \
-    if (temp >= 0) { \
-      code_len = temp >> 9; \
-      if ((code_len) && (num_bits >= code_len)) \
-      break; \
-    } else if (num_bits > TINFL_FAST_LOOKUP_BITS) { \
-       code_len = TINFL_FAST_LOOKUP_BITS; \
-       do { \
-          temp = (pHuff)->m_tree[~temp + ((bit_buf >> code_len++) & 1)]; \
-       } while ((temp < 0) && (num_bits >= (code_len + 1))); if (temp >= 0) break; \
-    } TINFL_GET_BYTE(state_index, c); bit_buf |= (((tinfl_bit_buf_t)c) << num_bits); num_bits += 8; \
-  } while (num_bits < 15);
-
-// TINFL_HUFF_DECODE() decodes the next Huffman coded symbol. It's more complex than you would initially expect because the zlib API expects the decompressor to never read
-// beyond the final byte of the deflate stream. (In other words, when this macro wants to read another byte from the input, it REALLY needs another byte in order to fully
-// decode the next Huffman code.) Handling this properly is particularly important on raw deflate (non-zlib) streams, which aren't followed by a byte aligned adler-32.
-// The slow path is only executed at the very end of the input buffer.
-#define TINFL_HUFF_DECODE(state_index, sym, pHuff) do { \
-  int temp; mz_uint code_len, c; \
-  if (num_bits < 15) { \
-    if ((pIn_buf_end - pIn_buf_cur) < 2) { \
-       TINFL_HUFF_BITBUF_FILL(state_index, pHuff); \
-    } else { \
-       bit_buf |= (((tinfl_bit_buf_t)pIn_buf_cur[0]) << num_bits) | (((tinfl_bit_buf_t)pIn_buf_cur[1]) << (num_bits + 8)); pIn_buf_cur += 2; num_bits += 16; \
-    } \
-  } \
-  if ((temp = (pHuff)->m_look_up[bit_buf & (TINFL_FAST_LOOKUP_SIZE - 1)]) >= 0) \
-    code_len = temp >> 9, temp &= 511; \
-  else { \
-    code_len = TINFL_FAST_LOOKUP_BITS; do { temp = (pHuff)->m_tree[~temp + ((bit_buf >> code_len++) & 1)]; } while (temp < 0); \
-  } sym = temp; bit_buf >>= code_len; num_bits -= code_len; } MZ_MACRO_END
-
-tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_next, size_t *pIn_buf_size, mz_uint8 *pOut_buf_start, mz_uint8 *pOut_buf_next, size_t *pOut_buf_size, const mz_uint32 decomp_flags)
-{
-  static const int s_length_base[31] = { 3,4,5,6,7,8,9,10,11,13, 15,17,19,23,27,31,35,43,51,59, 67,83,99,115,131,163,195,227,258,0,0 };
-  static const int s_length_extra[31]= { 0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0,0,0 };
-  static const int s_dist_base[32] = { 1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193, 257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577,0,0};
-  static const int s_dist_extra[32] = { 0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13};
-  static const mz_uint8 s_length_dezigzag[19] = { 16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15 };
-  static const int s_min_table_sizes[3] = { 257, 1, 4 };
-
-  tinfl_status status = TINFL_STATUS_FAILED; mz_uint32 num_bits, dist, counter, num_extra; tinfl_bit_buf_t bit_buf;
-  const mz_uint8 *pIn_buf_cur = pIn_buf_next, *const pIn_buf_end = pIn_buf_next + *pIn_buf_size;
-  mz_uint8 *pOut_buf_cur = pOut_buf_next, *const pOut_buf_end = pOut_buf_next + *pOut_buf_size;
-  size_t out_buf_size_mask = (decomp_flags & TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF) ? (size_t)-1 : ((pOut_buf_next - pOut_buf_start) + *pOut_buf_size) - 1, dist_from_out_buf_start;
-
-  // Ensure the output buffer's size is a power of 2, unless the output buffer is large enough to hold the entire output file (in which case it doesn't matter).
-  if (((out_buf_size_mask + 1) & out_buf_size_mask) || (pOut_buf_next < pOut_buf_start)) { *pIn_buf_size = *pOut_buf_size = 0; return TINFL_STATUS_BAD_PARAM; }
-
-  num_bits = r->m_num_bits; bit_buf = r->m_bit_buf; dist = r->m_dist; counter = r->m_counter; num_extra = r->m_num_extra; dist_from_out_buf_start = r->m_dist_from_out_buf_start;
-  TINFL_CR_BEGIN
-
-  bit_buf = num_bits = dist = counter = num_extra = r->m_zhdr0 = r->m_zhdr1 = 0; r->m_z_adler32 = r->m_check_adler32 = 1;
-  if (decomp_flags & TINFL_FLAG_PARSE_ZLIB_HEADER)
-  {
-    TINFL_GET_BYTE(1, r->m_zhdr0); TINFL_GET_BYTE(2, r->m_zhdr1);
-    counter = (((r->m_zhdr0 * 256 + r->m_zhdr1) % 31 != 0) || (r->m_zhdr1 & 32) || ((r->m_zhdr0 & 15) != 8));
-    if (!(decomp_flags & TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF)) counter |= (((1U << (8U + (r->m_zhdr0 >> 4))) > 32768U) || ((out_buf_size_mask + 1) < (size_t)(1U << (8U + (r->m_zhdr0 >> 4)))));
-    if (counter) { TINFL_CR_RETURN_FOREVER(36, TINFL_STATUS_FAILED); }
-  }
-
-  do
-  {
-    TINFL_GET_BITS(3, r->m_final, 3); r->m_type = r->m_final >> 1;
-    if (r->m_type == 0)
-    {
-      TINFL_SKIP_BITS(5, num_bits & 7);
-      for (counter = 0; counter < 4; ++counter) { if (num_bits) TINFL_GET_BITS(6, r->m_raw_header[counter], 8); else TINFL_GET_BYTE(7, r->m_raw_header[counter]); }
-      if ((counter = (r->m_raw_header[0] | (r->m_raw_header[1] << 8))) != (mz_uint)(0xFFFF ^ (r->m_raw_header[2] | (r->m_raw_header[3] << 8)))) { TINFL_CR_RETURN_FOREVER(39, TINFL_STATUS_FAILED); }
-      while ((counter) && (num_bits))
-      {
-        TINFL_GET_BITS(51, dist, 8);
-        while (pOut_buf_cur >= pOut_buf_end) { TINFL_CR_RETURN(52, TINFL_STATUS_HAS_MORE_OUTPUT); }
-        *pOut_buf_cur++ = (mz_uint8) (dist & 0xFF);
-        counter--;
-      }
-      while (counter)
-      {
-        size_t n; while (pOut_buf_cur >= pOut_buf_end) { TINFL_CR_RETURN(9, TINFL_STATUS_HAS_MORE_OUTPUT); }
-        while (pIn_buf_cur >= pIn_buf_end)
-        {
-          if (decomp_flags & TINFL_FLAG_HAS_MORE_INPUT)
-          {
-            TINFL_CR_RETURN(38, TINFL_STATUS_NEEDS_MORE_INPUT);
-          }
-          else
-          {
-            TINFL_CR_RETURN_FOREVER(40, TINFL_STATUS_FAILED);
-          }
-        }
-        n = MZ_MIN(MZ_MIN((size_t)(pOut_buf_end - pOut_buf_cur), (size_t)(pIn_buf_end - pIn_buf_cur)), counter);
-        TINFL_MEMCPY(pOut_buf_cur, pIn_buf_cur, n); pIn_buf_cur += n; pOut_buf_cur += n; counter -= (mz_uint)n;
-      }
-    }
-    else if (r->m_type == 3)
-    {
-      TINFL_CR_RETURN_FOREVER(10, TINFL_STATUS_FAILED);
-    }
-    else
-    {
-      if (r->m_type == 1)
-      {
-        mz_uint8 *p = r->m_tables[0].m_code_size; mz_uint i;
-        r->m_table_sizes[0] = 288; r->m_table_sizes[1] = 32; TINFL_MEMSET(r->m_tables[1].m_code_size, 5, 32);
-
-        for ( i = 0; i <= 143; ++i) *p++ = 8; for ( ; i <= 255; ++i) *p++ = 9; for ( ; i <= 279; ++i) *p++ = 7; for ( ; i <= 287; ++i) *p++ = 8;
-      }
-      else
-      {
-        for (counter = 0; counter < 3; counter++) { TINFL_GET_BITS(11, r->m_table_sizes[counter], "\05\05\04"[counter]); r->m_table_sizes[counter] += s_min_table_sizes[counter]; }
-        MZ_CLEAR_OBJ(r->m_tables[2].m_code_size); for (counter = 0; counter < r->m_table_sizes[2]; counter++) { mz_uint s; TINFL_GET_BITS(14, s, 3); r->m_tables[2].m_code_size[s_length_dezigzag[counter]] = (mz_uint8) (s & 0xFF); }
-        r->m_table_sizes[2] = 19;
-      }
-      for ( ; (int)r->m_type >= 0; r->m_type--)
-      {
-        int tree_next, tree_cur; tinfl_huff_table *pTable;
-        mz_uint i, j, used_syms, total, sym_index, next_code[17], total_syms[16]; pTable = &r->m_tables[r->m_type]; MZ_CLEAR_OBJ(total_syms); MZ_CLEAR_OBJ(pTable->m_look_up); MZ_CLEAR_OBJ(pTable->m_tree);
-        for (i = 0; i < r->m_table_sizes[r->m_type]; ++i) total_syms[pTable->m_code_size[i]]++;
-        used_syms = 0, total = 0; next_code[0] = next_code[1] = 0;
-        for (i = 1; i <= 15; ++i) { used_syms += total_syms[i]; next_code[i + 1] = (total = ((total + total_syms[i]) << 1)); }
-        if ((65536 != total) && (used_syms > 1))
-        {
-          TINFL_CR_RETURN_FOREVER(35, TINFL_STATUS_FAILED);
-        }
-        for (tree_next = -1, sym_index = 0; sym_index < r->m_table_sizes[r->m_type]; ++sym_index)
-        {
-          mz_uint rev_code = 0, l, cur_code, code_size = pTable->m_code_size[sym_index]; if (!code_size) continue;
-          cur_code = next_code[code_size]++; for (l = code_size; l > 0; l--, cur_code >>= 1) rev_code = (rev_code << 1) | (cur_code & 1);
-          if (code_size <= TINFL_FAST_LOOKUP_BITS) { mz_int16 k = (mz_int16)((code_size << 9) | sym_index); while (rev_code < TINFL_FAST_LOOKUP_SIZE) { pTable->m_look_up[rev_code] = k; rev_code += (1 << code_size); } continue; }
-          if (0 == (tree_cur = pTable->m_look_up[rev_code & (TINFL_FAST_LOOKUP_SIZE - 1)])) { pTable->m_look_up[rev_code & (TINFL_FAST_LOOKUP_SIZE - 1)] = (mz_int16)tree_next; tree_cur = tree_next; tree_next -= 2; }
-          rev_code >>= (TINFL_FAST_LOOKUP_BITS - 1);
-          for (j = code_size; j > (TINFL_FAST_LOOKUP_BITS + 1); j--)
-          {
-            tree_cur -= ((rev_code >>= 1) & 1);
-            if (!pTable->m_tree[-tree_cur - 1]) { pTable->m_tree[-tree_cur - 1] = (mz_int16)tree_next; tree_cur = tree_next; tree_next -= 2; } else tree_cur = pTable->m_tree[-tree_cur - 1];
-          }
-          tree_cur -= ((rev_code >>= 1) & 1); pTable->m_tree[-tree_cur - 1] = (mz_int16)sym_index;
-        }
-        if (r->m_type == 2)
-        {
-          for (counter = 0; counter < (r->m_table_sizes[0] + r->m_table_sizes[1]); )
-          {
-            mz_uint s; TINFL_HUFF_DECODE(16, dist, &r->m_tables[2]); if (dist < 16) { r->m_len_codes[counter++] = (mz_uint8) (dist & 0xFF); continue; }
-            if ((dist == 16) && (!counter))
-            {
-              TINFL_CR_RETURN_FOREVER(17, TINFL_STATUS_FAILED);
-            }
-            num_extra = "\02\03\07"[dist - 16]; TINFL_GET_BITS(18, s, num_extra); s += "\03\03\013"[dist - 16];
-            TINFL_MEMSET(r->m_len_codes + counter, (dist == 16) ? r->m_len_codes[counter - 1] : 0, s); counter += s;
-          }
-          if ((r->m_table_sizes[0] + r->m_table_sizes[1]) != counter)
-          {
-            TINFL_CR_RETURN_FOREVER(21, TINFL_STATUS_FAILED);
-          }
-          TINFL_MEMCPY(r->m_tables[0].m_code_size, r->m_len_codes, r->m_table_sizes[0]); TINFL_MEMCPY(r->m_tables[1].m_code_size, r->m_len_codes + r->m_table_sizes[0], r->m_table_sizes[1]);
-        }
-      }
-      for ( ; ; )
-      {
-        mz_uint8 *pSrc;
-        for ( ; ; )
-        {
-          if (((pIn_buf_end - pIn_buf_cur) < 4) || ((pOut_buf_end - pOut_buf_cur) < 2))
-          {
-            TINFL_HUFF_DECODE(23, counter, &r->m_tables[0]);
-            if (counter >= 256)
-              break;
-            while (pOut_buf_cur >= pOut_buf_end) { TINFL_CR_RETURN(24, TINFL_STATUS_HAS_MORE_OUTPUT); }
-            *pOut_buf_cur++ = (mz_uint8) (counter & 0xFF);
-          }
-          else
-          {
-            int sym2; mz_uint code_len;
-#if TINFL_USE_64BIT_BITBUF
-            if (num_bits < 30) { bit_buf |= (((tinfl_bit_buf_t)MZ_READ_LE32(pIn_buf_cur)) << num_bits); pIn_buf_cur += 4; num_bits += 32; }
-#else
-            if (num_bits < 15) { bit_buf |= (((tinfl_bit_buf_t)MZ_READ_LE16(pIn_buf_cur)) << num_bits); pIn_buf_cur += 2; num_bits += 16; }
-#endif
-            if ((sym2 = r->m_tables[0].m_look_up[bit_buf & (TINFL_FAST_LOOKUP_SIZE - 1)]) >= 0)
-              code_len = sym2 >> 9;
-            else
-            {
-              code_len = TINFL_FAST_LOOKUP_BITS; do { sym2 = r->m_tables[0].m_tree[~sym2 + ((bit_buf >> code_len++) & 1)]; } while (sym2 < 0);
-            }
-            counter = sym2; bit_buf >>= code_len; num_bits -= code_len;
-            if (counter & 256)
-              break;
-
-#if !TINFL_USE_64BIT_BITBUF
-            if (num_bits < 15) { bit_buf |= (((tinfl_bit_buf_t)MZ_READ_LE16(pIn_buf_cur)) << num_bits); pIn_buf_cur += 2; num_bits += 16; }
-#endif
-            if ((sym2 = r->m_tables[0].m_look_up[bit_buf & (TINFL_FAST_LOOKUP_SIZE - 1)]) >= 0)
-              code_len = sym2 >> 9;
-            else
-            {
-              code_len = TINFL_FAST_LOOKUP_BITS; do { sym2 = r->m_tables[0].m_tree[~sym2 + ((bit_buf >> code_len++) & 1)]; } while (sym2 < 0);
-            }
-            bit_buf >>= code_len; num_bits -= code_len;
-
-            pOut_buf_cur[0] = (mz_uint8) (counter & 0xFF);
-            if (sym2 & 256)
-            {
-              pOut_buf_cur++;
-              counter = sym2;
-              break;
-            }
-            pOut_buf_cur[1] = (mz_uint8)(sym2 & 0xFF);
-            pOut_buf_cur += 2;
-          }
-        }
-        if ((counter &= 511) == 256) break;
-
-        num_extra = s_length_extra[counter - 257]; counter = s_length_base[counter - 257];
-        if (num_extra) { mz_uint extra_bits; TINFL_GET_BITS(25, extra_bits, num_extra); counter += extra_bits; }
-
-        TINFL_HUFF_DECODE(26, dist, &r->m_tables[1]);
-        num_extra = s_dist_extra[dist]; dist = s_dist_base[dist];
-        if (num_extra) { mz_uint extra_bits; TINFL_GET_BITS(27, extra_bits, num_extra); dist += extra_bits; }
-
-        dist_from_out_buf_start = pOut_buf_cur - pOut_buf_start;
-        if ((dist > dist_from_out_buf_start) && (decomp_flags & TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF))
-        {
-          TINFL_CR_RETURN_FOREVER(37, TINFL_STATUS_FAILED);
-
-        }
-
-        pSrc = pOut_buf_start + ((dist_from_out_buf_start - dist) & out_buf_size_mask);
-
-        if ((MZ_MAX(pOut_buf_cur, pSrc) + counter) > pOut_buf_end)
-        {
-          while (counter--)
-          {
-            while (pOut_buf_cur >= pOut_buf_end) { TINFL_CR_RETURN(53, TINFL_STATUS_HAS_MORE_OUTPUT); }
-            *pOut_buf_cur++ = pOut_buf_start[(dist_from_out_buf_start++ - dist) & out_buf_size_mask];
-          }
-          continue;
-        }
-#if MINIZ_USE_UNALIGNED_LOADS_AND_STORES
-        else if ((counter >= 9) && (counter <= dist))
-        {
-          const mz_uint8 *pSrc_end = pSrc + (counter & ~7);
-          do
-          {
-            ((mz_uint32 *)pOut_buf_cur)[0] = ((const mz_uint32 *)pSrc)[0];
-            ((mz_uint32 *)pOut_buf_cur)[1] = ((const mz_uint32 *)pSrc)[1];
-            pOut_buf_cur += 8;
-          } while ((pSrc += 8) < pSrc_end);
-          if ((counter &= 7) < 3)
-          {
-            if (counter)
-            {
-              pOut_buf_cur[0] = pSrc[0];
-              if (counter > 1)
-                pOut_buf_cur[1] = pSrc[1];
-
-              pOut_buf_cur += counter;
-            }
-            continue;
-          }
-        }
-#endif
-        do
-        {
-          pOut_buf_cur[0] = pSrc[0];
-          pOut_buf_cur[1] = pSrc[1];
-          pOut_buf_cur[2] = pSrc[2];
-          pOut_buf_cur += 3; pSrc += 3;
-        } while ((int)(counter -= 3) > 2);
-        if ((int)counter > 0)
-        {
-          pOut_buf_cur[0] = pSrc[0];
-          if ((int)counter > 1)
-            pOut_buf_cur[1] = pSrc[1];
-          pOut_buf_cur += counter;
-        }
-      }
-    }
-  } while (!(r->m_final & 1));
-  if (decomp_flags & TINFL_FLAG_PARSE_ZLIB_HEADER)
-  {
-    TINFL_SKIP_BITS(32, num_bits & 7); for (counter = 0; counter < 4; ++counter) { mz_uint s; if (num_bits) TINFL_GET_BITS(41, s, 8); else TINFL_GET_BYTE(42, s); r->m_z_adler32 = (r->m_z_adler32 << 8) | s; }
-  }
-  TINFL_CR_RETURN_FOREVER(34, TINFL_STATUS_DONE);
-  TINFL_CR_FINISH
-
-common_exit:
-  r->m_num_bits = num_bits; r->m_bit_buf = bit_buf; r->m_dist = dist; r->m_counter = counter; r->m_num_extra = num_extra; r->m_dist_from_out_buf_start = dist_from_out_buf_start;
-  *pIn_buf_size = pIn_buf_cur - pIn_buf_next; *pOut_buf_size = pOut_buf_cur - pOut_buf_next;
-  if ((decomp_flags & (TINFL_FLAG_PARSE_ZLIB_HEADER | TINFL_FLAG_COMPUTE_ADLER32)) && (status >= 0))
-  {
-    const mz_uint8 *ptr = pOut_buf_next; size_t buf_len = *pOut_buf_size;
-    mz_uint32 i, s1 = r->m_check_adler32 & 0xffff, s2 = r->m_check_adler32 >> 16; size_t block_len = buf_len % 5552;
-    while (buf_len)
-    {
-      for (i = 0; i + 7 < block_len; i += 8, ptr += 8)
-      {
-        s1 += ptr[0], s2 += s1; s1 += ptr[1], s2 += s1; s1 += ptr[2], s2 += s1; s1 += ptr[3], s2 += s1;
-        s1 += ptr[4], s2 += s1; s1 += ptr[5], s2 += s1; s1 += ptr[6], s2 += s1; s1 += ptr[7], s2 += s1;
-      }
-      for ( ; i < block_len; ++i) s1 += *ptr++, s2 += s1;
-      s1 %= 65521U, s2 %= 65521U; buf_len -= block_len; block_len = 5552;
-    }
-    r->m_check_adler32 = (s2 << 16) + s1; if ((status == TINFL_STATUS_DONE) && (decomp_flags & TINFL_FLAG_PARSE_ZLIB_HEADER) && (r->m_check_adler32 != r->m_z_adler32)) status = TINFL_STATUS_ADLER32_MISMATCH;
-  }
-  return status;
-}
-
-size_t tinfl_decompress_mem_to_mem(void *pOut_buf, size_t out_buf_len, const void *pSrc_buf, size_t src_buf_len, int flags)
-{
-  tinfl_decompressor decomp; tinfl_status status; tinfl_init(&decomp);
-  status = tinfl_decompress(&decomp, (const mz_uint8*)pSrc_buf, &src_buf_len, (mz_uint8*)pOut_buf, (mz_uint8*)pOut_buf, &out_buf_len, (flags & ~TINFL_FLAG_HAS_MORE_INPUT) | TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF);
-  return (status != TINFL_STATUS_DONE) ? TINFL_DECOMPRESS_MEM_TO_MEM_FAILED : out_buf_len;
-}
-
-#endif
-
-
+
+#ifndef tester_header_only
+#include <stdlib.h>
+
+#if defined(_M_IX86) || defined(_M_X64) || defined(__i386__) || defined(__i386) || defined(__i486__) || defined(__i486) || defined(i386) || defined(__ia64__) || defined(__x86_64__)
+#define MINIZ_X86_OR_X64_CPU 1
+#endif
+
+#if (__BYTE_ORDER__==__ORDER_LITTLE_ENDIAN__) || MINIZ_X86_OR_X64_CPU
+#define MINIZ_LITTLE_ENDIAN 1
+#endif
+
+#if MINIZ_X86_OR_X64_CPU
+#define MINIZ_USE_UNALIGNED_LOADS_AND_STORES 0
+#endif
+
+#if defined(_M_X64) || defined(_WIN64) || defined(__MINGW64__) || defined(_LP64) || defined(__LP64__) || defined(__ia64__) || defined(__x86_64__)
+#define MINIZ_HAS_64BIT_REGISTERS 1
+#endif
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+// Beware: mz_ulong can be either 32 or 64-bits!
+typedef unsigned long mz_ulong;
+
+#define MZ_ADLER32_INIT (1)
+// mz_adler32() returns the initial adler-32 value to use when called with ptr==NULL.
+mz_ulong mz_adler32(mz_ulong adler, const unsigned char *ptr, size_t buf_len);
+
+#define MZ_CRC32_INIT (0)
+// mz_crc32() returns the initial CRC-32 value to use when called with ptr==NULL.
+mz_ulong mz_crc32(mz_ulong crc, const unsigned char *ptr, size_t buf_len);
+
+// Compression strategies.
+enum { MZ_DEFAULT_STRATEGY = 0, MZ_FILTERED = 1, MZ_HUFFMAN_ONLY = 2, MZ_RLE = 3, MZ_FIXED = 4 };
+
+// Method
+#define MZ_DEFLATED 8
+
+typedef unsigned char mz_uint8;
+typedef signed short mz_int16;
+typedef unsigned short mz_uint16;
+typedef unsigned int mz_uint32;
+typedef unsigned int mz_uint;
+typedef long long mz_int64;
+typedef unsigned long long mz_uint64;
+typedef int mz_bool;
+
+#define MZ_FALSE (0)
+#define MZ_TRUE (1)
+
+// An attempt to work around MSVC's spammy "warning C4127: conditional expression is constant" message.
+#ifdef _MSC_VER
+   #define MZ_MACRO_END while (0, 0)
+#else
+   #define MZ_MACRO_END while (0)
+#endif
+
+// Decompression flags used by tinfl_decompress().
+// TINFL_FLAG_PARSE_ZLIB_HEADER: If set, the input has a valid zlib header and ends with an adler32 checksum (it's a valid zlib stream). Otherwise, the input is a raw deflate stream.
+// TINFL_FLAG_HAS_MORE_INPUT: If set, there are more input bytes available beyond the end of the supplied input buffer. If clear, the input buffer contains all remaining input.
+// TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF: If set, the output buffer is large enough to hold the entire decompressed stream. If clear, the output buffer is at least the size of the dictionary (typically 32KB).
+// TINFL_FLAG_COMPUTE_ADLER32: Force adler-32 checksum computation of the decompressed bytes.
+enum
+{
+  TINFL_FLAG_PARSE_ZLIB_HEADER = 1,
+  TINFL_FLAG_HAS_MORE_INPUT = 2,
+  TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF = 4,
+  TINFL_FLAG_COMPUTE_ADLER32 = 8
+};
+
+// tinfl_decompress_mem_to_mem() decompresses a block in memory to another block in memory.
+// Returns TINFL_DECOMPRESS_MEM_TO_MEM_FAILED on failure, or the number of bytes written on success.
+#define TINFL_DECOMPRESS_MEM_TO_MEM_FAILED ((size_t)(-1))
+size_t tinfl_decompress_mem_to_mem(void *pOut_buf, size_t out_buf_len, const void *pSrc_buf, size_t src_buf_len, int flags);
+
+struct tinfl_decompressor_tag; typedef struct tinfl_decompressor_tag tinfl_decompressor;
+
+// Max size of LZ dictionary.
+#define TINFL_LZ_DICT_SIZE 32768
+
+// Return status.
+typedef enum
+{
+  TINFL_STATUS_BAD_PARAM = -3,
+  TINFL_STATUS_ADLER32_MISMATCH = -2,
+  TINFL_STATUS_FAILED = -1,
+  TINFL_STATUS_DONE = 0,
+  TINFL_STATUS_NEEDS_MORE_INPUT = 1,
+  TINFL_STATUS_HAS_MORE_OUTPUT = 2
+} tinfl_status;
+
+// Initializes the decompressor to its initial state.
+#define tinfl_init(r) do { (r)->m_state = 0; } MZ_MACRO_END
+#define tinfl_get_adler32(r) (r)->m_check_adler32
+
+// Main low-level decompressor coroutine function. This is the only function actually needed for decompression. All the other functions are just high-level helpers for improved usability.
+// This is a universal API, i.e. it can be used as a building block to build any desired higher level decompression API. In the limit case, it can be called once per every byte input or output.
+tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_next, size_t *pIn_buf_size, mz_uint8 *pOut_buf_start, mz_uint8 *pOut_buf_next, size_t *pOut_buf_size, const mz_uint32 decomp_flags);
+
+// Internal/private bits follow.
+enum
+{
+  TINFL_MAX_HUFF_TABLES = 3, TINFL_MAX_HUFF_SYMBOLS_0 = 288, TINFL_MAX_HUFF_SYMBOLS_1 = 32, TINFL_MAX_HUFF_SYMBOLS_2 = 19,
+  TINFL_FAST_LOOKUP_BITS = 10, TINFL_FAST_LOOKUP_SIZE = 1 << TINFL_FAST_LOOKUP_BITS
+};
+
+typedef struct
+{
+  mz_uint8 m_code_size[TINFL_MAX_HUFF_SYMBOLS_0];
+  mz_int16 m_look_up[TINFL_FAST_LOOKUP_SIZE], m_tree[TINFL_MAX_HUFF_SYMBOLS_0 * 2];
+} tinfl_huff_table;
+
+#if MINIZ_HAS_64BIT_REGISTERS
+  #define TINFL_USE_64BIT_BITBUF 1
+#endif
+
+#if TINFL_USE_64BIT_BITBUF
+  typedef mz_uint64 tinfl_bit_buf_t;
+  #define TINFL_BITBUF_SIZE (64)
+#else
+  typedef mz_uint32 tinfl_bit_buf_t;
+  #define TINFL_BITBUF_SIZE (32)
+#endif
+
+struct tinfl_decompressor_tag
+{
+  mz_uint32 m_state, m_num_bits, m_zhdr0, m_zhdr1, m_z_adler32, m_final, m_type, m_check_adler32, m_dist, m_counter, m_num_extra, m_table_sizes[TINFL_MAX_HUFF_TABLES];
+  tinfl_bit_buf_t m_bit_buf;
+  size_t m_dist_from_out_buf_start;
+  tinfl_huff_table m_tables[TINFL_MAX_HUFF_TABLES];
+  mz_uint8 m_raw_header[4], m_len_codes[TINFL_MAX_HUFF_SYMBOLS_0 + TINFL_MAX_HUFF_SYMBOLS_1 + 137];
+};
+
+typedef unsigned char mz_validate_uint16[sizeof(mz_uint16)==2 ? 1 : -1];
+typedef unsigned char mz_validate_uint32[sizeof(mz_uint32)==4 ? 1 : -1];
+typedef unsigned char mz_validate_uint64[sizeof(mz_uint64)==8 ? 1 : -1];
+
+#include <string.h>
+#include <assert.h>
+
+#define MZ_ASSERT(x) assert(x)
+
+#define MZ_MALLOC(x) malloc(x)
+#define MZ_FREE(x) free(x)
+#define MZ_REALLOC(p, x) realloc(p, x)
+
+#define MZ_MAX(a,b) (((a)>(b))?(a):(b))
+#define MZ_MIN(a,b) (((a)<(b))?(a):(b))
+#define MZ_CLEAR_OBJ(obj) memset(&(obj), 0, sizeof(obj))
+
+#if MINIZ_USE_UNALIGNED_LOADS_AND_STORES && MINIZ_LITTLE_ENDIAN
+  #define MZ_READ_LE16(p) *((const mz_uint16 *)(p))
+  #define MZ_READ_LE32(p) *((const mz_uint32 *)(p))
+#else
+  #define MZ_READ_LE16(p) ((mz_uint32)(((const mz_uint8 *)(p))[0]) | ((mz_uint32)(((const mz_uint8 *)(p))[1]) << 8U))
+  #define MZ_READ_LE32(p) ((mz_uint32)(((const mz_uint8 *)(p))[0]) | ((mz_uint32)(((const mz_uint8 *)(p))[1]) << 8U) | ((mz_uint32)(((const mz_uint8 *)(p))[2]) << 16U) | ((mz_uint32)(((const mz_uint8 *)(p))[3]) << 24U))
+#endif
+
+#ifdef _MSC_VER
+  #define MZ_FORCEINLINE __forceinline
+#elif defined(__GNUC__)
+  #define MZ_FORCEINLINE inline __attribute__((__always_inline__))
+#else
+  #define MZ_FORCEINLINE inline
+#endif
+
+mz_ulong mz_adler32(mz_ulong adler, const unsigned char *ptr, size_t buf_len)
+{
+  mz_uint32 i, s1 = (mz_uint32)(adler & 0xffff), s2 = (mz_uint32)(adler >> 16); size_t block_len = buf_len % 5552;
+  if (!ptr) return MZ_ADLER32_INIT;
+  while (buf_len) {
+    for (i = 0; i + 7 < block_len; i += 8, ptr += 8) {
+      s1 += ptr[0], s2 += s1; s1 += ptr[1], s2 += s1; s1 += ptr[2], s2 += s1; s1 += ptr[3], s2 += s1;
+      s1 += ptr[4], s2 += s1; s1 += ptr[5], s2 += s1; s1 += ptr[6], s2 += s1; s1 += ptr[7], s2 += s1;
+    }
+    for ( ; i < block_len; ++i) s1 += *ptr++, s2 += s1;
+    s1 %= 65521U, s2 %= 65521U; buf_len -= block_len; block_len = 5552;
+  }
+  return (s2 << 16) + s1;
+}
+
+// Karl Malbrain's compact CRC-32. See "A compact CCITT crc16 and crc32 C implementation that balances processor cache usage against speed": http://www.geocities.com/malbrain/
+mz_ulong mz_crc32(mz_ulong crc, const mz_uint8 *ptr, size_t buf_len)
+{
+  static const mz_uint32 s_crc32[16] = { 0, 0x1db71064, 0x3b6e20c8, 0x26d930ac, 0x76dc4190, 0x6b6b51f4, 0x4db26158, 0x5005713c,
+    0xedb88320, 0xf00f9344, 0xd6d6a3e8, 0xcb61b38c, 0x9b64c2b0, 0x86d3d2d4, 0xa00ae278, 0xbdbdf21c };
+  mz_uint32 crcu32 = (mz_uint32)crc;
+  if (!ptr) return MZ_CRC32_INIT;
+  crcu32 = ~crcu32; while (buf_len--) { mz_uint8 b = *ptr++; crcu32 = (crcu32 >> 4) ^ s_crc32[(crcu32 & 0xF) ^ (b & 0xF)]; crcu32 = (crcu32 >> 4) ^ s_crc32[(crcu32 & 0xF) ^ (b >> 4)]; }
+  return ~crcu32;
+}
+
+#define TINFL_MEMCPY(d, s, l) memcpy(d, s, l)
+#define TINFL_MEMSET(p, c, l) memset(p, c, l)
+
+#define TINFL_CR_BEGIN switch(r->m_state) { case 0:
+#define TINFL_CR_RETURN(state_index, result) do { status = result; r->m_state = state_index; goto common_exit; case state_index:; } MZ_MACRO_END
+#define TINFL_CR_RETURN_FOREVER(state_index, result) do { for ( ; ; ) { TINFL_CR_RETURN(state_index, result); } } MZ_MACRO_END
+#define TINFL_CR_FINISH }
+
+// TODO: If the caller has indicated that there's no more input, and we attempt to read beyond the input buf, then something is wrong with the input because the inflator never
+// reads ahead more than it needs to. Currently TINFL_GET_BYTE() pads the end of the stream with 0's in this scenario.
+#define TINFL_GET_BYTE(state_index, c) do { \
+  if (pIn_buf_cur >= pIn_buf_end) { \
+    for ( ; ; ) { \
+      if (decomp_flags & TINFL_FLAG_HAS_MORE_INPUT) { \
+        TINFL_CR_RETURN(state_index, TINFL_STATUS_NEEDS_MORE_INPUT); \
+        if (pIn_buf_cur < pIn_buf_end) { \
+          c = *pIn_buf_cur++; \
+          break; \
+        } \
+      } else { \
+        c = 0; \
+        break; \
+      } \
+    } \
+  } else c = *pIn_buf_cur++; } MZ_MACRO_END
+
+#define TINFL_NEED_BITS(state_index, n) do { mz_uint c; TINFL_GET_BYTE(state_index, c); bit_buf |= (((tinfl_bit_buf_t)c) << num_bits); num_bits += 8; } while (num_bits < (mz_uint)(n))
+#define TINFL_SKIP_BITS(state_index, n) do { if (num_bits < (mz_uint)(n)) { TINFL_NEED_BITS(state_index, n); } bit_buf >>= (n); num_bits -= (n); } MZ_MACRO_END
+#define TINFL_GET_BITS(state_index, b, n) do { if (num_bits < (mz_uint)(n)) { TINFL_NEED_BITS(state_index, n); } b = bit_buf & ((1 << (n)) - 1); bit_buf >>= (n); num_bits -= (n); } MZ_MACRO_END
+
+// TINFL_HUFF_BITBUF_FILL() is only used rarely, when the number of bytes remaining in the input buffer falls below 2.
+// It reads just enough bytes from the input stream that are needed to decode the next Huffman code (and absolutely no more). It works by trying to fully decode a
+// Huffman code by using whatever bits are currently present in the bit buffer. If this fails, it reads another byte, and tries again until it succeeds or until the
+// bit buffer contains >=15 bits (deflate's max. Huffman code size).
+#define TINFL_HUFF_BITBUF_FILL(state_index, pHuff) \
+  do { \
+    temp = (pHuff)->m_look_up[bit_buf & (TINFL_FAST_LOOKUP_SIZE - 1)]; \
+    if (temp >= 0) { \
+      code_len = temp >> 9; \
+      if ((code_len) && (num_bits >= code_len)) \
+      break; \
+    } else if (num_bits > TINFL_FAST_LOOKUP_BITS) { \
+       code_len = TINFL_FAST_LOOKUP_BITS; \
+       do { \
+          temp = (pHuff)->m_tree[~temp + ((bit_buf >> code_len++) & 1)]; \
+       } while ((temp < 0) && (num_bits >= (code_len + 1))); if (temp >= 0) break; \
+    } TINFL_GET_BYTE(state_index, c); bit_buf |= (((tinfl_bit_buf_t)c) << num_bits); num_bits += 8; \
+  } while (num_bits < 15);
+
+// TINFL_HUFF_DECODE() decodes the next Huffman coded symbol. It's more complex than you would initially expect because the zlib API expects the decompressor to never read
+// beyond the final byte of the deflate stream. (In other words, when this macro wants to read another byte from the input, it REALLY needs another byte in order to fully
+// decode the next Huffman code.) Handling this properly is particularly important on raw deflate (non-zlib) streams, which aren't followed by a byte aligned adler-32.
+// The slow path is only executed at the very end of the input buffer.
+#define TINFL_HUFF_DECODE(state_index, sym, pHuff) do { \
+  int temp; mz_uint code_len, c; \
+  if (num_bits < 15) { \
+    if ((pIn_buf_end - pIn_buf_cur) < 2) { \
+       TINFL_HUFF_BITBUF_FILL(state_index, pHuff); \
+    } else { \
+       bit_buf |= (((tinfl_bit_buf_t)pIn_buf_cur[0]) << num_bits) | (((tinfl_bit_buf_t)pIn_buf_cur[1]) << (num_bits + 8)); pIn_buf_cur += 2; num_bits += 16; \
+    } \
+  } \
+  if ((temp = (pHuff)->m_look_up[bit_buf & (TINFL_FAST_LOOKUP_SIZE - 1)]) >= 0) \
+    code_len = temp >> 9, temp &= 511; \
+  else { \
+    code_len = TINFL_FAST_LOOKUP_BITS; do { temp = (pHuff)->m_tree[~temp + ((bit_buf >> code_len++) & 1)]; } while (temp < 0); \
+  } sym = temp; bit_buf >>= code_len; num_bits -= code_len; } MZ_MACRO_END
+
+tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_next, size_t *pIn_buf_size, mz_uint8 *pOut_buf_start, mz_uint8 *pOut_buf_next, size_t *pOut_buf_size, const mz_uint32 decomp_flags)
+{
+  static const int s_length_base[31] = { 3,4,5,6,7,8,9,10,11,13, 15,17,19,23,27,31,35,43,51,59, 67,83,99,115,131,163,195,227,258,0,0 };
+  static const int s_length_extra[31]= { 0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0,0,0 };
+  static const int s_dist_base[32] = { 1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193, 257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577,0,0};
+  static const int s_dist_extra[32] = { 0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13};
+  static const mz_uint8 s_length_dezigzag[19] = { 16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15 };
+  static const int s_min_table_sizes[3] = { 257, 1, 4 };
+
+  tinfl_status status = TINFL_STATUS_FAILED; mz_uint32 num_bits, dist, counter, num_extra; tinfl_bit_buf_t bit_buf;
+  const mz_uint8 *pIn_buf_cur = pIn_buf_next, *const pIn_buf_end = pIn_buf_next + *pIn_buf_size;
+  mz_uint8 *pOut_buf_cur = pOut_buf_next, *const pOut_buf_end = pOut_buf_next + *pOut_buf_size;
+  size_t out_buf_size_mask = (decomp_flags & TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF) ? (size_t)-1 : ((pOut_buf_next - pOut_buf_start) + *pOut_buf_size) - 1, dist_from_out_buf_start;
+
+  // Ensure the output buffer's size is a power of 2, unless the output buffer is large enough to hold the entire output file (in which case it doesn't matter).
+  if (((out_buf_size_mask + 1) & out_buf_size_mask) || (pOut_buf_next < pOut_buf_start)) { *pIn_buf_size = *pOut_buf_size = 0; return TINFL_STATUS_BAD_PARAM; }
+
+  num_bits = r->m_num_bits; bit_buf = r->m_bit_buf; dist = r->m_dist; counter = r->m_counter; num_extra = r->m_num_extra; dist_from_out_buf_start = r->m_dist_from_out_buf_start;
+  TINFL_CR_BEGIN
+
+  bit_buf = num_bits = dist = counter = num_extra = r->m_zhdr0 = r->m_zhdr1 = 0; r->m_z_adler32 = r->m_check_adler32 = 1;
+  if (decomp_flags & TINFL_FLAG_PARSE_ZLIB_HEADER)
+  {
+    TINFL_GET_BYTE(1, r->m_zhdr0); TINFL_GET_BYTE(2, r->m_zhdr1);
+    counter = (((r->m_zhdr0 * 256 + r->m_zhdr1) % 31 != 0) || (r->m_zhdr1 & 32) || ((r->m_zhdr0 & 15) != 8));
+    if (!(decomp_flags & TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF)) counter |= (((1U << (8U + (r->m_zhdr0 >> 4))) > 32768U) || ((out_buf_size_mask + 1) < (size_t)(1U << (8U + (r->m_zhdr0 >> 4)))));
+    if (counter) { TINFL_CR_RETURN_FOREVER(36, TINFL_STATUS_FAILED); }
+  }
+
+  do
+  {
+    TINFL_GET_BITS(3, r->m_final, 3); r->m_type = r->m_final >> 1;
+    if (r->m_type == 0)
+    {
+      TINFL_SKIP_BITS(5, num_bits & 7);
+      for (counter = 0; counter < 4; ++counter) { if (num_bits) TINFL_GET_BITS(6, r->m_raw_header[counter], 8); else TINFL_GET_BYTE(7, r->m_raw_header[counter]); }
+      if ((counter = (r->m_raw_header[0] | (r->m_raw_header[1] << 8))) != (mz_uint)(0xFFFF ^ (r->m_raw_header[2] | (r->m_raw_header[3] << 8)))) { TINFL_CR_RETURN_FOREVER(39, TINFL_STATUS_FAILED); }
+      while ((counter) && (num_bits))
+      {
+        TINFL_GET_BITS(51, dist, 8);
+        while (pOut_buf_cur >= pOut_buf_end) { TINFL_CR_RETURN(52, TINFL_STATUS_HAS_MORE_OUTPUT); }
+        *pOut_buf_cur++ = (mz_uint8) (dist & 0xFF);
+        counter--;
+      }
+      while (counter)
+      {
+        size_t n; while (pOut_buf_cur >= pOut_buf_end) { TINFL_CR_RETURN(9, TINFL_STATUS_HAS_MORE_OUTPUT); }
+        while (pIn_buf_cur >= pIn_buf_end)
+        {
+          if (decomp_flags & TINFL_FLAG_HAS_MORE_INPUT)
+          {
+            TINFL_CR_RETURN(38, TINFL_STATUS_NEEDS_MORE_INPUT);
+          }
+          else
+          {
+            TINFL_CR_RETURN_FOREVER(40, TINFL_STATUS_FAILED);
+          }
+        }
+        n = MZ_MIN(MZ_MIN((size_t)(pOut_buf_end - pOut_buf_cur), (size_t)(pIn_buf_end - pIn_buf_cur)), counter);
+        TINFL_MEMCPY(pOut_buf_cur, pIn_buf_cur, n); pIn_buf_cur += n; pOut_buf_cur += n; counter -= (mz_uint)n;
+      }
+    }
+    else if (r->m_type == 3)
+    {
+      TINFL_CR_RETURN_FOREVER(10, TINFL_STATUS_FAILED);
+    }
+    else
+    {
+      if (r->m_type == 1)
+      {
+        mz_uint8 *p = r->m_tables[0].m_code_size; mz_uint i;
+        r->m_table_sizes[0] = 288; r->m_table_sizes[1] = 32; TINFL_MEMSET(r->m_tables[1].m_code_size, 5, 32);
+
+        for ( i = 0; i <= 143; ++i) *p++ = 8; for ( ; i <= 255; ++i) *p++ = 9; for ( ; i <= 279; ++i) *p++ = 7; for ( ; i <= 287; ++i) *p++ = 8;
+      }
+      else
+      {
+        for (counter = 0; counter < 3; counter++) { TINFL_GET_BITS(11, r->m_table_sizes[counter], "\05\05\04"[counter]); r->m_table_sizes[counter] += s_min_table_sizes[counter]; }
+        MZ_CLEAR_OBJ(r->m_tables[2].m_code_size); for (counter = 0; counter < r->m_table_sizes[2]; counter++) { mz_uint s; TINFL_GET_BITS(14, s, 3); r->m_tables[2].m_code_size[s_length_dezigzag[counter]] = (mz_uint8) (s & 0xFF); }
+        r->m_table_sizes[2] = 19;
+      }
+      for ( ; (int)r->m_type >= 0; r->m_type--)
+      {
+        int tree_next, tree_cur; tinfl_huff_table *pTable;
+        mz_uint i, j, used_syms, total, sym_index, next_code[17], total_syms[16]; pTable = &r->m_tables[r->m_type]; MZ_CLEAR_OBJ(total_syms); MZ_CLEAR_OBJ(pTable->m_look_up); MZ_CLEAR_OBJ(pTable->m_tree);
+        for (i = 0; i < r->m_table_sizes[r->m_type]; ++i) total_syms[pTable->m_code_size[i]]++;
+        used_syms = 0, total = 0; next_code[0] = next_code[1] = 0;
+        for (i = 1; i <= 15; ++i) { used_syms += total_syms[i]; next_code[i + 1] = (total = ((total + total_syms[i]) << 1)); }
+        if ((65536 != total) && (used_syms > 1))
+        {
+          TINFL_CR_RETURN_FOREVER(35, TINFL_STATUS_FAILED);
+        }
+        for (tree_next = -1, sym_index = 0; sym_index < r->m_table_sizes[r->m_type]; ++sym_index)
+        {
+          mz_uint rev_code = 0, l, cur_code, code_size = pTable->m_code_size[sym_index]; if (!code_size) continue;
+          cur_code = next_code[code_size]++; for (l = code_size; l > 0; l--, cur_code >>= 1) rev_code = (rev_code << 1) | (cur_code & 1);
+          if (code_size <= TINFL_FAST_LOOKUP_BITS) { mz_int16 k = (mz_int16)((code_size << 9) | sym_index); while (rev_code < TINFL_FAST_LOOKUP_SIZE) { pTable->m_look_up[rev_code] = k; rev_code += (1 << code_size); } continue; }
+          if (0 == (tree_cur = pTable->m_look_up[rev_code & (TINFL_FAST_LOOKUP_SIZE - 1)])) { pTable->m_look_up[rev_code & (TINFL_FAST_LOOKUP_SIZE - 1)] = (mz_int16)tree_next; tree_cur = tree_next; tree_next -= 2; }
+          rev_code >>= (TINFL_FAST_LOOKUP_BITS - 1);
+          for (j = code_size; j > (TINFL_FAST_LOOKUP_BITS + 1); j--)
+          {
+            tree_cur -= ((rev_code >>= 1) & 1);
+            if (!pTable->m_tree[-tree_cur - 1]) { pTable->m_tree[-tree_cur - 1] = (mz_int16)tree_next; tree_cur = tree_next; tree_next -= 2; } else tree_cur = pTable->m_tree[-tree_cur - 1];
+          }
+          tree_cur -= ((rev_code >>= 1) & 1); pTable->m_tree[-tree_cur - 1] = (mz_int16)sym_index;
+        }
+        if (r->m_type == 2)
+        {
+          for (counter = 0; counter < (r->m_table_sizes[0] + r->m_table_sizes[1]); )
+          {
+            mz_uint s; TINFL_HUFF_DECODE(16, dist, &r->m_tables[2]); if (dist < 16) { r->m_len_codes[counter++] = (mz_uint8) (dist & 0xFF); continue; }
+            if ((dist == 16) && (!counter))
+            {
+              TINFL_CR_RETURN_FOREVER(17, TINFL_STATUS_FAILED);
+            }
+            num_extra = "\02\03\07"[dist - 16]; TINFL_GET_BITS(18, s, num_extra); s += "\03\03\013"[dist - 16];
+            TINFL_MEMSET(r->m_len_codes + counter, (dist == 16) ? r->m_len_codes[counter - 1] : 0, s); counter += s;
+          }
+          if ((r->m_table_sizes[0] + r->m_table_sizes[1]) != counter)
+          {
+            TINFL_CR_RETURN_FOREVER(21, TINFL_STATUS_FAILED);
+          }
+          TINFL_MEMCPY(r->m_tables[0].m_code_size, r->m_len_codes, r->m_table_sizes[0]); TINFL_MEMCPY(r->m_tables[1].m_code_size, r->m_len_codes + r->m_table_sizes[0], r->m_table_sizes[1]);
+        }
+      }
+      for ( ; ; )
+      {
+        mz_uint8 *pSrc;
+        for ( ; ; )
+        {
+          if (((pIn_buf_end - pIn_buf_cur) < 4) || ((pOut_buf_end - pOut_buf_cur) < 2))
+          {
+            TINFL_HUFF_DECODE(23, counter, &r->m_tables[0]);
+            if (counter >= 256)
+              break;
+            while (pOut_buf_cur >= pOut_buf_end) { TINFL_CR_RETURN(24, TINFL_STATUS_HAS_MORE_OUTPUT); }
+            *pOut_buf_cur++ = (mz_uint8) (counter & 0xFF);
+          }
+          else
+          {
+            int sym2; mz_uint code_len;
+#if TINFL_USE_64BIT_BITBUF
+            if (num_bits < 30) { bit_buf |= (((tinfl_bit_buf_t)MZ_READ_LE32(pIn_buf_cur)) << num_bits); pIn_buf_cur += 4; num_bits += 32; }
+#else
+            if (num_bits < 15) { bit_buf |= (((tinfl_bit_buf_t)MZ_READ_LE16(pIn_buf_cur)) << num_bits); pIn_buf_cur += 2; num_bits += 16; }
+#endif
+            if ((sym2 = r->m_tables[0].m_look_up[bit_buf & (TINFL_FAST_LOOKUP_SIZE - 1)]) >= 0)
+              code_len = sym2 >> 9;
+            else
+            {
+              code_len = TINFL_FAST_LOOKUP_BITS; do { sym2 = r->m_tables[0].m_tree[~sym2 + ((bit_buf >> code_len++) & 1)]; } while (sym2 < 0);
+            }
+            counter = sym2; bit_buf >>= code_len; num_bits -= code_len;
+            if (counter & 256)
+              break;
+
+#if !TINFL_USE_64BIT_BITBUF
+            if (num_bits < 15) { bit_buf |= (((tinfl_bit_buf_t)MZ_READ_LE16(pIn_buf_cur)) << num_bits); pIn_buf_cur += 2; num_bits += 16; }
+#endif
+            if ((sym2 = r->m_tables[0].m_look_up[bit_buf & (TINFL_FAST_LOOKUP_SIZE - 1)]) >= 0)
+              code_len = sym2 >> 9;
+            else
+            {
+              code_len = TINFL_FAST_LOOKUP_BITS; do { sym2 = r->m_tables[0].m_tree[~sym2 + ((bit_buf >> code_len++) & 1)]; } while (sym2 < 0);
+            }
+            bit_buf >>= code_len; num_bits -= code_len;
+
+            pOut_buf_cur[0] = (mz_uint8) (counter & 0xFF);
+            if (sym2 & 256)
+            {
+              pOut_buf_cur++;
+              counter = sym2;
+              break;
+            }
+            pOut_buf_cur[1] = (mz_uint8)(sym2 & 0xFF);
+            pOut_buf_cur += 2;
+          }
+        }
+        if ((counter &= 511) == 256) break;
+
+        num_extra = s_length_extra[counter - 257]; counter = s_length_base[counter - 257];
+        if (num_extra) { mz_uint extra_bits; TINFL_GET_BITS(25, extra_bits, num_extra); counter += extra_bits; }
+
+        TINFL_HUFF_DECODE(26, dist, &r->m_tables[1]);
+        num_extra = s_dist_extra[dist]; dist = s_dist_base[dist];
+        if (num_extra) { mz_uint extra_bits; TINFL_GET_BITS(27, extra_bits, num_extra); dist += extra_bits; }
+
+        dist_from_out_buf_start = pOut_buf_cur - pOut_buf_start;
+        if ((dist > dist_from_out_buf_start) && (decomp_flags & TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF))
+        {
+          TINFL_CR_RETURN_FOREVER(37, TINFL_STATUS_FAILED);
+
+        }
+
+        pSrc = pOut_buf_start + ((dist_from_out_buf_start - dist) & out_buf_size_mask);
+
+        if ((MZ_MAX(pOut_buf_cur, pSrc) + counter) > pOut_buf_end)
+        {
+          while (counter--)
+          {
+            while (pOut_buf_cur >= pOut_buf_end) { TINFL_CR_RETURN(53, TINFL_STATUS_HAS_MORE_OUTPUT); }
+            *pOut_buf_cur++ = pOut_buf_start[(dist_from_out_buf_start++ - dist) & out_buf_size_mask];
+          }
+          continue;
+        }
+#if MINIZ_USE_UNALIGNED_LOADS_AND_STORES
+        else if ((counter >= 9) && (counter <= dist))
+        {
+          const mz_uint8 *pSrc_end = pSrc + (counter & ~7);
+          do
+          {
+            ((mz_uint32 *)pOut_buf_cur)[0] = ((const mz_uint32 *)pSrc)[0];
+            ((mz_uint32 *)pOut_buf_cur)[1] = ((const mz_uint32 *)pSrc)[1];
+            pOut_buf_cur += 8;
+          } while ((pSrc += 8) < pSrc_end);
+          if ((counter &= 7) < 3)
+          {
+            if (counter)
+            {
+              pOut_buf_cur[0] = pSrc[0];
+              if (counter > 1)
+                pOut_buf_cur[1] = pSrc[1];
+
+              pOut_buf_cur += counter;
+            }
+            continue;
+          }
+        }
+#endif
+        do
+        {
+          pOut_buf_cur[0] = pSrc[0];
+          pOut_buf_cur[1] = pSrc[1];
+          pOut_buf_cur[2] = pSrc[2];
+          pOut_buf_cur += 3; pSrc += 3;
+        } while ((int)(counter -= 3) > 2);
+        if ((int)counter > 0)
+        {
+          pOut_buf_cur[0] = pSrc[0];
+          if ((int)counter > 1)
+            pOut_buf_cur[1] = pSrc[1];
+          pOut_buf_cur += counter;
+        }
+      }
+    }
+  } while (!(r->m_final & 1));
+  if (decomp_flags & TINFL_FLAG_PARSE_ZLIB_HEADER)
+  {
+    TINFL_SKIP_BITS(32, num_bits & 7); for (counter = 0; counter < 4; ++counter) { mz_uint s; if (num_bits) TINFL_GET_BITS(41, s, 8); else TINFL_GET_BYTE(42, s); r->m_z_adler32 = (r->m_z_adler32 << 8) | s; }
+  }
+  TINFL_CR_RETURN_FOREVER(34, TINFL_STATUS_DONE);
+  TINFL_CR_FINISH
+
+common_exit:
+  r->m_num_bits = num_bits; r->m_bit_buf = bit_buf; r->m_dist = dist; r->m_counter = counter; r->m_num_extra = num_extra; r->m_dist_from_out_buf_start = dist_from_out_buf_start;
+  *pIn_buf_size = pIn_buf_cur - pIn_buf_next; *pOut_buf_size = pOut_buf_cur - pOut_buf_next;
+  if ((decomp_flags & (TINFL_FLAG_PARSE_ZLIB_HEADER | TINFL_FLAG_COMPUTE_ADLER32)) && (status >= 0))
+  {
+    const mz_uint8 *ptr = pOut_buf_next; size_t buf_len = *pOut_buf_size;
+    mz_uint32 i, s1 = r->m_check_adler32 & 0xffff, s2 = r->m_check_adler32 >> 16; size_t block_len = buf_len % 5552;
+    while (buf_len)
+    {
+      for (i = 0; i + 7 < block_len; i += 8, ptr += 8)
+      {
+        s1 += ptr[0], s2 += s1; s1 += ptr[1], s2 += s1; s1 += ptr[2], s2 += s1; s1 += ptr[3], s2 += s1;
+        s1 += ptr[4], s2 += s1; s1 += ptr[5], s2 += s1; s1 += ptr[6], s2 += s1; s1 += ptr[7], s2 += s1;
+      }
+      for ( ; i < block_len; ++i) s1 += *ptr++, s2 += s1;
+      s1 %= 65521U, s2 %= 65521U; buf_len -= block_len; block_len = 5552;
+    }
+    r->m_check_adler32 = (s2 << 16) + s1; if ((status == TINFL_STATUS_DONE) && (decomp_flags & TINFL_FLAG_PARSE_ZLIB_HEADER) && (r->m_check_adler32 != r->m_z_adler32)) status = TINFL_STATUS_ADLER32_MISMATCH;
+  }
+  return status;
+}
+
+size_t tinfl_decompress_mem_to_mem(void *pOut_buf, size_t out_buf_len, const void *pSrc_buf, size_t src_buf_len, int flags)
+{
+  tinfl_decompressor decomp; tinfl_status status; tinfl_init(&decomp);
+  status = tinfl_decompress(&decomp, (const mz_uint8*)pSrc_buf, &src_buf_len, (mz_uint8*)pOut_buf, (mz_uint8*)pOut_buf, &out_buf_len, (flags & ~TINFL_FLAG_HAS_MORE_INPUT) | TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF);
+  return (status != TINFL_STATUS_DONE) ? TINFL_DECOMPRESS_MEM_TO_MEM_FAILED : out_buf_len;
+}
+
+#endif
+
+
 #ifndef tester_header_only
 static const char* tester_resource_data_0[] = {
 "l\314\301\012\202@\020\200\341\331C\333\316\346,B!\0302&*\201\005\202\261\265P\035"
-- 
2.43.0


From d1e47401a93bbe886c4a8cc3de7138a89fb1f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 079/118] fix: a file that is not an image aborts the
 command-line client

---
 support/client/cli.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index aaefe25..364f917 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -361,15 +361,16 @@ Image load_image(string& path, int formats) {
     case TRAX_IMAGE_BUFFER: {
         // Read the file to memory
         std::ifstream t(path.c_str(), std::ios::in | std::ios::binary);
-        t.seekg(0, std::ios::end);
-        if (!t.good())
-            throw std::runtime_error("Unable to read image " + path);
-        size_t size = t.tellg();
-        std::string buffer(size, ' ');
-        t.seekg(0);
-        t.read(&buffer[0], size);
-        if (!t.good())
+        std::string buffer((std::istreambuf_iterator<char>(t)), std::istreambuf_iterator<char>());
+        size_t size = buffer.size();
+        if (!t.good() || size == 0)
             throw std::runtime_error("Unable to read image " + path);
+        // Only encoded data in a known format may be put in an image
+        const unsigned char* magic = (const unsigned char*) buffer.c_str();
+        bool jpeg = size > 4 && magic[0] == 0xFF && magic[1] == 0xD8 && magic[2] == 0xFF;
+        bool png = size > 4 && magic[0] == 0x89 && magic[1] == 0x50 && magic[2] == 0x4E && magic[3] == 0x47;
+        if (!jpeg && !png)
+            throw std::runtime_error("Unknown format of image " + path);
         return Image::create_buffer(buffer.size(), buffer.c_str());
         break;
     }
-- 
2.43.0


From c1f92d7ad84afdc84282a8f440fa2a48aedd5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 080/118] fix: gray images can not be converted to or from
 OpenCV matrices

---
 support/opencv/opencv.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index 4289dd6..332cd98 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -25,6 +25,10 @@ cv::Mat image_to_mat(const Image& image) {
         cv::Mat tmp(height, width, format == TRAX_IMAGE_MEMORY_RGB ? CV_8UC3 : 
             (format == TRAX_IMAGE_MEMORY_GRAY8 ? CV_8UC1 : CV_16U), const_cast<char *>(data));
 
+        // Only color images have channels that have to be reordered
+        if (format != TRAX_IMAGE_MEMORY_RGB)
+            return tmp.clone();
+
         cv::Mat result;
 
         cv::cvtColor(tmp, result, cv::COLOR_BGR2RGB);
@@ -83,6 +87,9 @@ std::vector<cv::Point2f> region_to_points(const Region& region) {
 
 Image mat_to_image(const cv::Mat& mat) {
 	
+    if (mat.empty())
+        throw std::runtime_error("Unable to convert an empty image");
+
     int format = 0;
     switch(mat.type()) {
     case CV_8UC1:
@@ -100,7 +107,11 @@ Image mat_to_image(const cv::Mat& mat) {
     Image image = Image::create_memory(mat.cols, mat.rows, format);
     char* dst = image.write_memory_row(0);
     cv::Mat tmp(mat.size(), mat.type(), dst);
-    cv::cvtColor(mat, tmp, cv::COLOR_BGR2RGB);
+
+    if (format == TRAX_IMAGE_MEMORY_RGB)
+        cv::cvtColor(mat, tmp, cv::COLOR_BGR2RGB);
+    else
+        mat.copyTo(tmp);
 
     return image;
 }
-- 
2.43.0


From 5794de386662fd16f5658f31e0711fa34ec7942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 081/118] fix: masks with an offset and parts of matrices are
 converted to wrong pixels

---
 support/opencv/opencv.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index 332cd98..abf0d2a 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -139,11 +139,17 @@ cv::Mat region_to_mat(const Region& region) {
     int height, width, x, y;
     region.get_mask_header(&x, &y, &width, &height);
 
-    cv::Mat result(height + y, width + x, CV_8UC1);
+    // Pixels with negative coordinates are not a part of the matrix
+    int top = MAX(0, -y), left = MAX(0, -x);
 
-    for (int i = 0; i < height; i++) {
+    if (height <= top || width <= left)
+        return cv::Mat();
+
+    cv::Mat result = cv::Mat::zeros(height + y, width + x, CV_8UC1);
+
+    for (int i = top; i < height; i++) {
             const char* data = region.get_mask_row(i);
-            memcpy(&(result.data[(i + y) * width + x]), data, width);
+            memcpy(result.ptr(i + y) + x + left, data + left, width - left);
 
     }
     return result;
@@ -155,7 +161,9 @@ Region mat_to_region(const cv::Mat& mat) {
     CV_Assert(mat.type() == CV_8UC1);
 
     Region r = Region::create_mask(0, 0, mat.cols, mat.rows);
-    memcpy(r.write_mask_row(0), mat.data, mat.cols * mat.rows);
+
+    for (int i = 0; i < mat.rows; i++)
+        memcpy(r.write_mask_row(i), mat.ptr(i), mat.cols);
 
     return r;
 
-- 
2.43.0


From 5de4228a6ff107d3007ac6c37aea26a47a2e4f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 082/118] fix: a mask can not be drawn

---
 support/opencv/opencv.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index abf0d2a..2dc4c5d 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -202,14 +202,10 @@ void draw_region(cv::Mat& canvas, const Region& region, cv::Scalar color, int wi
 
             cv::Mat mask = region_to_mat(region);
 
-            int width = MIN(canvas.cols, mask.cols);
-            int height = MIN(canvas.rows, mask.rows);
+            cv::Rect common(0, 0, MIN(canvas.cols, mask.cols), MIN(canvas.rows, mask.rows));
 
-            cv::Mat stencil = cv::Mat::zeros(cv::Size(height, width), CV_8UC3);
-
-            stencil(cv::Range(0, height), cv::Range(0, width)).setTo(color, mask);
-
-            canvas = canvas * (1 - stencil) + stencil;
+            if (common.width > 0 && common.height > 0)
+                canvas(common).setTo(color, mask(common));
 
             break;
         }
-- 
2.43.0


From 951fca84118d84115796a484ef2f31319d61dcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 083/118] fix: the rectangle of a region without geometry is
 not initialised

---
 support/opencv/opencv.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index 2dc4c5d..d26e821 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -56,6 +56,8 @@ cv::Rect region_to_rect(const Region& region) {
 
 	Region trect = region.convert(TRAX_REGION_RECTANGLE);
 
+	if (trect.type() != TRAX_REGION_RECTANGLE) return rect;
+
 	trect.get(&(x), &(y), &(width), &(height));
 
 	rect.x = round(x);
-- 
2.43.0


From fb6b90b5e04119c29c2786b13448167e47842677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 084/118] fix: an image that OpenCV can not read aborts the
 command-line client

---
 support/client/cli.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 364f917..0826bd4 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -377,6 +377,8 @@ Image load_image(string& path, int formats) {
 #ifdef TRAX_BUILD_OPENCV
     case TRAX_IMAGE_MEMORY: {
         cv::Mat cvmat = cv::imread(path);
+        if (cvmat.empty())
+            throw std::runtime_error("Unable to read image " + path);
         image = trax::mat_to_image(cvmat);
         break;
     }
-- 
2.43.0


From 7e7e6df98e71befa50a3604045395884815fcda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 085/118] fix: the Python logger reads beyond the logged text

---
 support/python/trax/__init__.py | 12 ++++++++----
 support/python/trax/_ctypes.py  |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index 20beec5..6e841fc 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -7,9 +7,10 @@ __all__ = \
     'Rectangle', 'Special', 'Mask', 'TraxStatus', 'Properties']
 
 import os
+import codecs
 import traceback
 import weakref
-from ctypes import py_object, c_void_p, cast, byref, POINTER
+from ctypes import py_object, c_void_p, cast, byref, string_at, POINTER
 
 from ._ctypes import \
     trax_properties_create, \
@@ -70,12 +71,13 @@ class Logger(object):
     def __init__(self):
         """ Initialize logger"""
         self._interrupted = False
+        self._decoder = codecs.getincrementaldecoder("utf-8")(errors="replace")
 
     def __call__(self, buffer, length, _):
         """ Call logger with buffer and length, this method is called from C code, handles buffer decoding and calls handle() method. It also handles KeyboardInterrupt exception.
         
         Args:
-            buffer (bytes): buffer to decode
+            buffer (int): address of the buffer to decode, it is not terminated
             length (int): length of the buffer
             _ (ctypes.c_void_p): unused
             
@@ -83,8 +85,10 @@ class Logger(object):
         try:
             if not buffer:
                 return
-            message = buffer[:length].decode("utf-8")
-            self.handle(message)
+            # A character may be split between two calls
+            message = self._decoder.decode(string_at(buffer, length))
+            if message:
+                self.handle(message)
         except KeyboardInterrupt:
             self._interrupted = True
 
diff --git a/support/python/trax/_ctypes.py b/support/python/trax/_ctypes.py
index a4e12e0..6b1bf1d 100644
--- a/support/python/trax/_ctypes.py
+++ b/support/python/trax/_ctypes.py
@@ -600,7 +600,7 @@ struct_trax_bounds._fields_ = [
 
 trax_bounds = struct_trax_bounds# /home/lukacu/Checkouts/vot/trax/include/trax.h: 168
 
-trax_logger = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_int32, ctypes.c_void_p)
+trax_logger = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_int32, ctypes.c_void_p)
 trax_enumerator = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_void_p)
 
 # /home/lukacu/Checkouts/vot/trax/include/trax.h: 181
-- 
2.43.0


From 447334c75fd1876f972b38ff8f4bfb0fa44f3df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 086/118] fix: Python handles use their logger after it is gone

---
 support/python/trax/__init__.py | 9 +++++++--
 support/python/trax/client.py   | 7 ++++---
 support/python/trax/server.py   | 6 +++---
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index 6e841fc..a58aeea 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -300,14 +300,19 @@ class PropertiesWrapper(Wrapper):
 class HandleWrapper(Wrapper):
     """ Wrapper for trax_handle_t structure."""
 
-    def __init__(self, reference, owner=True):
+    def __init__(self, reference, owner=True, logger=None):
         """ Initialize wrapper with reference to trax_handle_t structure.
         
         Args:
             reference (c_void_p): reference to trax_handle_t structure
             owner (bool): whether to take ownership of the structure
+            logger (trax_logger): callback that the structure uses until it is released
         """
-        super().__init__(POINTER(struct_trax_handle), reference, lambda x: trax_cleanup(byref(x)) if owner else None)
+        def finalizer(x, logger=logger):
+            if owner:
+                trax_cleanup(byref(x))
+
+        super().__init__(POINTER(struct_trax_handle), reference, finalizer)
 
 def wrap_image_list(list):
     """ Wrap image list internal C structure into a dictionary of images.
diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 6251107..760fca5 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -68,6 +68,9 @@ class Client(object):
         else:
             raise TraxException("Invalid parameters")
 
+        if handle:
+            self._handle = HandleWrapper(handle, logger=self._clogger)
+
         if self._logger and self._logger.interrupted:
             raise KeyboardInterrupt("Interrupted by user in log callback")
 
@@ -75,12 +78,10 @@ class Client(object):
             raise TraxException("Unable to connect to tracker")
 
         if trax_is_alive(handle) == 0:
-            message = trax_get_error(handle.reference)
+            message = trax_get_error(handle)
             message = message.decode('utf-8') if not message is None else "Unknown"
             raise TraxException("Exception when connecting to tracker: {}".format(message))
 
-        self._handle = HandleWrapper(handle)
-
         metadata = self._handle.reference.contents.metadata
 
         self._format_region = Region.decode_list(metadata.contents.format_region)
diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index b969e5d..b696826 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -78,13 +78,13 @@ class Server(object):
         if not handle:
             raise TraxException("Exception when setting up.")
 
+        self._handle = HandleWrapper(handle, logger=self._logger)
+
         if trax_is_alive(handle) == 0:
-            message = trax_get_error(handle.reference)
+            message = trax_get_error(handle)
             message = message.decode('utf-8') if not message is None else "Unknown"
             raise TraxException("Exception when setting up: {}".format(message))
 
-        self._handle = HandleWrapper(handle)
-
     def wait(self):
         """ Wait for client message request. Recognize it and parse them when received .
 
-- 
2.43.0


From 8c41c24f00c7ca3722710c8701868b61b9a505e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 087/118] fix: a Python client can not send a frame without new
 objects

---
 support/python/trax/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 760fca5..0da72d2 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -234,7 +234,7 @@ class Client(object):
         """
 
         timage = wrap_images(images)
-        tobjects = wrap_objects(objects)
+        tobjects = wrap_objects(objects if not objects is None else [])
         tproperties = Properties(properties)
 
         status = TraxStatus.decode(trax_client_frame(self._handle.reference, timage.reference, tobjects.reference, tproperties.reference))
-- 
2.43.0


From 1cec920a31be87fe70fb52b555ae0b781693abc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 088/118] fix: Python properties can not be read by index

---
 support/python/trax/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index a58aeea..40d5074 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -432,7 +432,7 @@ class Properties(object):
         Args:
             key (str): property key
         """
-        return trax_properties_get(self._ref.reference, key)
+        return self.get(key)
 
     def __setitem__(self, key: str, value: str):
         """ Set a property value.
-- 
2.43.0


From 48d8a5dd52f18dd1acf77bbe846731457f2989b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 089/118] fix: Python properties of a request can not be given
 to a reply

---
 support/python/trax/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index 40d5074..df0f0c0 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -403,6 +403,9 @@ class Properties(object):
             self._ref = PropertiesWrapper(trax_properties_create())
         elif isinstance(data, trax_properties_p):
             self._ref = PropertiesWrapper(data, owner)
+        elif isinstance(data, Properties):
+            self._ref = PropertiesWrapper(trax_properties_create())
+            self.copy(data)
         elif isinstance(data, dict):
             self._ref = PropertiesWrapper(trax_properties_create())
             for key, value in data.items():
-- 
2.43.0


From c418d3d98137d09e63e01d3442caef695e0d50d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 090/118] fix: JPEG and PNG images are confused in Python

---
 support/python/trax/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/python/trax/image.py b/support/python/trax/image.py
index 375c46b..cfa7979 100644
--- a/support/python/trax/image.py
+++ b/support/python/trax/image.py
@@ -314,8 +314,8 @@ class MemoryImage(Image):
             raise TraxException("NumPy is not installed")
 
 
-IMAGE_BUFFER_JPEG = 1
-IMAGE_BUFFER_PNG = 2
+IMAGE_BUFFER_PNG = 1
+IMAGE_BUFFER_JPEG = 2
 
 _image_buffer_map_string = {IMAGE_BUFFER_JPEG : "jpeg", IMAGE_BUFFER_PNG: "png"}
 
-- 
2.43.0


From 0ff667a92c7c1d0bb7a6a14243dcb88e7f1d49b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 091/118] fix: unsupported images abort the Python interpreter

---
 support/python/trax/image.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/support/python/trax/image.py b/support/python/trax/image.py
index cfa7979..f4c930e 100644
--- a/support/python/trax/image.py
+++ b/support/python/trax/image.py
@@ -253,12 +253,15 @@ class MemoryImage(Image):
 
             assert(isinstance(image, np.ndarray))
 
-            image = np.ascontiguousarray(image)
+            image = np.ascontiguousarray(image, dtype=image.dtype.newbyteorder("="))
 
         except ImportError:
             from . import TraxException
             raise TraxException("Numpy is not installed")
 
+        if image.ndim < 2 or image.ndim > 3 or image.size == 0:
+            raise TraxException("Image format not supported")
+
         width = image.shape[1]
         height = image.shape[0]
         format = 0
@@ -328,7 +331,17 @@ class BufferImage(Image):
         Args:
             data: A memory buffer containing the encoded image.
         """
+        from . import TraxException
+
+        # The library only accepts these two formats
+        if len(data) < 5 or not (data.startswith(b"\x89PNG") or data.startswith(b"\xff\xd8\xff")):
+            raise TraxException("Image format not supported")
+
         tbuffer = trax_image_create_buffer(len(data), data)
+
+        if not tbuffer:
+            raise TraxException("Image format not supported")
+
         return BufferImage(tbuffer)
 
     def __str__(self):
-- 
2.43.0


From d769629b57559c1020b04d4ac49467004d1acc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 092/118] fix: Python masks of arrays that are not contiguous
 have wrong contents

---
 support/python/trax/region.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/support/python/trax/region.py b/support/python/trax/region.py
index 230dc2a..a874d07 100644
--- a/support/python/trax/region.py
+++ b/support/python/trax/region.py
@@ -346,8 +346,11 @@ class Mask(Region):
 
         mask = cast(trax_region_create_mask(x, y, source.shape[1], source.shape[0]), c_void_p)
 
-        data = trax_region_write_mask_row(mask, 0)
-        memmove(data, source.ctypes.data, source.nbytes)
+        source = np.ascontiguousarray(source)
+
+        if source.nbytes > 0:
+            data = trax_region_write_mask_row(mask, 0)
+            memmove(data, source.ctypes.data, source.nbytes)
 
         return Mask(mask)
 
-- 
2.43.0


From dc76e97135ba85c7e126dd084abfbbf2d9808a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 093/118] fix: empty Python masks and masks with a negative
 offset can not be read

---
 support/python/trax/region.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/support/python/trax/region.py b/support/python/trax/region.py
index a874d07..0eb1103 100644
--- a/support/python/trax/region.py
+++ b/support/python/trax/region.py
@@ -426,10 +426,14 @@ class Mask(Region):
         trax_region_get_mask_header(self.reference, byref(x), byref(y), byref(width), byref(height))
         mat = np.empty((height.value, width.value), dtype=np.uint8)
 
-        data = trax_region_get_mask_row(self.reference, 0)
-        memmove(mat.ctypes.data, data, mat.nbytes)
+        if mat.nbytes > 0:
+            data = trax_region_get_mask_row(self.reference, 0)
+            memmove(mat.ctypes.data, data, mat.nbytes)
 
         if not normalize:
             return mat
 
-        return np.pad(mat, pad_width=[(y.value, 0), (x.value, 0)], mode='constant')
+        # Pixels with negative coordinates are not part of the array
+        mat = mat[max(0, -y.value):, max(0, -x.value):]
+
+        return np.pad(mat, pad_width=[(max(0, y.value), 0), (max(0, x.value), 0)], mode='constant')
-- 
2.43.0


From 67e5bfafbe1d29d42c66773ae253e528619d1f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 094/118] fix: the Python polygon iterator is not iterable

---
 support/python/trax/region.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/support/python/trax/region.py b/support/python/trax/region.py
index 0eb1103..052b6b8 100644
--- a/support/python/trax/region.py
+++ b/support/python/trax/region.py
@@ -214,6 +214,9 @@ if (sys.version_info > (3, 0)):
             self.position = 0
             self.size = polygon.size()
 
+        def __iter__(self):
+            return self
+
         def __next__(self):
             """Next element in the polygon.
             
-- 
2.43.0


From 7caca811cc763d66a98516ef9589e1544b104bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 095/118] fix: a Python log file needs a directory and is
 changed by the locale

---
 support/python/trax/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index df0f0c0..4b2b3a4 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -126,8 +126,9 @@ class FileLogger(Logger):
             filename (str): name of the file to write messages to
         """
         super().__init__()
-        os.makedirs(os.path.dirname(filename), exist_ok=True)
-        self._fp = open(filename, "w")
+        self._fp = None
+        os.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
+        self._fp = open(filename, "w", encoding="utf-8", newline="")
 
     def handle(self, message: str):
         """ Handle message by writing it to a file.
@@ -139,7 +140,8 @@ class FileLogger(Logger):
 
     def __del__(self):
         """ Close file when logger object is destroyed."""
-        self._fp.close()
+        if self._fp is not None:
+            self._fp.close()
 
 class ProxyLogger(Logger):
     """ Logger that proxies all messages to a callback function. """
-- 
2.43.0


From 6a196f862189d0ad774d0c12de4beedba101b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 096/118] fix: properties of a reply are not sent by the Python
 server

---
 support/python/trax/server.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index b696826..ecd4dd3 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -20,7 +20,8 @@ from ._ctypes import \
         trax_server_wait, trax_server_reply, \
         trax_image_list_release,  \
         trax_logger, trax_terminate, \
-        trax_is_alive, trax_get_error, trax_object_list_release
+        trax_is_alive, trax_get_error, trax_object_list_release, \
+        trax_properties_append, trax_object_list_properties
 
 
 class Request(collections.namedtuple('Request', ['type', 'image', 'objects', 'properties'])):
@@ -136,7 +137,12 @@ class Server(object):
         assert(isinstance(objects, list))
         tproperties = Properties(properties)
         tobjects = wrap_objects(objects)
-        status = TraxStatus.decode(trax_server_reply(self._handle.reference, tobjects.reference, tproperties.reference))
+
+        # The protocol has no properties of a reply, they go with the first object
+        if len(objects) > 0:
+            trax_properties_append(tproperties.reference, trax_object_list_properties(tobjects.reference, 0), 0)
+
+        status = TraxStatus.decode(trax_server_reply(self._handle.reference, tobjects.reference))
 
         if status == TraxStatus.ERROR:
             message = trax_get_error(self._handle.reference)
-- 
2.43.0


From 5250425f6775f576b3e094636eb3293a98f89deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 097/118] fix: a Python server that has quit fails at the end
 of its block

---
 support/python/trax/server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index ecd4dd3..79e185d 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -8,7 +8,7 @@ import collections
 from ctypes import byref, cast, py_object
 
 __all__ = \
-    ['Server', 'Rquest']
+    ['Server', 'Request']
 
 from .image import ImageChannel, Image
 from .region import Region
@@ -167,6 +167,9 @@ class Server(object):
         """ Sends quit message and end terminates communication. """
         from . import TraxException, TraxStatus
 
+        if self._handle is None:
+            return
+
         if not reason is None:
             status = TraxStatus.decode(trax_terminate(self._handle.reference, reason.encode('utf-8')))
         else:
-- 
2.43.0


From cd7eb2db831bd97a3f8ed76e852bfa1379ba9cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 098/118] fix: a Python server without image channels aborts
 the interpreter

---
 support/python/trax/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index 79e185d..983fba0 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -56,6 +56,9 @@ class Server(object):
         else:
             self._logger = trax_logger()
 
+        if not image_channels:
+            raise TraxException("At least one image channel is required")
+
         flags = 0
 
         if multiobject:
-- 
2.43.0


From 0a7ccbaf19bb82fa2bd0e965acbc8c6c1ef29300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 099/118] fix: a Python client without a log can not be created

---
 support/python/trax/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 0da72d2..08fc941 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -45,7 +45,7 @@ class Client(object):
         else:
             self._logger = None
 
-        self._clogger = trax_logger(self._logger) if not self._logger is None else None
+        self._clogger = trax_logger(self._logger) if not self._logger is None else trax_logger()
 
         logger = trax_logger_setup(self._clogger, 0, 0)
 
-- 
2.43.0


From f8229ff10a24c0af3e1841eb31dbe0dc4af8fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 100/118] fix: an empty Python mask aborts the interpreter

---
 support/python/trax/region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/region.py b/support/python/trax/region.py
index 052b6b8..00afe0f 100644
--- a/support/python/trax/region.py
+++ b/support/python/trax/region.py
@@ -345,7 +345,7 @@ class Mask(Region):
         Returns:
             Mask: mask region object
         """
-        assert(len(source.shape) == 2 and source.dtype == np.uint8)
+        assert(len(source.shape) == 2 and source.dtype == np.uint8 and source.size > 0)
 
         mask = cast(trax_region_create_mask(x, y, source.shape[1], source.shape[0]), c_void_p)
 
-- 
2.43.0


From 944cbd3658a97e2af2ac8cb9c956d9e5deb6d811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 101/118] fix: every read of a Python property leaks memory

---
 support/python/trax/__init__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index 4b2b3a4..813386f 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -14,7 +14,7 @@ from ctypes import py_object, c_void_p, cast, byref, string_at, POINTER
 
 from ._ctypes import \
     trax_properties_create, \
-    trax_properties_get, trax_properties_set, trax_object_list, \
+    trax_properties_set, trax_object_list, \
     trax_image_release, trax_region_release, trax_object_list_release, \
     trax_cleanup, trax_properties_release, trax_image_list_release, \
     struct_trax_handle, struct_trax_image, struct_trax_image_list, \
@@ -458,10 +458,8 @@ class Properties(object):
         Returns:
             str: property value
         """
-        value = trax_properties_get(self._ref.reference, key.encode('utf8'))
-        if value == None:
-            return default
-        return value.decode('utf8') if not value is None else None
+        # The string that trax_properties_get returns would have to be released
+        return self.dict().get(key, default)
 
     def set(self, key: str, value: str):
         """ Set a property value.
-- 
2.43.0


From 786abd1042534776bf13db864bb82b75927c6cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 102/118] fix: ending a session without a reason in Octave
 reads beyond the arguments

---
 support/matlab/traxserver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/support/matlab/traxserver.cpp b/support/matlab/traxserver.cpp
index 471b5ff..2bf96fb 100644
--- a/support/matlab/traxserver.cpp
+++ b/support/matlab/traxserver.cpp
@@ -195,9 +195,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         std::string reason;
 
-        if (nrhs > 2)
-            MEX_ERROR("Only one optional string argument allowed.");
-        else
+        if (nrhs > 2) { MEX_ERROR("Only one optional string argument allowed."); return; }
+
+        if (nrhs == 2)
             reason = get_string(prhs[1]);
 
         if (handle->terminate(reason) == TRAX_ERROR) {
-- 
2.43.0


From 74b07c880f9641bdb2a4e90a7be3bd1f8f4b3904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 103/118] fix: a named argument without a value in Octave reads
 beyond the arguments

---
 support/matlab/traxserver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/support/matlab/traxserver.cpp b/support/matlab/traxserver.cpp
index 2bf96fb..c0a8aae 100644
--- a/support/matlab/traxserver.cpp
+++ b/support/matlab/traxserver.cpp
@@ -52,6 +52,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         std::map<std::string, std::string> custom;
 
+        if ( nrhs % 2 == 0 ) { MEX_ERROR("Named arguments require a value."); return; }
+
         if ( nrhs > 3 ) {
 
             for (int i = 3; i < std::floor((float)nrhs/2) * 2; i+=2) {
@@ -116,6 +118,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         if (!handle) { MEX_ERROR("Protocol not initialized."); return; }
 
+        if ( nrhs % 2 == 0 ) { MEX_ERROR("Named arguments require a value."); return; }
+
         if ( nrhs > 1 ) {
 
 			for (int i = 1; i < std::floor((float)nrhs/2) * 2; i+=2) {
-- 
2.43.0


From a742533e209ab3e8fce204fdc3494298bf579f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 104/118] fix: Octave strings: empty ones are refused and other
 values read as garbage

---
 support/matlab/helpers.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 37e4803..7c12036 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -16,7 +16,14 @@ bool is_property_name(const std::string &str) {
 
 string get_string(const mxArray *arg) {
 
-    if (mxGetM(arg) != 1) {
+    if (!arg || !mxIsChar(arg)) {
+        MEX_ERROR("Must be a string");
+        return string();
+    }
+
+    if (mxIsEmpty(arg)) return string();
+
+    if (mxGetNumberOfDimensions(arg) > 2 || mxGetM(arg) != 1) {
         MEX_ERROR("Must be a string");
         return string();
     }
-- 
2.43.0


From 1864a0bff453a58ebc94b554007105814b29c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 105/118] fix: an URL image aborts Octave

---
 support/matlab/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 7c12036..63290ef 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -330,7 +330,7 @@ mxArray* image_to_array(const Image& img) {
         break;
     }
     case TRAX_IMAGE_URL: {
-        std::string s = img.get_path();
+        std::string s = img.get_url();
         const char* cp = s.c_str();
         val = mxCreateCharMatrixFromStrings(1, &cp);
         break;
-- 
2.43.0


From fdeed007f05eb3d56a26577c2858db789332eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 106/118] fix: the documented state operation of the Octave
 server is unknown

---
 support/matlab/traxserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/matlab/traxserver.cpp b/support/matlab/traxserver.cpp
index c0a8aae..fa6873f 100644
--- a/support/matlab/traxserver.cpp
+++ b/support/matlab/traxserver.cpp
@@ -168,7 +168,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         }
 
-    } else if (operation == "status") {
+    } else if (operation == "state" || operation == "status") {
 
         if (!handle) { MEX_ERROR("Protocol not initialized."); return; }
 
-- 
2.43.0


From 9b8f40ed1034c09571ae77abcd9efcdf4f6fb34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 107/118] fix: a mask with a negative offset corrupts the
 memory of Octave

---
 support/matlab/helpers.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 63290ef..d957ffd 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -297,17 +297,21 @@ mxArray* region_to_array(const Region& region) {
         int x, y, width, height;
         region.get_mask_header(&x, &y, &width, &height);
         mwSize dims[2];
-        dims[0] = height + y;
-        dims[1] = width + x;
-        
+        // There is no offset, pixels with negative coordinates are omitted
+        dims[0] = max(0, height + y);
+        dims[1] = max(0, width + x);
+
         val = mxCreateNumericArray(2, dims, mxUINT8_CLASS, mxREAL);
         char *data = (char*) mxGetPr(val);
+
+        if (dims[0] * dims[1] == 0) break;
+
         memset(data, 0, dims[0] * dims[1]);
 
-        for (int i = 0; i < height; i++) {
+        for (int i = max(0, -y); i < height; i++) {
             const char *row = region.get_mask_row(i);
-            for (int j = 0; j < width; j++) {
-                *(data + (j + x) * (height + y) + y + i) = row[j];          
+            for (int j = max(0, -x); j < width; j++) {
+                *(data + (j + x) * (height + y) + y + i) = row[j];
             }
         }
 
-- 
2.43.0


From 8416e00998eda62f4fa4d275cc3b416a8b954887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 108/118] fix: Octave arrays that are no regions are taken for
 regions

---
 support/matlab/helpers.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index d957ffd..cdc059a 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -218,11 +218,16 @@ mxArray* parameters_to_struct(Properties& input) {
 Region array_to_region(const mxArray* input) {
 
     Region p;
+
+    if (!input || mxIsEmpty(input) || mxGetNumberOfDimensions(input) > 2) {
+        MEX_ERROR("Illegal region format.");
+        return p;
+    }
+
     int l = mxGetN(input);
 
     if (mxIsUint8(input)) {
 
-        int i = 0;
         int width = l;
         int height = mxGetM(input);
         char *r = (char*)mxGetPr(input);
@@ -237,7 +242,7 @@ Region array_to_region(const mxArray* input) {
         }
 
         return p;
-    } else if (mxGetClassID(input) == mxDOUBLE_CLASS) {
+    } else if (mxGetClassID(input) == mxDOUBLE_CLASS && mxGetM(input) == 1) {
         double *r = (double*)mxGetPr(input);
 
         if (l % 2 == 0 && l >= 6) {
@@ -259,6 +264,7 @@ Region array_to_region(const mxArray* input) {
     }
 
     MEX_ERROR("Illegal region format.");
+    return p;
 
 }
 
-- 
2.43.0


From b128434e9d391ca7a9617e2e5461719e3737a64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 109/118] fix: Octave parameters that are neither strings nor
 numbers are read as garbage

---
 support/matlab/helpers.cpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index cdc059a..d9d550c 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -47,6 +47,19 @@ mxArray* set_string(const char* str) {
 
 }
 
+static void set_parameter(Properties& prop, const char* name, const mxArray* value) {
+
+    if (value && mxIsChar(value)) {
+        string s = get_string(value);
+        prop.set(name, s.c_str());
+    } else if (value && !mxIsEmpty(value) && (mxIsNumeric(value) || mxIsLogical(value))) {
+        prop.set(name, (float) mxGetScalar(value));
+    } else {
+        MEX_ERROR("Parameter values can only be strings or numbers.");
+    }
+
+}
+
 Properties struct_to_parameters(const mxArray * input) {
 
     if (!mxIsStruct(input)) {
@@ -60,14 +73,7 @@ Properties struct_to_parameters(const mxArray * input) {
 
         const char* name = mxGetFieldNameByNumber(input, i);
 
-        mxArray * value = mxGetFieldByNumber(input, 0, i);
-
-        if (mxIsChar(value)) {
-            string s = get_string(value);
-            prop.set(name, s.c_str());
-        } else {
-            prop.set(name, (float) mxGetScalar(value));
-        }
+        set_parameter(prop, name, mxIsEmpty(input) ? NULL : mxGetFieldByNumber(input, 0, i));
     }
 
     return prop;
@@ -96,12 +102,7 @@ Properties cell_to_parameters(const mxArray * input) {
 
         string skey = get_string(key);
 
-        if (mxIsChar(value)) {
-            string s = get_string(value);
-            prop.set(skey.c_str(), s.c_str());
-        } else {
-            prop.set(skey.c_str(), (float) mxGetScalar(value));
-        }
+        set_parameter(prop, skey.c_str(), value);
 
     }
 
-- 
2.43.0


From d96bd82c234f76b528acd97b50961196e4c52dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 110/118] fix: cell arrays with several parameters are refused
 in Octave

---
 support/matlab/helpers.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index d9d550c..d7eaef8 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -87,14 +87,15 @@ Properties cell_to_parameters(const mxArray * input) {
     }
 
     int length = mxGetM(input);
-    int n = mxGetN(input);
 
-    if ( min(mxGetM(input), mxGetN(input)) != 1 ) {
-        MEX_ERROR("Array must be a vector");
-    }
+    Properties prop;
 
+    if (mxIsEmpty(input)) return prop;
 
-    Properties prop;
+    if ( mxGetNumberOfDimensions(input) > 2 || mxGetN(input) != 2 ) {
+        MEX_ERROR("Parameters have to be a N x 2 cell array.");
+        return prop;
+    }
 
     for (int i = 0; i < length; i++) {
         mxArray* key = mxGetCell(input, i);
-- 
2.43.0


From d8818d7392ab72a6c74624fb444ea5023a664af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 111/118] fix: an empty image aborts Octave

---
 support/matlab/helpers.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index d7eaef8..8cf2491 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -469,6 +469,11 @@ mxArray* images_to_array(const ImageList& img) {
 
 Image array_to_image(const mxArray* arr) {
 
+	if (!arr || mxIsEmpty(arr)) {
+		MEX_ERROR("Illegal image format, empty image");
+		return Image();
+	}
+
 	int ndims = mxGetNumberOfDimensions(arr);
 	const mwSize* dims = mxGetDimensions(arr);
 
-- 
2.43.0


From 8652d26e1b656724218887ec09890bb61c1e0090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 112/118] fix: the Octave client reports properties of earlier
 replies again

---
 support/matlab/traxclient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/matlab/traxclient.cpp b/support/matlab/traxclient.cpp
index d10a6d6..3c3031b 100644
--- a/support/matlab/traxclient.cpp
+++ b/support/matlab/traxclient.cpp
@@ -450,6 +450,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
 			}
 
+			st.properties.clear();
+
 			// Start timing a frame
 			timer_state begin = timer_clock();
 
-- 
2.43.0


From 9336a102b3d9cb7570c93c86cb7374ee9e9400c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 113/118] fix: encoded images can not be sent from Octave

---
 support/matlab/helpers.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 8cf2491..32a2399 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -549,6 +549,30 @@ Image array_to_image(const mxArray* arr) {
 		return img;
 	}
 
+	if (mxIsStruct(arr)) {
+
+		const mxArray* data = mxGetField(arr, 0, "data");
+
+		if (!data || !mxIsUint8(data) || mxIsEmpty(data)) {
+			MEX_ERROR("Illegal image format, encoded data has to be a uint8 array");
+			return Image();
+		}
+
+		int length = (int) mxGetNumberOfElements(data);
+		const unsigned char *bytes = (const unsigned char*) mxGetPr(data);
+
+		bool jpeg = length > 4 && bytes[0] == 0xFF && bytes[1] == 0xD8 && bytes[2] == 0xFF;
+		bool png = length > 4 && memcmp(bytes, "\x89PNG", 4) == 0;
+
+		if (!jpeg && !png) {
+			MEX_ERROR("Illegal image format, not JPEG or PNG data");
+			return Image();
+		}
+
+		return Image::create_buffer(length, (const char*) bytes);
+
+	}
+
 	MEX_ERROR("Unable to determine image type");
     return Image();
 }
-- 
2.43.0


From cd3edb697cf1192c3644d9646e044fc50640f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 114/118] fix: the Octave client sends an URL as a path

---
 support/matlab/helpers.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 32a2399..2596d8c 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -482,7 +482,12 @@ Image array_to_image(const mxArray* arr) {
 			MEX_ERROR("Illegal image format, not a valid path or URL");
 
 		string pth = get_string(arr);
-		// TODO: determine if path is url
+
+		size_t scheme = pth.find("://");
+
+		if (scheme != string::npos && scheme > 0 && pth.compare(0, scheme, "file") != 0
+		        && find_if(pth.begin(), pth.begin() + scheme, is_not_alnum_dot_dash) == pth.begin() + scheme)
+			return Image::create_url(pth);
 
 		return Image::create_path(pth);
 
-- 
2.43.0


From ee512c60fdf64ddda25f4f2ca773519a03be3c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 115/118] fix: the session that is replaced by another setup in
 Octave is leaked

---
 support/matlab/traxserver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/support/matlab/traxserver.cpp b/support/matlab/traxserver.cpp
index fa6873f..2cd5689 100644
--- a/support/matlab/traxserver.cpp
+++ b/support/matlab/traxserver.cpp
@@ -99,6 +99,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
 #endif
 
+        // Only one session at a time
+        if (handle) delete handle;
+        handle = NULL;
+
         handle = new Server(metadata, trax_no_log);
 
         if (!handle)
@@ -106,6 +110,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         if (!handle->is_alive()) {
             std::string tmp("Unable to initialize protocol: " + handle->get_error());
+            delete handle;
+            handle = NULL;
             MEX_ERROR(tmp.c_str());
         }
 
-- 
2.43.0


From c6f4b79e9f25894eea64e051e53c36409477dafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 116/118] fix: trackers that are started at once in different
 threads get each other's directory and streams

---
 support/client/process.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index 5ea58fa..382b5e9 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -376,6 +376,11 @@ bool Process::start() {
 
         if (pid) return false;
 
+        // The working directory and the descriptors that are inherited belong to the entire client,
+        // so trackers that are started in different threads have to be launched one after another.
+        static Mutex launch_mutex;
+        Lock launch_lock(launch_mutex);
+
         if (create_pipe(out) == -1 || create_pipe(in) == -1 || create_pipe(err) == -1) {
             cleanup();
             std::cerr << "Error: unable to configure process streams" << std::endl;
-- 
2.43.0


From 08355417e881dc23ae8bf02779d84e1a1ffd0844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:18 +0000
Subject: [PATCH 117/118] fix: sockets and streams with descriptors above the
 limit of select corrupt the stack or stop the log

---
 src/message.c             | 76 ++++++++++++++++++++++++--------
 support/client/client.cpp | 91 +++++++++++++++++++++++----------------
 2 files changed, 111 insertions(+), 56 deletions(-)

diff --git a/src/message.c b/src/message.c
index 16507f3..104747e 100644
--- a/src/message.c
+++ b/src/message.c
@@ -52,7 +52,9 @@ static void initialize_sockets(void) {
 
 #include <sys/socket.h>
 #include <unistd.h>
-#include <sys/select.h>
+#include <poll.h>
+#include <limits.h>
+#include <time.h>
 #include <arpa/inet.h>
 #include <netinet/tcp.h>
 #define closesocket close
@@ -181,16 +183,65 @@ message_stream* create_message_stream_socket_connect(int port) {
 
 }
 
+#if !(defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER))
+
+static long long monotonic_milliseconds(void) {
+    struct timespec now;
+    clock_gettime(CLOCK_MONOTONIC, &now);
+    return (long long) now.tv_sec * 1000 + now.tv_nsec / 1000000;
+}
+
+#endif
+
+// Waits for a connection, without a limit if the timeout is negative
+static int wait_connection(int server, int timeout) {
+
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+
+    fd_set readfds, exceptfds;
+    struct timeval tv;
+    tv.tv_sec = timeout;
+    tv.tv_usec = 0;
+
+    FD_ZERO(&readfds);
+    FD_ZERO(&exceptfds);
+    FD_SET(server,&readfds);
+    FD_SET(server,&exceptfds);
+
+    return select(server+1,&readfds,NULL,&exceptfds,timeout < 0 ? NULL : &tv) > 0 && FD_ISSET(server,&readfds);
+
+#else
+
+    // In contrast to select, the value of the descriptor is not limited
+    struct pollfd descriptor;
+    long long deadline = monotonic_milliseconds() + (long long) timeout * 1000;
+    int ready;
+
+    descriptor.fd = server;
+    descriptor.events = POLLIN;
+    descriptor.revents = 0;
+
+    do {
+        long long remaining = timeout < 0 ? -1 : deadline - monotonic_milliseconds();
+
+        if (timeout >= 0 && remaining < 0) remaining = 0;
+        if (remaining > INT_MAX) remaining = INT_MAX;
+
+        errno = 0;
+        ready = poll(&descriptor, 1, (int) remaining);
+    } while (ready < 0 && errno == EINTR);
+
+    return ready > 0 && (descriptor.revents & POLLIN);
+
+#endif
+
+}
+
 message_stream* create_message_stream_socket_accept(int server, int timeout) {
 
-	fd_set readfds,writefds,exceptfds;
 	int asock=-1;
-    int ready;
     int one = 1;
     message_stream* stream = NULL;
-    struct timeval tv;
-    tv.tv_sec = timeout;
-    tv.tv_usec = 0;
 
 	initialize_sockets();
  
@@ -199,18 +250,7 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
 		return NULL;
 	}
 
-    do {
-        FD_ZERO(&readfds);
-        FD_ZERO(&writefds);
-        FD_ZERO(&exceptfds);
-        FD_SET(server,&readfds);
-        FD_SET(server,&exceptfds);
-
-        errno = 0;
-        ready = select(server+1,&readfds,&writefds,&exceptfds,timeout < 0 ? NULL : &tv);
-    } while (ready < 0 && errno == EINTR);
-
-	if(ready > 0 && FD_ISSET(server,&readfds)) {
+	if(wait_connection(server, timeout)) {
 		struct sockaddr_in pin;
 		int addrlen = sizeof(struct sockaddr_in);
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER) 
diff --git a/support/client/client.cpp b/support/client/client.cpp
index 6527439..b64f794 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -57,7 +57,7 @@ __inline void sleep(long time) {
 //#else
 #include <sys/socket.h>
 #include <unistd.h>
-#include <sys/select.h>
+#include <poll.h>
 #include <fcntl.h>
 #include <arpa/inet.h>
 #include <netinet/tcp.h>
@@ -215,21 +215,65 @@ void destroy_server_socket(int server) {
 
 }
 
+// Waits until something can be read from any of the streams
+void wait_streams(const int* fds, bool* ready, int count, float timeout) {
+
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+
+	fd_set readfds;
+	struct timeval tv;
+	int last = -1;
+
+	tv.tv_sec = 0;
+	tv.tv_usec = (long) (timeout * 1000000.0);
+
+	FD_ZERO(&readfds);
+
+	for (int i = 0; i < count; i++) {
+		ready[i] = false;
+		if (fds[i] < 0) continue;
+		FD_SET(fds[i], &readfds);
+		if (fds[i] > last) last = fds[i];
+	}
+
+	if (select(last + 1, &readfds, NULL, NULL, &tv) < 0) return;
+
+	for (int i = 0; i < count; i++) {
+		if (fds[i] >= 0) ready[i] = FD_ISSET(fds[i], &readfds);
+	}
+
+#else
+
+	// In contrast to select, the value of a descriptor is not limited
+	vector<struct pollfd> descriptors(count);
+
+	for (int i = 0; i < count; i++) {
+		ready[i] = false;
+		descriptors[i].fd = fds[i]; // Negative ones are ignored
+		descriptors[i].events = POLLIN;
+		descriptors[i].revents = 0;
+	}
+
+	if (poll(&descriptors[0], count, (int) (timeout * 1000.0)) < 0) return;
+
+	for (int i = 0; i < count; i++) {
+		ready[i] = descriptors[i].revents != 0;
+	}
+
+#endif
+
+}
+
 // Closes connections that were not accepted, they belong to processes that do not exist any more
 void discard_connections(int server) {
 
 	while (true) {
 
-		fd_set readfds;
-		struct timeval tv;
-
-		tv.tv_sec = 0;
-		tv.tv_usec = 0;
+		bool ready = false;
 
-		FD_ZERO(&readfds);
-		FD_SET(server, &readfds);
+		wait_streams(&server, &ready, 1, 0);
 
-		if (select(server + 1, &readfds, NULL, NULL, &tv) < 1) return;
+		if (!ready) return;
 
 		int sid = (int) accept(server, NULL, NULL);
 
@@ -284,35 +328,6 @@ bool line_buffer_flush(line_buffer& buffer, ostream* out) {
 	return true;
 }
 
-
-// Waits until something can be read from any of the streams
-void wait_streams(const int* fds, bool* ready, int count, float timeout) {
-
-	fd_set readfds;
-	struct timeval tv;
-	int last = -1;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = (long) (timeout * 1000000.0);
-
-	FD_ZERO(&readfds);
-
-	for (int i = 0; i < count; i++) {
-		ready[i] = false;
-		if (fds[i] < 0 || fds[i] >= FD_SETSIZE) continue;
-		FD_SET(fds[i], &readfds);
-		if (fds[i] > last) last = fds[i];
-	}
-
-	if (select(last + 1, &readfds, NULL, NULL, &tv) < 0) return;
-
-	for (int i = 0; i < count; i++) {
-		// Streams that can not be waited for are read directly
-		if (fds[i] >= 0) ready[i] = fds[i] >= FD_SETSIZE || FD_ISSET(fds[i], &readfds);
-	}
-
-}
-
 namespace trax {
 
 static int next_available_socket_port = TRAX_DEFAULT_PORT;
-- 
2.43.0


From 074cc33324f3f55ef8e5b27b0ee158091f3a6187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:06 +0000
Subject: [PATCH 118/118] fix: results of a server wait do not depend on what
 the caller's variables held before

---
 src/trax.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index 24a2948..2eee5de 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1187,6 +1187,9 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
     string_list* arguments;
     trax_properties* tmp_properties;
 
+    *images = NULL;
+    *region = NULL;
+
     VALIDATE_SERVER_HANDLE(server);
 
     clear_error(server);
@@ -1326,6 +1329,7 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
     clear_error(server);
 
+    *images = NULL;
     *objects = NULL;
 
     if (!HANDLE_ALIVE(server)) {
-- 
2.43.0

