From 18417ded62235408bee89d40d58d621f25e51086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 001/112] fix: bytes above 127 on the channel were taken for
 the end of the stream

---
 src/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 8be8510..190dd89 100644
--- a/src/message.c
+++ b/src/message.c
@@ -264,7 +264,7 @@ void destroy_message_stream(message_stream** stream) {
 }
 
 static __INLINE int read_character(message_stream* stream) {
-    char chr;
+    unsigned char chr;
 
     if (stream->buffer_position >= stream->buffer_length) {
 
-- 
2.43.0


From e87f8ee37325a1d8f27429186a2142cbcde61440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 002/112] fix: the type of the previous message was reported
 again when the stream ended

---
 src/message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/message.c b/src/message.c
index 190dd89..922e4f4 100644
--- a/src/message.c
+++ b/src/message.c
@@ -304,6 +304,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
 	VALIDATE_MESSAGE_STREAM(stream);
 
     list_reset(arguments);
+    stream->input.message_type = -1;
 
     while (!stream->input.complete) {
 
-- 
2.43.0


From f2799cc3e4073fd8309cb3d2f1bae004c353e73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 003/112] fix: the line after an ignored message that ends
 early was ignored as well

---
 src/message.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/message.c b/src/message.c
index 922e4f4..b9f51ce 100644
--- a/src/message.c
+++ b/src/message.c
@@ -349,7 +349,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     free(key_tmp);
 
                     if (stream->input.message_type == -1) {
-                		stream->input.state = PARSE_STATE_PASS;
+                		stream->input.state = -prefix_length; // The line has already ended
                 		stream->input.message_type = -1;
                     } else {
                         stream->input.complete = TRUE;
@@ -476,7 +476,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	buffer_push(stream->input.key_buffer, chr);
                     stream->input.state = PARSE_STATE_UNQUOTED_KEY;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
+                    stream->input.state = -prefix_length; // The line has already ended
                     stream->input.message_type = -1;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
@@ -495,7 +495,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     buffer_push(stream->input.value_buffer, chr);
                     stream->input.state = PARSE_STATE_UNQUOTED_VALUE;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
+                    stream->input.state = -prefix_length; // The line has already ended
                     stream->input.message_type = -1;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
@@ -559,7 +559,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	buffer_push(stream->input.key_buffer, chr);
                     stream->input.state = PARSE_STATE_QUOTED_KEY;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
+                    stream->input.state = -prefix_length; // The line has already ended
                     stream->input.message_type = -1;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
@@ -578,7 +578,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     buffer_push(stream->input.value_buffer, chr);
                     stream->input.state = PARSE_STATE_QUOTED_VALUE;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
+                    stream->input.state = -prefix_length; // The line has already ended
                     stream->input.message_type = -1;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
-- 
2.43.0


From da9081017481819e9aac510c7fd3cc405d912d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 004/112] fix: a malformed message left its arguments and a
 character of its text to the next one

---
 src/message.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index b9f51ce..ad86710 100644
--- a/src/message.c
+++ b/src/message.c
@@ -376,7 +376,6 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	stream->input.state = PARSE_STATE_PASS;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
-                    buffer_push(stream->input.key_buffer, chr);             	
                 }
 
                 break;
@@ -598,6 +597,12 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
             default: { // Parsing prefix
 
                 if (stream->input.state < 0) {
+                    if (stream->input.state == -prefix_length) {
+                        // A new line, forget anything that a malformed message has left behind
+                        list_reset(arguments);
+                        if (trax_properties_count(properties) > 0)
+                            trax_properties_clear(properties);
+                    }
                     if (chr == TRAX_PREFIX[prefix_length + stream->input.state])
                     	// When done, go to type parsing
                         stream->input.state++; 
-- 
2.43.0


From 41f918a6d4c8012888a9ea0a14b22fe3d0955ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 005/112] fix: a line end that was never received was logged at
 the end of the stream

---
 src/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index ad86710..06f70f5 100644
--- a/src/message.c
+++ b/src/message.c
@@ -317,7 +317,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
     		stream->input.complete = TRUE;
     	} else chr = (char) val;
 
-        LOG_CHAR(log, chr);
+        if (val >= 0) LOG_CHAR(log, chr);
 
         switch (stream->input.state) {
             case PARSE_STATE_TYPE: { // Parsing message type
-- 
2.43.0


From ad5f4df0e5301dce3c1e212eea677258a7e5be8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:15 +0000
Subject: [PATCH 006/112] fix: error messages with numbers were formatted from
 garbage

---
 src/buffer.h | 21 +++++++++++++++++++++
 src/trax.c   |  2 +-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/buffer.h b/src/buffer.h
index a85c769..c93dfcc 100644
--- a/src/buffer.h
+++ b/src/buffer.h
@@ -11,6 +11,7 @@
 #define __INLINE inline
 #endif
 
+#include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
 #include <stdarg.h>
@@ -107,6 +108,26 @@ static __INLINE void buffer_append(string_buffer* B, const char *format, ...) {
 
 }
 
+static __INLINE void buffer_append_v(string_buffer* B, const char *format, va_list args) {
+
+	int required;
+	va_list copy;
+
+	va_copy(copy, args);
+	required = vsnprintf(NULL, 0, format, copy);
+	va_end(copy);
+
+	if (required < 0) return;
+
+	if (required >= B->size - B->position) {
+		B->size = B->position + required + 1;
+		B->buffer = (char*) realloc(B->buffer, sizeof(char) * B->size);
+	}
+
+	B->position += vsnprintf(&(B->buffer[B->position]), B->size - B->position, format, args);
+
+}
+
 static __INLINE string_list* list_create(int L) {
 	string_list* B = (string_list*) malloc(sizeof(string_list));
 	B->size = L;
diff --git a/src/trax.c b/src/trax.c
index 9e8286f..1f77580 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -543,7 +543,7 @@ void set_error(trax_handle* handle, const char *format, ...) {
 
 	va_start(args, format);
 	
-    buffer_append(buffer, format, args);
+    buffer_append_v(buffer, format, args);
 
 	va_end(args);
 
-- 
2.43.0


From bd860c62167b25ccb7889e21945c245d4853b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 007/112] fix: appending properties always replaced existing
 keys

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 1f77580..455bf95 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -520,8 +520,8 @@ void channels_encode(int channels, char *key) {
 void copy_properties(const trax_properties* source, trax_properties* dest, int flags) {
 
     trax_enumerator f = (flags & COPY_ALL) ?
-     ((flags && COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
-     ((flags && COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
+     ((flags & COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
+     ((flags & COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
     
     trax_properties_enumerate(source, f, dest);
 
-- 
2.43.0


From a21dd8005dca500e79dd3c9be8e2679969c7b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 008/112] fix: rows of a raw image overlapped

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 455bf95..d8a5adc 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1663,7 +1663,7 @@ char* trax_image_write_memory_row(trax_image* image, int row) {
     depth = MEMORY_DEPTH(image);
     channels = MEMORY_CHANNELS(image);
 
-    return &(image->data[depth * channels * row]);
+    return &(image->data[(size_t) depth * channels * image->width * row]);
 }
 
 const char* trax_image_get_memory_row(const trax_image* image, int row) {
@@ -1676,7 +1676,7 @@ const char* trax_image_get_memory_row(const trax_image* image, int row) {
     depth = MEMORY_DEPTH(image);
     channels = MEMORY_CHANNELS(image);
 
-    return &(image->data[depth * channels * row]);
+    return &(image->data[(size_t) depth * channels * image->width * row]);
 }
 
 const char* trax_image_get_buffer(const trax_image* image, int* length, int* format) {
-- 
2.43.0


From 56c62dce42948109275ecc952d724069f8799092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 009/112] fix: a received URL was cut off at its scheme

---
 src/trax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index d8a5adc..910c134 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -364,7 +364,7 @@ trax_image* image_decode(char* buffer) {
         result->data = (char*) malloc(sizeof(char) * (outlen));
         base64decode((unsigned char*)result->data, resource);
     } else {
-        *(resource--) = ':'; // Restore the semicolon and use the buffer as URL
+        *(--resource) = ':'; // Restore the semicolon and use the buffer as URL
         result = trax_image_create_url(buffer);
     }
     return result;
-- 
2.43.0


From ba9ae378ca4320e6e541375c06f366371ff34d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 010/112] fix: the decoded length of malformed base64 text was
 wrong, a decoder could write past its buffer

---
 src/base64.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index b432bf3..d2b54a1 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -87,15 +87,13 @@ static const unsigned char pr2six[256] =
 
 int base64decodelen(const char *bufcoded) {
 
-    size_t len = strlen(bufcoded),
-        padding = 0;
+    // Only the valid characters at the beginning are going to be decoded
+    const unsigned char *bufin = (const unsigned char *) bufcoded;
+    size_t len = 0;
 
-    if (bufcoded[len-1] == '=' && bufcoded[len-2] == '=') //last two chars are =
-        padding = 2;
-    else if (bufcoded[len-1] == '=') //last char is =
-        padding = 1;
+    while (pr2six[bufin[len]] <= 63) len++;
 
-    return ((len*3)/4 - padding) + 1;
+    return (len / 4) * 3 + ((len % 4) * 3) / 4 + 1;
 }
 
 int base64decode(unsigned char *bufplain, const char *bufcoded) {
-- 
2.43.0


From 2834b4016ef15e4f78e9c57f84d617b6ea5066d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 011/112] fix: decoding a raw image wrote past its pixels and
 trusted its declared size and format

---
 src/trax.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 910c134..5a4b936 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -312,7 +312,8 @@ trax_image* image_decode(char* buffer) {
     if (strcmp(buffer, "file") == 0) {
         result = trax_image_create_path(buffer + (compare_prefix(resource, "//") ? 7 : 5));
     } else if (strcmp(buffer, "image") == 0) {
-        int outlen, width, height, depth, format, channels, allocated, verify;
+        long width, height;
+        int outlen, depth, format, channels;
         char* token;
 
         width = strtol(resource, &resource, 10);
@@ -324,6 +325,7 @@ trax_image* image_decode(char* buffer) {
 
         if (!resource) return NULL;
         format = decode_memory_format(token);
+        if (format == TRAX_IMAGE_MEMORY_ILLEGAL) return NULL;
 
         outlen = base64decodelen(resource) - 1;
 
@@ -331,19 +333,17 @@ trax_image* image_decode(char* buffer) {
                 (format == TRAX_IMAGE_MEMORY_GRAY8 ? 1 :
                  (format == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 0));
         channels = format == TRAX_IMAGE_MEMORY_RGB ? 3 : 1;
-        allocated =  (width * height * depth * channels);
 
-        if (width < 1 || height < 1 || outlen != allocated) return result;
+        if (width < 1 || height < 1 || width > outlen || height > outlen) return result;
+        if ((long long) width * height * depth * channels != outlen) return result;
 
         result = (trax_image*) malloc(sizeof(trax_image));
         result->type = TRAX_IMAGE_MEMORY;
         result->width = width;
         result->height = height;
         result->format = format;
-        result->data = (char*) malloc(sizeof(char) * allocated);
-        verify = base64decode((unsigned char*)result->data, resource);
-
-        assert(verify == allocated);
+        result->data = (char*) malloc(sizeof(char) * (outlen + 1)); // Decoder appends a zero
+        base64decode((unsigned char*)result->data, resource);
 
     } else if (strcmp(buffer, "data") == 0) {
         int format, outlen;
-- 
2.43.0


From b40267b4634f3e6bd0233b5c51f9cd96f5af0ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 012/112] fix: an encoded image arrived one byte longer and in
 an unknown format

---
 src/trax.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 5a4b936..2d9e064 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -353,7 +353,8 @@ trax_image* image_decode(char* buffer) {
         resource = strntok(token, ';', 32);
         if (!resource) return NULL;
         format = decode_buffer_format(token);
-        outlen = base64decodelen(resource);
+        if (format == TRAX_IMAGE_BUFFER_ILLEGAL) return NULL;
+        outlen = base64decodelen(resource) - 1;
 
         result = (trax_image*) malloc(sizeof(trax_image));
         result->type = TRAX_IMAGE_BUFFER;
@@ -361,7 +362,7 @@ trax_image* image_decode(char* buffer) {
         result->height = 1;
         result->format = format;
 
-        result->data = (char*) malloc(sizeof(char) * (outlen));
+        result->data = (char*) malloc(sizeof(char) * (outlen + 1)); // Decoder appends a zero
         base64decode((unsigned char*)result->data, resource);
     } else {
         *(--resource) = ':'; // Restore the semicolon and use the buffer as URL
-- 
2.43.0


From 8854d2f2abedfbef36187e45435057142f0d0f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 013/112] fix: an empty property was read as an undefined
 number instead of the default

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 2d9e064..395bc49 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1999,7 +1999,7 @@ int trax_properties_has(const trax_properties* properties, const char* key) {
 int trax_properties_get_int(const trax_properties* properties, const char* key, int def) {
 
     char* end;
-    long ret;
+    long ret = def;
     char* value = trax_properties_get(properties, key);
 
     if (value == NULL) return def;
@@ -2018,7 +2018,7 @@ int trax_properties_get_int(const trax_properties* properties, const char* key,
 float trax_properties_get_float(const trax_properties* properties, const char* key, float def) {
 
     char* end;
-    float ret;
+    float ret = def;
     char* value = trax_properties_get(properties, key);
 
     if (value == NULL) return def;
-- 
2.43.0


From 9a4f642a374a54d2eb3c208904602ae390456e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 014/112] fix: image list accepted a channel past its end

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 395bc49..2660c13 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2171,14 +2171,14 @@ void trax_image_list_release(trax_image_list** list) {
 
 trax_image* trax_image_list_get(const trax_image_list* list, int channel) {
     int i = TRAX_CHANNEL_INDEX(channel);
-    if (i < 0 || i > TRAX_CHANNELS) return NULL;
+    if (i < 0 || i >= TRAX_CHANNELS) return NULL;
 
     return list->images[i];
 }
 
 void trax_image_list_set(trax_image_list* list, trax_image* image, int channel) {
     int i = TRAX_CHANNEL_INDEX(channel);
-    if (i < 0 || i > TRAX_CHANNELS) return;
+    if (i < 0 || i >= TRAX_CHANNELS) return;
 
     list->images[i] = image;
 }
-- 
2.43.0


From 178a4348a94f4a6283a9db866ebb1c81e3d15744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 015/112] fix: polygon point index was not checked

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 2660c13..927532b 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1829,7 +1829,7 @@ void trax_region_set_polygon_point(trax_region* region, int index, float x, floa
 
     assert(REGION(region)->type == POLYGON);
 
-    assert(index >= 0 || index < (REGION(region)->data.polygon.count));
+    assert(index >= 0 && index < (REGION(region)->data.polygon.count));
 
     REGION(region)->data.polygon.x[index] = x;
     REGION(region)->data.polygon.y[index] = y;
@@ -1839,7 +1839,7 @@ void trax_region_get_polygon_point(const trax_region* region, int index, float*
 
     assert(REGION(region)->type == POLYGON);
 
-    assert (index >= 0 || index < (REGION(region)->data.polygon.count));
+    assert (index >= 0 && index < (REGION(region)->data.polygon.count));
 
     if (x) *x = REGION(region)->data.polygon.x[index];
     if (y) *y = REGION(region)->data.polygon.y[index];
-- 
2.43.0


From 36f5627b8675401c0fd564d47617e3bcda6e64e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 016/112] fix: a hello message without formats crashed the
 client instead of using the defaults

---
 src/trax.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 927532b..2d2b98b 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -591,11 +591,11 @@ trax_handle* client_setup(message_stream* stream, const trax_logging log) {
     client->version = trax_properties_get_int(tmp_properties, "trax.version", 1);
 
     tmp = trax_properties_get(tmp_properties, "trax.region");
-    region_formats = region_formats_decode(tmp);
+    region_formats = tmp ? region_formats_decode(tmp) : TRAX_REGION_RECTANGLE;
     free(tmp);
 
     tmp = trax_properties_get(tmp_properties, "trax.image");
-    image_formats = image_formats_decode(tmp);
+    image_formats = tmp ? image_formats_decode(tmp) : TRAX_IMAGE_PATH;
     free(tmp);
 
     // Multiple channels are only supported in TraX protocol version 2
@@ -603,7 +603,7 @@ trax_handle* client_setup(message_stream* stream, const trax_logging log) {
         channels = TRAX_CHANNEL_COLOR;
     } else {
         tmp = trax_properties_get(tmp_properties, "trax.channels");
-        channels = channels_decode(tmp);
+        channels = tmp ? channels_decode(tmp) : TRAX_CHANNEL_COLOR;
         free(tmp);
         if (channels == 0)
             channels = TRAX_CHANNEL_COLOR;
-- 
2.43.0


From c35df751c5443c224e90281008b33bee60daeef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 017/112] fix: a refused handshake leaked its stream

---
 src/trax.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trax.c b/src/trax.c
index 2d2b98b..9786610 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -638,6 +638,7 @@ failure:
 
     list_destroy(&arguments);
     trax_properties_release(&tmp_properties);
+    destroy_message_stream(&stream);
     free(client);
     return NULL;
 
-- 
2.43.0


From df6a47348c4b2a1a411142932135708877d1b582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 018/112] fix: metadata flags of a legacy server were undefined

---
 src/trax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 9786610..ce3a55e 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -688,8 +688,8 @@ trax_handle* server_setup(trax_metadata *metadata, message_stream* stream, const
     if (metadata->tracker_family)
         trax_properties_set(properties, "trax.family", metadata->tracker_family);
 
+    flags = 0;
     if (IS_VERSION_4(server)) {
-        flags = 0;
         if (metadata->flags & TRAX_METADATA_MULTI_OBJECT) {
             flags |= TRAX_METADATA_MULTI_OBJECT;
             trax_properties_set_int(properties, "trax.multiobject", 1);
-- 
2.43.0


From 5cfcf1789ada052b2dfccaa744189eacbd8464e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 019/112] fix: client wait handed out unrelated messages and
 empty lists as states, and errors had no message

---
 src/trax.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index ce3a55e..936780e 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -779,11 +779,18 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
 
     VALIDATE_CLIENT_HANDLE(client);
 
+    clear_error(client);
+
     if (!HANDLE_ALIVE(client)) {
         set_error(client, "Tracker not alive");
         return TRAX_ERROR;
     }
 
+    if (client->objects < 1) {
+        set_error(client, "No objects to wait for");
+        return TRAX_ERROR;
+    }
+
     (*objects) = trax_object_list_create(client->objects);
 
     for (int i = 0; i < client->objects; i++) {
@@ -797,6 +804,7 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
             region_container *_region = NULL;
 
             if (list_size(arguments) != 1) {
+                set_error(client, "Protocol error, illegal argument number %d != %d", list_size(arguments), 1);
                 list_destroy(&arguments);
                 trax_properties_release(&tmp_properties);
                 trax_object_list_release(objects);
@@ -805,6 +813,7 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
             }
             
             if (!region_parse(arguments->buffer[0], &_region)) {
+                set_error(client, "Protocol error, illegal region");
                 list_destroy(&arguments);
                 trax_properties_release(&tmp_properties);
                 trax_object_list_release(objects);
@@ -819,6 +828,7 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
         } else if (result == TRAX_QUIT) {
 
             if (list_size(arguments) != 0) {
+                set_error(client, "Protocol error, illegal argument number %d != %d", list_size(arguments), 0);
                 list_destroy(&arguments);
                 trax_properties_release(&tmp_properties);
                 trax_object_list_release(objects);
@@ -835,10 +845,12 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
             trax_properties_release(&tmp_properties);
             trax_object_list_release(objects);
             break;
-        } else if (result == TRAX_ERROR) {
+        } else {
+            set_error(client, result == TRAX_ERROR ? "Unable to receive a message" : "Protocol error, unexpected message");
             list_destroy(&arguments);
             trax_properties_release(&tmp_properties);
             trax_object_list_release(objects);
+            result = TRAX_ERROR;
             break;
         }
 
-- 
2.43.0


From 09ca47d91f967c10138e05de5ad97513bfcfcc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 020/112] fix: an empty region argument crashed both endpoints

---
 src/region.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index cae061b..8758bc2 100644
--- a/src/region.c
+++ b/src/region.c
@@ -336,7 +336,7 @@ int region_parse(const char* buffer, region_container** region) {
 	(*region) = NULL;
 
 	if (!buffer || !buffer[0]) {
-		return 1;
+		return 0;
 	}
 
 	strdata = __parse_uri_prefix(buffer, &prefix_type);
-- 
2.43.0


From 24777911e7555589ff9c97922e55fa95ad866f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 021/112] fix: server wait failed without an error message

---
 src/trax.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 936780e..a963972 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1175,6 +1175,7 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
         }
 
         if (!region_parse(arguments->buffer[j], (region_container**)region)) {
+            set_error(server, "Protocol error, illegal region");
             goto failure;
         }
 
@@ -1184,6 +1185,8 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
         server->objects = 1;
 
         goto end;
+    } else {
+        set_error(server, result == TRAX_ERROR ? "Unable to receive a message" : "Protocol error, unexpected message");
     }
 
 failure:
@@ -1239,6 +1242,7 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
         int code = read_message((message_stream*)server->stream, &LOGGER(server), arguments, tmp_properties);
 
         if (code == TRAX_ERROR) {
+            set_error(server, "Unable to receive a message");
             goto failure;
         }
 
@@ -1278,8 +1282,10 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
                 if (TRAX_SUPPORTS(server->metadata->channels, TRAX_CHANNEL_ID(i))) {
 
                     (*images)->images[i] = image_decode(arguments->buffer[j]);
-                    if (!(*images)->images[i] || !TRAX_SUPPORTS(server->metadata->format_image, (*images)->images[i]->type))
+                    if (!(*images)->images[i] || !TRAX_SUPPORTS(server->metadata->format_image, (*images)->images[i]->type)) {
+                        set_error(server, "Protocol error, illegal image");
                         goto failure;
+                    }
                     j++;
 
                 }
@@ -1314,6 +1320,7 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
             if (!region_parse(arguments->buffer[0], (region_container**)(&object_regions[object_count-1]))) {
                 object_count--;
+                set_error(server, "Protocol error, illegal region");
                 goto failure;
             }
 
-- 
2.43.0


From e541def7bdbabffe62299dca2a3119cda8ca9eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 022/112] fix: server wait for a single object failed without
 an error message

---
 src/trax.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index a963972..21aebbb 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1126,8 +1126,10 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
             if (TRAX_SUPPORTS(server->metadata->channels, TRAX_CHANNEL_ID(i))) {
 
                 (*images)->images[i] = image_decode(arguments->buffer[j]);
-                if (!(*images)->images[i] || !TRAX_SUPPORTS(server->metadata->format_image, (*images)->images[i]->type))
+                if (!(*images)->images[i] || !TRAX_SUPPORTS(server->metadata->format_image, (*images)->images[i]->type)) {
+                    set_error(server, "Protocol error, illegal image");
                     goto failure;
+                }
                 j++;
 
             }
@@ -1166,8 +1168,10 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
             if (TRAX_SUPPORTS(server->metadata->channels, TRAX_CHANNEL_ID(i))) {
 
                 (*images)->images[i] = image_decode(arguments->buffer[j]);
-                if (!(*images)->images[i] || !TRAX_SUPPORTS(server->metadata->format_image, (*images)->images[i]->type))
+                if (!(*images)->images[i] || !TRAX_SUPPORTS(server->metadata->format_image, (*images)->images[i]->type)) {
+                    set_error(server, "Protocol error, illegal image");
                     goto failure;
+                }
                 j++;
 
             }
-- 
2.43.0


From ad0d1ce2fc0b91593ba4c97888dc1cb88c8b44de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 023/112] fix: an empty initialize message leaked memory

---
 src/trax.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index 21aebbb..063c17b 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1306,6 +1306,8 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
             if (list_size(arguments) == 0) {
                 result = TRAX_INITIALIZE;
                 server->objects = 0;
+                list_destroy(&arguments);
+                trax_properties_release(&tmp_properties);
                 continue;
             }
 
-- 
2.43.0


From a1000ff7206d686fd078d7d511ffbdaa0ae6ca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 024/112] fix: waiting on a terminated server leaked memory

---
 src/trax.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 063c17b..bb0a2fc 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1223,8 +1223,8 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
     trax_properties* tmp_properties;
     int object_capacity = 1;
     int object_count = 0;
-    trax_region** object_regions = (trax_region**) malloc(sizeof(trax_region*) * object_capacity);
-    trax_properties** object_properties = (trax_properties**) malloc(sizeof(trax_properties*) * object_capacity);
+    trax_region** object_regions;
+    trax_properties** object_properties;
 
     VALIDATE_SERVER_HANDLE(server);
 
@@ -1239,6 +1239,9 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
     int argument_count = trax_image_list_count(server->metadata->channels);
 
+    object_regions = (trax_region**) malloc(sizeof(trax_region*) * object_capacity);
+    object_properties = (trax_properties**) malloc(sizeof(trax_properties*) * object_capacity);
+
     while (1) {
         tmp_properties = trax_properties_create();
         arguments = list_create(8);
-- 
2.43.0


From 9eba791429312a6e09b5de84f1c5bf1efebf3a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:49 +0000
Subject: [PATCH 025/112] fix: a refused initialize or frame call sent parts of
 the request, lost objects or aborted

---
 src/trax.c | 195 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 102 insertions(+), 93 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index bb0a2fc..ba5377c 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -863,12 +863,60 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
 
 }
 
-int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
+// Encodes images of all required channels, on failure sets the error and returns zero
+static int encode_images(trax_handle* client, trax_image_list* images, string_list* arguments) {
+
+    int i;
+
+    for (i = 0; i < TRAX_CHANNELS; i++) {
+        if (TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i))) {
+
+            if (!images || !images->images[i]) {
+                set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
+                return 0;
+            }
+            list_append_direct(arguments, image_encode(images->images[i]));
+
+        }
+    }
+
+    return 1;
+
+}
+
+// Encodes region in one of the supported formats, on failure sets the error and returns zero
+static int encode_region(trax_handle* client, const trax_region* region, string_list* arguments) {
 
     char* data = NULL;
-    trax_region* region;
+
+    if (region && !TRAX_SUPPORTS(client->metadata->format_region, REGION_TYPE(region))) {
+
+        trax_region* converted = region_autoconvert((trax_region*) region, client->metadata->format_region);
+
+        if (converted) {
+            data = region_string((region_container *)converted);
+            trax_region_release(&converted);
+        }
+
+    } else data = region_string((region_container *)region);
+
+    if (!data) {
+        set_error(client, "Region cannot be converted to a supported format");
+        return 0;
+    }
+
+    list_append_direct(arguments, data);
+
+    return 1;
+
+}
+
+static int client_frame(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties, int reset);
+
+int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
+
     string_list* arguments;
-    int i, n;
+    int n;
 
     VALIDATE_CLIENT_HANDLE(client);
 
@@ -894,53 +942,18 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
     }
 
     if (IS_VERSION_4(client)) {
-        if (client->objects > 0) {
-            // Reset object count with an empty initialize message
-            write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, NULL, NULL);
-            client->objects = 0;
-        }
-        return trax_client_frame(client, images, objects, properties);
+        // Reset object count with an empty initialize message
+        return client_frame(client, images, objects, properties, client->objects > 0);
     }
 
     // Legacy single target mode from now on.
 
-    region = trax_object_list_get(objects, 0);
-
-    assert(REGION_TYPE(region) != SPECIAL);
-
     // TODO: verify server version?
 
     arguments = list_create(1);
 
-    for (i = 0; i < TRAX_CHANNELS; i++) {
-        if (TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i))) {
-
-            if (!images->images[i]) {
-                set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
-                goto failure;
-            }
-            char* buffer = image_encode(images->images[i]);
-            list_append_direct(arguments, buffer);
-
-        }
-    }
-
-    if (!TRAX_SUPPORTS(client->metadata->format_region, REGION_TYPE(region))) {
-
-        trax_region* converted = region_autoconvert(region, client->metadata->format_region);
-
-        assert(converted);
-
-        data = region_string((region_container *)converted);
-
-        trax_region_release(&converted);
-
-    } else data = region_string((region_container *)region);
-
-    if (data) {
-        list_append(arguments, data);
-        free(data);
-    }
+    if (!encode_images(client, images, arguments) || !encode_region(client, trax_object_list_get(objects, 0), arguments))
+        goto failure;
 
     write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, properties);
 
@@ -960,7 +973,17 @@ failure:
 
 int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
 
-    int i;
+    return client_frame(client, images, objects, properties, 0);
+
+}
+
+// Everything is verified and encoded before anything is sent
+static int client_frame(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties, int reset) {
+
+    int i, n;
+    string_list* regions;
+    string_list* arguments;
+
     VALIDATE_CLIENT_HANDLE(client);
 
     clear_error(client);
@@ -970,76 +993,62 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
         return TRAX_ERROR;
     }
 
-    if (IS_VERSION_4(client)) {
+    n = (objects) ? trax_object_list_count(objects) : 0;
 
-        int n = (objects) ? trax_object_list_count(objects) : 0;
+    if (IS_VERSION_4(client)) {
 
-        if (client->objects + n > 1 && !IS_MULTI_OBJECT(client)) {
+        if ((reset ? 0 : client->objects) + n > 1 && !IS_MULTI_OBJECT(client)) {
             set_error(client, "Invalid mode");
             return TRAX_ERROR;
         }
 
-        for (i = 0; i < n; i++) {
-            char* data = NULL;
-            string_list* arguments;
-            trax_region* region = trax_object_list_get(objects, i);
-
-            arguments = list_create(1);
+    } else {
 
-            if (!TRAX_SUPPORTS(client->metadata->format_region, REGION_TYPE(region))) {
+        if (n > 0) {
+            set_error(client, "Unable to add new objects");
+            return TRAX_ERROR;
+        }
 
-                    trax_region* converted = region_autoconvert(region, client->metadata->format_region);
-                    assert(converted);
-                    data = region_string((region_container *)converted);
-                    trax_region_release(&converted);
+    }
 
-            } else data = region_string((region_container *)region);
+    regions = list_create(n + 1);
+    arguments = list_create(1);
 
-            if (data) {
-                list_append(arguments, data);
-                free(data);
-            }
+    for (i = 0; i < n; i++) {
+        if (!encode_region(client, trax_object_list_get(objects, i), regions))
+            goto failure;
+    }
 
-            write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, trax_object_list_properties(objects, i));
+    if (!encode_images(client, images, arguments))
+        goto failure;
 
-            list_destroy(&arguments);
+    if (reset) {
+        write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, NULL, NULL);
+        client->objects = 0;
+    }
 
-        }
-        
-        client->objects += n;
-        
-    } else {
+    for (i = 0; i < n; i++) {
+        string_list* region = list_create(1);
+        list_append(region, regions->buffer[i]);
+        write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, region, trax_object_list_properties(objects, i));
+        list_destroy(&region);
+    }
 
-        int n = (objects) ? trax_object_list_count(objects) : 0;
+    client->objects += n;
 
-        if (n > 0) {
-            set_error(client, "Unable to add new objects");
-            return TRAX_ERROR;
-        }
+    write_message((message_stream*)client->stream, &LOGGER(client), TRAX_FRAME, arguments, properties);
 
-    }
+    list_destroy(&regions);
+    list_destroy(&arguments);
 
-    {
-        string_list* arguments;
-        arguments = list_create(1);
+    return TRAX_OK;
 
-        for (i = 0; i < TRAX_CHANNELS; i++) {
-            if (TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i))) {
-                if (!images->images[i]) {
-                    set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
-                    list_destroy(&arguments);
-                    return TRAX_ERROR;
-                }
-                char* buffer = image_encode(images->images[i]);
-                list_append_direct(arguments, buffer);
-            } 
-        }
+failure:
 
-        write_message((message_stream*)client->stream, &LOGGER(client), TRAX_FRAME, arguments, properties);
-        list_destroy(&arguments);
+    list_destroy(&regions);
+    list_destroy(&arguments);
 
-        return TRAX_OK;
-    }
+    return TRAX_ERROR;
 
 }
 
-- 
2.43.0


From dfae1ab8d1884d9d7c52fb92df94fa75dbf0285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 026/112] fix: parsing a region wrote past its buffer and
 rounded large codes and mask offsets

---
 src/region.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/region.c b/src/region.c
index 8758bc2..730f5a6 100644
--- a/src/region.c
+++ b/src/region.c
@@ -51,7 +51,7 @@ int region_clear_flags(int mask) {
 
 }
 
-int __is_valid_sequence(float* sequence, int len) {
+int __is_valid_sequence(double* sequence, int len) {
 	int i;
 
 	for (i = 0; i < len; i++) {
@@ -285,11 +285,11 @@ static inline const char* _str_find(const char* in, const char delimiter) {
 
 }
 
-int _parse_sequence(const char* buffer, float** data) {
+int _parse_sequence(const char* buffer, double** data) {
 
 	int i;
 
-	float* numbers = (float*) malloc(sizeof(float) * (strlen(buffer)));
+	double* numbers = (double*) malloc(sizeof(double) * (strlen(buffer) + 1));
 
 	const char* pch = buffer;
 	for (i = 0; ; i++) {
@@ -299,10 +299,10 @@ int _parse_sequence(const char* buffer, float** data) {
 			if (tolower(pch[0]) == 'n' && tolower(pch[1]) == 'a' && tolower(pch[2]) == 'n') {
 				numbers[i] = NAN;
 			} else {
-				numbers[i] = (float) atof(pch);
+				numbers[i] = atof(pch);
 			}
 #else
-			numbers[i] = (float) atof(pch);
+			numbers[i] = atof(pch);
 #endif
 		} else
 			break;
@@ -312,7 +312,7 @@ int _parse_sequence(const char* buffer, float** data) {
 
 	if (i > 0) {
 		int j;
-		*data = (float*) malloc(sizeof(float) * i);
+		*data = (double*) malloc(sizeof(double) * i);
 		for (j = 0; j < i; j++) { (*data)[j] = numbers[j]; }
 		free(numbers);
 	} else {
@@ -325,7 +325,7 @@ int _parse_sequence(const char* buffer, float** data) {
 
 int region_parse(const char* buffer, region_container** region) {
 
-	float* data = NULL;
+	double* data = NULL;
 	const char* strdata = NULL;
 	int num;
 
@@ -349,7 +349,7 @@ int region_parse(const char* buffer, region_container** region) {
 		// Preserve legacy support: if four values are given and the fourth one is a number
 		// then this number is taken as a code.
 		if (num == 4 && !isnan(data[3])) {
-			(*region) = region_create_special(-(int) data[3]);
+			(*region) = region_create_special((int) -data[3]);
 		} else {
 			(*region) = region_create_special(TRAX_DEFAULT_CODE);
 		}
-- 
2.43.0


From f3d83a58178a3571ec4de42f6ae371dd6491fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 027/112] fix: text with a wrong number of values or an illegal
 mask size aborted the program

---
 src/region.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/region.c b/src/region.c
index 730f5a6..33dde5f 100644
--- a/src/region.c
+++ b/src/region.c
@@ -6,6 +6,7 @@
 #include <math.h>
 #include <assert.h>
 #include <ctype.h>
+#include <limits.h>
 
 #include "region.h"
 #include "buffer.h"
@@ -368,7 +369,7 @@ int region_parse(const char* buffer, region_container** region) {
 
 	switch (prefix_type) {
 	case SPECIAL: {
-		assert(num == 1);
+		if (num != 1) break;
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = SPECIAL;
 		(*region)->data.special = (int) data[0];
@@ -377,7 +378,7 @@ int region_parse(const char* buffer, region_container** region) {
 
 	}
 	case RECTANGLE: {
-		assert(num == 4);
+		if (num != 4) break;
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = RECTANGLE;
 
@@ -393,7 +394,7 @@ int region_parse(const char* buffer, region_container** region) {
 	case POLYGON: {
 		int j;
 
-		assert(num >= 6 && num % 2 == 0);
+		if (num < 6 || num % 2 != 0) break;
 
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = POLYGON;
@@ -416,7 +417,11 @@ int region_parse(const char* buffer, region_container** region) {
 		int position, length;
 		char value;
 
-		assert(num > 4);
+		// A mask without foreground has no runs
+		if (num < 4) break;
+
+		// Do not trust the declared size
+		if (!(data[2] >= 1 && data[3] >= 1 && data[2] * data[3] <= INT_MAX)) break;
 
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = MASK;
@@ -429,6 +434,12 @@ int region_parse(const char* buffer, region_container** region) {
 		length = (*region)->data.mask.width * (*region)->data.mask.height;
 		(*region)->data.mask.data = (char*) malloc(sizeof(char) * length);
 
+		if (!(*region)->data.mask.data) {
+			free(*region);
+			(*region) = NULL;
+			break;
+		}
+
 		value = 0;
 		position = 0;
 
@@ -452,6 +463,8 @@ int region_parse(const char* buffer, region_container** region) {
 		free(data);
 		return 1;
 	}
+	default:
+		break;
 	}
 
 	if (data) free(data);
-- 
2.43.0


From 2f9c255be276cbfdb6846ec1bbca5f4dfef7baf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 028/112] fix: bounding rectangle of a polygon with negative
 coordinates was too large

---
 src/region.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/region.c b/src/region.c
index 33dde5f..3f4a1ea 100644
--- a/src/region.c
+++ b/src/region.c
@@ -565,9 +565,9 @@ region_container* region_convert(const region_container* region, region_type typ
 		case POLYGON: {
 
 			float top = FLT_MAX;
-			float bottom = FLT_MIN;
+			float bottom = -FLT_MAX;
 			float left = FLT_MAX;
-			float right = FLT_MIN;
+			float right = -FLT_MAX;
 			int i;
 
 			for (i = 0; i < region->data.polygon.count; i++) {
-- 
2.43.0


From 36473422262e1db99794e4bf5974fba7183682c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 029/112] fix: bounds of a mask without foreground were
 infinite

---
 src/region.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/region.c b/src/region.c
index 3f4a1ea..00d83cb 100644
--- a/src/region.c
+++ b/src/region.c
@@ -166,6 +166,11 @@ region_bounds compute_bounds_mask(const region_mask* mask) {
 		}
 	}
 
+	if (bounds.bottom < 0) {
+		// No foreground
+		return region_create_bounds(mask->x, mask->y, (float) mask->x - 1, (float) mask->y - 1);
+	}
+
 	bounds.top += mask->y;
 	bounds.bottom += mask->y;
 	bounds.left += mask->x;
@@ -644,6 +649,12 @@ region_container* region_convert(const region_container* region, region_type typ
 		case MASK: {
 
 			region_bounds b = compute_bounds_mask(&(region->data.mask));
+
+			if (b.right < b.left) {
+				free(reg); reg = NULL;
+				break;
+			}
+
 			reg->data.polygon = allocate_polygon(4);
 
 			reg->data.polygon.x[0] = b.left;
-- 
2.43.0


From fd5bdf010403cbdd9ffffb9c605236a2476b24d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 030/112] fix: mask of a polygon was placed at a wrong row, too
 small, and leaked memory

---
 src/region.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/region.c b/src/region.c
index 00d83cb..9e28d1b 100644
--- a/src/region.c
+++ b/src/region.c
@@ -694,14 +694,15 @@ region_container* region_convert(const region_container* region, region_type typ
 		}
 		case POLYGON: {
 
-			reg = (region_container*) malloc(sizeof(region_container));
-			reg->type = type;
+			region_bounds b = bounds_round(compute_bounds_polygon(&(region->data.polygon)));
+			double width = (double) b.right - b.left + 1;
+			double height = (double) b.bottom - b.top + 1;
 
-			region_bounds b = compute_bounds_polygon(&(region->data.polygon));
+			if (!(width * height <= INT_MAX)) break;
 
-			reg = region_create_mask(b.left, b.right, b.right - b.left, b.bottom - b.top);
+			reg = region_create_mask(b.left, b.top, width, height);
 
-			region_get_mask_offset(region, reg->data.mask.data, b.left, b.right, b.right - b.left, b.bottom - b.top);
+			region_get_mask_offset(region, reg->data.mask.data, b.left, b.top, width, height);
 
 			break;
 		}
-- 
2.43.0


From 8d21bf1c7bd42d1d1b97f4ba09af1e8b1dcdfde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 031/112] fix: converting an empty rectangle to a mask aborted
 the program

---
 src/region.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/region.c b/src/region.c
index 9e28d1b..31541aa 100644
--- a/src/region.c
+++ b/src/region.c
@@ -687,6 +687,15 @@ region_container* region_convert(const region_container* region, region_type typ
 		switch (region->type) {
 		case RECTANGLE: {
 
+			if (region->data.rectangle.width < 1 || region->data.rectangle.height < 1) {
+				// No pixels are covered
+				reg = region_create_mask((int)region->data.rectangle.x, (int)region->data.rectangle.y, 1, 1);
+				reg->data.mask.data[0] = 0;
+				break;
+			}
+
+			if (!((double) region->data.rectangle.width * region->data.rectangle.height <= INT_MAX)) break;
+
 			reg = region_create_mask((int)region->data.rectangle.x, (int)region->data.rectangle.y, (int)region->data.rectangle.width, (int)region->data.rectangle.height);
 			memset(reg->data.mask.data, 255, reg->data.mask.width * reg->data.mask.height);
 
-- 
2.43.0


From 7243129d18abe55f1deb66c8a319804f34fc205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 032/112] fix: a point left or above the origin was looked up
 in a wrong or non-existing pixel of a mask

---
 src/region.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index 31541aa..f936b98 100644
--- a/src/region.c
+++ b/src/region.c
@@ -851,7 +851,7 @@ int point_in_mask(const region_mask* mask, float x, float y) {
 	if (x < mask->x || y < mask->y || x >= mask->x + mask->width || y >= mask->y + mask->height)
 		return 0;
 
-	return mask->data[((int)x - mask->x) + ((int)y - mask->y) * mask->width] != 0;
+	return mask->data[((int)floor(x) - mask->x) + ((int)floor(y) - mask->y) * mask->width] != 0;
 }
 
 
-- 
2.43.0


From c066bf1aa6415d72606631a10ea034984c149820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 033/112] fix: overlap of touching, one pixel wide, empty or
 special regions was wrong or undefined

---
 src/region.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/region.c b/src/region.c
index f936b98..563948b 100644
--- a/src/region.c
+++ b/src/region.c
@@ -1152,6 +1152,9 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 	overlap.only2 = 0;
 
 
+	// Special regions cover no pixels
+	if (ra->type == SPECIAL || rb->type == SPECIAL) return overlap;
+
 	if (__flags & REGION_LEGACY_RASTERIZATION) {
 		b1 = bounds_intersection(region_compute_bounds(ra), bounds);
 		b2 = bounds_intersection(region_compute_bounds(rb), bounds);
@@ -1160,6 +1163,9 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 		b2 = bounds_intersection(bounds_round(region_compute_bounds(rb)), bounds);
 	}
 
+	// At least one region has no pixels within the bounds
+	if (!(b1.left <= b1.right && b1.top <= b1.bottom && b2.left <= b2.right && b2.top <= b2.bottom)) return overlap;
+
 	x = MIN(b1.left, b2.left);
 	y = MIN(b1.top, b2.top);
 
@@ -1170,13 +1176,13 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 	// between the two bounding boxes is simply too big and the overlap would
 	// be 0 anyway.
 	
-	a1 = (b1.right - b1.left) * (b1.bottom - b1.top);
-	a2 = (b2.right - b2.left) * (b2.bottom - b2.top);
+	a1 = ((double) b1.right - b1.left + 1) * ((double) b1.bottom - b1.top + 1);
+	a2 = ((double) b2.right - b2.left + 1) * ((double) b2.bottom - b2.top + 1);
 
 	if (a1 / a2 < 1e-10 || a2 / a1 < 1e-10 || width < 1 || height < 1) 
 		return overlap;
 
-	if (bounds_overlap(b1, b2) == 0) {
+	if (b1.right < b2.left || b2.right < b1.left || b1.bottom < b2.top || b2.bottom < b1.top) {
 
 		int i;
 
@@ -1194,8 +1200,10 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 			if (tb->data.mask.data[i]) vol_2++;
 		}
 
-		overlap.only1 = (float) vol_1 / (float) (vol_1 + vol_2);
-		overlap.only2 = (float) vol_2 / (float) (vol_1 + vol_2);
+		if (vol_1 + vol_2 > 0) {
+			overlap.only1 = (float) vol_1 / (float) (vol_1 + vol_2);
+			overlap.only2 = (float) vol_2 / (float) (vol_1 + vol_2);
+		}
 
 	} else {
 
@@ -1221,9 +1229,11 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 			else if (mask2[i]) mask_2++;
 		}
 
-		overlap.only1 = (float) mask_1 / (float) (mask_1 + mask_2 + mask_intersect);
-		overlap.only2 = (float) mask_2 / (float) (mask_1 + mask_2 + mask_intersect);
-		overlap.overlap = mask_intersect / (float) (mask_1 + mask_2 + mask_intersect);
+		if (mask_1 + mask_2 + mask_intersect > 0) {
+			overlap.only1 = (float) mask_1 / (float) (mask_1 + mask_2 + mask_intersect);
+			overlap.only2 = (float) mask_2 / (float) (mask_1 + mask_2 + mask_intersect);
+			overlap.overlap = mask_intersect / (float) (mask_1 + mask_2 + mask_intersect);
+		}
 
 	}
 
-- 
2.43.0


From f56b852e91ae92e51bcd62b7c5519a74a34c080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 034/112] fix: a polygon with several vertices or edges in one
 pixel row was filled between them

---
 src/region.c | 97 +++++++++++++++++++++++++++-------------------------
 1 file changed, 50 insertions(+), 47 deletions(-)

diff --git a/src/region.c b/src/region.c
index 563948b..7cfd33c 100644
--- a/src/region.c
+++ b/src/region.c
@@ -903,6 +903,15 @@ region_bounds region_compute_bounds(const region_container* region) {
 
 }
 
+static void fill_span(char* row, int width, int from, int to) {
+
+	if (from >= width || to < 0) return;
+	if (from < 0) from = 0;
+	if (to >= width) to = width - 1;
+	memset(row + from, 1, to - from + 1);
+
+}
+
 int rasterize_polygon(const region_polygon polygon_input, char* mask, int width, int height) {
 
 	int nodes, pixelY, i, j, swap;
@@ -960,68 +969,62 @@ int rasterize_polygon(const region_polygon polygon_input, char* mask, int width,
 
 	} else {
 
+		int rule;
+		char* row = (char*) malloc(sizeof(char) * width);
+
 		polygon = round_polygon(polygon_input);
 
 		/*  Loop through the rows of the image. */
 		for (pixelY = 0; pixelY < height; pixelY++) {
 
-			/*  Build a list of nodes. */
-			nodes = 0;
-			j = polygon.count - 1;
+			memset(row, 0, sizeof(char) * width);
 
-			for (i = 0; i < polygon.count; i++) {
-				if ((((int)polygon.y[i] <= pixelY) && ((int)polygon.y[j] > pixelY)) ||
-				        (((int)polygon.y[j] <= pixelY) && ((int)polygon.y[i] > pixelY)) ||
-				        (((int)polygon.y[i] < pixelY) && ((int)polygon.y[j] >= pixelY)) ||
-				        (((int)polygon.y[j] < pixelY) && ((int)polygon.y[i] >= pixelY)) ||
-				        (((int)polygon.y[i] == (int)polygon.y[j]) && ((int)polygon.y[i] == pixelY))) {
-					double r = (polygon.y[j] - polygon.y[i]);
-					double k = (polygon.x[j] - polygon.x[i]);
-					if (r != 0) {
-						nodeX[nodes++] = (int) ((double) polygon.x[i] + (double) (pixelY - polygon.y[i]) / r * k);
-					} else {
-						nodeX[nodes++] = (double) polygon.x[i];
-					}
-				}
-				j = i;
-			}
-			/* Sort the nodes, via a simple “Bubble” sort. */
-			i = 0;
-			while (i < nodes - 1) {
-				if (nodeX[i] > nodeX[i + 1]) {
-					swap = nodeX[i];
-					nodeX[i] = nodeX[i + 1];
-					nodeX[i + 1] = swap;
-					if (i) i--;
-				} else {
-					i++;
-				}
-			}
+			/*  A pixel is covered if the polygon covers it just below the row, just above it
+			    or if it lies on a horizontal edge. */
+			for (rule = 0; rule < 2; rule++) {
 
-			/*  Fill the pixels between node pairs. */
-			i = 0;
-			while (i < nodes - 1) {
-				if (nodeX[i] >= width) break;
-				// If a point is in the line then we get two identical values
-				// Ignore the first, except when it is the last point in vector
-				if (nodeX[i] == nodeX[i + 1] && i < nodes - 2) {
-					i++;
-					continue;
+				/*  Build a list of nodes. */
+				nodes = 0;
+				j = polygon.count - 1;
+
+				for (i = 0; i < polygon.count; i++) {
+					if (rule ? ((polygon.y[i] < pixelY) != (polygon.y[j] < pixelY)) : ((polygon.y[i] <= pixelY) != (polygon.y[j] <= pixelY))) {
+						double r = (polygon.y[j] - polygon.y[i]);
+						double k = (polygon.x[j] - polygon.x[i]);
+						nodeX[nodes++] = (int) floor((double) polygon.x[i] + (double) (pixelY - polygon.y[i]) / r * k);
+					} else if (polygon.y[i] == polygon.y[j] && polygon.y[i] == pixelY) {
+						fill_span(row, width, MIN(polygon.x[i], polygon.x[j]), MAX(polygon.x[i], polygon.x[j]));
+					}
+					j = i;
 				}
 
-				if (nodeX[i + 1] >= 0) {
-					if (nodeX[i] < 0) nodeX[i] = 0;
-					if (nodeX[i + 1] >= width) nodeX[i + 1] = width - 1;
-					for (j = nodeX[i]; j <= nodeX[i + 1]; j++) {
-						if (mask) mask[pixelY * width + j] = 1;
-						sum++;
+				/* Sort the nodes, via a simple “Bubble” sort. */
+				i = 0;
+				while (i < nodes - 1) {
+					if (nodeX[i] > nodeX[i + 1]) {
+						swap = nodeX[i];
+						nodeX[i] = nodeX[i + 1];
+						nodeX[i + 1] = swap;
+						if (i) i--;
+					} else {
+						i++;
 					}
 				}
-				i += 2;
 
+				/*  Fill the pixels between node pairs. */
+				for (i = 0; i < nodes - 1; i += 2)
+					fill_span(row, width, nodeX[i], nodeX[i + 1]);
+
+			}
+
+			for (i = 0; i < width; i++) {
+				if (!row[i]) continue;
+				if (mask) mask[pixelY * width + i] = 1;
+				sum++;
 			}
 		}
 
+		free(row);
 		free_polygon(&polygon);
 
 	}
-- 
2.43.0


From dddc8ae84c0fd8608a010af867e1cfb41cdef0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 035/112] fix: a negative run length in the text of a mask
 overflowed

---
 src/region.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index 7cfd33c..b470c8b 100644
--- a/src/region.c
+++ b/src/region.c
@@ -452,7 +452,7 @@ int region_parse(const char* buffer, region_container** region) {
 		for (i = 4; i < num; i++) {
 
 			int count = (int) data[i];
-			while (count && position < length) {
+			while (count > 0 && position < length) {
 				(*region)->data.mask.data[position++] = value;
 				count--;
 			}
-- 
2.43.0


From 42a9f642bb81516c17c42536d00ebc28e7c8118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 036/112] fix: objects announced right before a quit message
 were handed out together with it and leaked

---
 src/trax.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index ba5377c..2549185 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1274,6 +1274,12 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
             result = TRAX_QUIT;
             server->flags |= TRAX_FLAG_TERMINATED;
+
+            for (i = 0; i < object_count; i++) {
+                trax_region_release(&(object_regions[i]));
+                trax_properties_release(&(object_properties[i]));
+            }
+            object_count = 0;
             goto end;
         }
 
-- 
2.43.0


From 43eaad9e202df90640186e9abacd64a2390b4e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 037/112] fix: a mask too large for the memory crashed the
 program instead of being refused

---
 src/region.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/region.c b/src/region.c
index b470c8b..c422d43 100644
--- a/src/region.c
+++ b/src/region.c
@@ -697,6 +697,7 @@ region_container* region_convert(const region_container* region, region_type typ
 			if (!((double) region->data.rectangle.width * region->data.rectangle.height <= INT_MAX)) break;
 
 			reg = region_create_mask((int)region->data.rectangle.x, (int)region->data.rectangle.y, (int)region->data.rectangle.width, (int)region->data.rectangle.height);
+			if (!reg) break;
 			memset(reg->data.mask.data, 255, reg->data.mask.width * reg->data.mask.height);
 
 			break;
@@ -711,6 +712,7 @@ region_container* region_convert(const region_container* region, region_type typ
 
 			reg = region_create_mask(b.left, b.top, width, height);
 
+			if (!reg) break;
 			region_get_mask_offset(region, reg->data.mask.data, b.left, b.top, width, height);
 
 			break;
@@ -718,6 +720,7 @@ region_container* region_convert(const region_container* region, region_type typ
 		case MASK: {
 
 			reg = region_create_mask(region->data.mask.x, region->data.mask.y, region->data.mask.width, region->data.mask.height);
+			if (!reg) break;
 			memcpy(reg->data.mask.data, region->data.mask.data, region->data.mask.width * region->data.mask.height);
 
 			break;
@@ -826,6 +829,11 @@ region_container* region_create_mask(int x, int y, int width, int height) {
 		reg->data.mask.height = height;
 		reg->data.mask.data = (char *) malloc(sizeof(char) * width * height);
 
+		if (!reg->data.mask.data) {
+			free(reg);
+			return NULL;
+		}
+
 		return reg;
 
 	}
-- 
2.43.0


From ec1f100e15862118bd33e6548e7f43345046b444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 038/112] fix: setting an object to the region it already holds
 used released memory

---
 src/trax.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 2549185..a1390ab 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2129,11 +2129,15 @@ void trax_object_list_release(trax_object_list** list) {
 
 void trax_object_list_set(trax_object_list* list, int index, trax_region* region) {
 
+    trax_region* clone;
+
     if (index < 0 || index >= list->size) return;
 
+    clone = trax_region_clone(region);
+
     trax_region_release(&(list->regions[index]));
 
-    list->regions[index] = trax_region_clone(region);
+    list->regions[index] = clone;
 
 }
 
-- 
2.43.0


From 8d12a29b5f2e571b805bda1471651223aecc8d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 039/112] fix: pixels of a polygon edge depended on the
 position of the polygon

---
 src/region.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index c422d43..ac83c11 100644
--- a/src/region.c
+++ b/src/region.c
@@ -999,7 +999,7 @@ int rasterize_polygon(const region_polygon polygon_input, char* mask, int width,
 					if (rule ? ((polygon.y[i] < pixelY) != (polygon.y[j] < pixelY)) : ((polygon.y[i] <= pixelY) != (polygon.y[j] <= pixelY))) {
 						double r = (polygon.y[j] - polygon.y[i]);
 						double k = (polygon.x[j] - polygon.x[i]);
-						nodeX[nodes++] = (int) floor((double) polygon.x[i] + (double) (pixelY - polygon.y[i]) / r * k);
+						nodeX[nodes++] = (int) floor((double) polygon.x[i] + (pixelY - (double) polygon.y[i]) * k / r);
 					} else if (polygon.y[i] == polygon.y[j] && polygon.y[i] == pixelY) {
 						fill_span(row, width, MIN(polygon.x[i], polygon.x[j]), MAX(polygon.x[i], polygon.x[j]));
 					}
-- 
2.43.0


From 7e2ad63d3f3b506dac7cdb5bb2bad30b332f4f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 040/112] fix: assigning a C++ object to itself released it,
 and a copy of an empty one was not empty

---
 src/traxpp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 67c2b27..b200c43 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -59,7 +59,7 @@ Wrapper::Wrapper() : pn(NULL) {
 }
 
 Wrapper::Wrapper(const Wrapper& count) : pn(count.pn) {
-	acquire();
+	if (pn) acquire();
 }
 
 
@@ -72,9 +72,10 @@ Wrapper::~Wrapper() {
 }
 
 void Wrapper::acquire(const Wrapper& lhs) {
+	if (pn == lhs.pn) return;
 	release();
 	pn = lhs.pn;
-	acquire();
+	if (pn) acquire();
 }
 
 void Wrapper::swap(Wrapper& lhs) {
-- 
2.43.0


From 1b745c246258a914641f41d69b612de9d81bf266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 041/112] fix: moved-from C++ objects were left with a dangling
 or undefined pointer

---
 src/traxpp.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index b200c43..5ec2d88 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -113,8 +113,9 @@ Metadata::Metadata() {
     wrap(trax_metadata_create(0, 0, TRAX_CHANNEL_COLOR, NULL, NULL, NULL, 0));
 }
 
-Metadata::Metadata(Metadata&& original) : Wrapper(std::move(original)) {
-	metadata = original.metadata;
+Metadata::Metadata(Metadata&& original) : Metadata() {
+	swap(original);
+	std::swap(metadata, original.metadata);
 }
 
 Metadata::Metadata(const Metadata& original) : Wrapper(original) {
@@ -230,8 +231,9 @@ Handle::Handle(const Handle& original) : Wrapper(original) {
 	handle = original.handle;
 }
 
-Handle::Handle(Handle&& original) : Wrapper(original) {
+Handle::Handle(Handle&& original) : Wrapper(std::move(original)) {
 	handle = original.handle;
+	original.handle = NULL;
 }
 
 Handle::~Handle() {
@@ -520,6 +522,7 @@ Image::Image(const Image& original) : Wrapper(original) {
 
 Image::Image(Image&& original) : Wrapper(std::move(original)) {
 	image = original.image;
+	original.image = NULL;
 }
 
 Image& Image::operator=(const Image& lhs) throw() {
@@ -791,7 +794,8 @@ Region::Region(const Region& original) : Wrapper(original) {
 }
 
 Region::Region(Region&& original) : Wrapper(std::move(original)) {
-	std::swap(region, original.region);
+	region = original.region;
+	original.region = NULL;
 }
 
 Region& Region::operator=(const Region& original) throw() {
@@ -1037,7 +1041,8 @@ Properties::Properties(const Properties& original) : Wrapper(original) {
 }
 
 Properties::Properties(Properties&& original) : Wrapper(std::move(original)) {
-	std::swap(properties, original.properties);
+	properties = original.properties;
+	original.properties = NULL;
 }
 
 Properties& Properties::operator=(const Properties& original) throw() {
-- 
2.43.0


From 881e8efb3d3aa8e301aa817bb22941d33baf174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 042/112] fix: clearing a shared property set kept its content
 without owning it, and move assignment was missing

---
 src/traxpp.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 5ec2d88..c1c7574 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -1051,6 +1051,12 @@ Properties& Properties::operator=(const Properties& original) throw() {
 	return *this;
 }
 
+Properties& Properties::operator=(Properties&& original) throw() {
+	swap(original);
+	std::swap(properties, original.properties);
+	return *this;
+}
+
 Properties::~Properties() {
 	release();
 }
@@ -1062,9 +1068,10 @@ int Properties::size() const {
 
 void Properties::clear()  {
 	if (!properties) return;
-	if (claims() > 1)
+	if (claims() > 1) {
 		release();
-	else
+		properties = NULL;
+	} else
 		trax_properties_clear(properties);
 }
 
-- 
2.43.0


From ffab656d379325a36b916acc02d21cf343392840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 043/112] fix: C++ object lists leaked, and copies shared
 regions that they did not own

---
 include/trax.h |  3 +--
 src/traxpp.cpp | 63 +++++++++++++++++++++++---------------------------
 2 files changed, 30 insertions(+), 36 deletions(-)

diff --git a/include/trax.h b/include/trax.h
index 88dafa3..a67575b 100644
--- a/include/trax.h
+++ b/include/trax.h
@@ -1145,8 +1145,7 @@ protected:
 
 private:
 
-    std::vector<Region> _regions;
-    std::vector<Properties> _properties;
+    void ensure_unique();
 
     trax_object_list* list;
 
diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index c1c7574..947c1d0 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -609,42 +609,33 @@ void Image::wrap(trax_image* obj) {
 	if (image) acquire();
 }
 
-ObjectList::ObjectList() {
-	list = NULL;
+ObjectList::ObjectList() : list(NULL) {
+
 }
 
-ObjectList::ObjectList(int count) {
-	list = trax_object_list_create(count);
-	_regions.resize(count);
-	_properties.resize(count);
+ObjectList::ObjectList(int count) : list(NULL) {
+	wrap(trax_object_list_create(count));
 }
 
 ObjectList::ObjectList(const ObjectList& original) : Wrapper(original) {
 	list = original.list;
-	_regions = original._regions;
-	_properties = original._properties;
 }
 
 ObjectList::ObjectList(ObjectList&& original) : Wrapper(std::move(original)) {
-	std::swap(list, original.list);
-	std::swap(_regions, original._regions);
-	std::swap(_properties, original._properties);
+	list = original.list;
+	original.list = NULL;
 }
 
 
 ObjectList& ObjectList::operator=(const ObjectList& original) throw() {
 	acquire(original);
 	list = original.list;
-	_regions = original._regions;
-	_properties = original._properties;
 	return *this;
 }
 
 ObjectList& ObjectList::operator=(ObjectList&& original) throw() {
 	swap(original);
 	std::swap(list, original.list);
-	std::swap(_regions, original._regions);
-	std::swap(_properties, original._properties);
 	return *this;
 }
 
@@ -653,18 +644,26 @@ ObjectList::~ObjectList() {
 }
 
 Region ObjectList::get(int index) const {
-	return _regions[index];
+	Region region;
+	if (list)
+		region.wrap(trax_region_clone(trax_object_list_get(list, index)));
+	return region;
 }
 
 void ObjectList::set(int index, Region region) {
-	_regions[index] = region;
-	list->regions[index] = region.region;
-	// Do not use C function as it will try to free old region
-	// trax_object_list_set(list, index, region.region);
+	if (!list) return;
+	ensure_unique();
+	trax_object_list_set(list, index, region.region);
 }
 
 Properties ObjectList::properties(int index) const {
-	return _properties[index];
+	Properties properties;
+	trax_properties* source = list ? trax_object_list_properties(list, index) : NULL;
+	if (source) {
+		properties.ensure_unique();
+		trax_properties_append(source, properties.properties, 1);
+	}
+	return properties;
 }
 
 int ObjectList::size() const {
@@ -675,28 +674,24 @@ int ObjectList::size() const {
 
 void ObjectList::cleanup() {
 	if (!list) return;
-	// Only free the structure, regions and properties will be 
-	// released by proxies
-	free(list->regions);
-	free(list->properties);
-	free(list);
-	_regions.clear();
-	_properties.clear();
+	trax_object_list_release(&list);
 }
 
 void ObjectList::wrap(trax_object_list* obj) {
 	if (!obj) return;
 	release();
 	list = obj;
-	if (list) acquire();
+	acquire();
+}
 
-	_regions.resize(trax_object_list_count(obj));
-	_properties.resize(trax_object_list_count(obj));
+void ObjectList::ensure_unique() {
 
-	for (int i = 0; i < trax_object_list_count(obj); i++) {
-		_regions[i].wrap(obj->regions[i]);
-		_properties[i].wrap(obj->properties[i]);
+	if (claims() > 1) {
+		trax_object_list* copy = trax_object_list_create(0);
+		trax_object_list_append(copy, list);
+		wrap(copy);
 	}
+
 }
 
 
-- 
2.43.0


From 33e1fad9010342110b394a66f28300553303d36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 044/112] fix: C++ image lists leaked, copies outlived their
 list, and a received list kept images of the previous one

---
 src/traxpp.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 947c1d0..ba5afda 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -695,9 +695,9 @@ void ObjectList::ensure_unique() {
 }
 
 
-ImageList::ImageList()  {
-	list = trax_image_list_create();
+ImageList::ImageList() : list(NULL) {
 	images.resize(TRAX_CHANNELS);
+	wrap(trax_image_list_create());
 }
 
 ImageList::ImageList(const ImageList& original)  : Wrapper(original) {
@@ -705,7 +705,8 @@ ImageList::ImageList(const ImageList& original)  : Wrapper(original) {
 	images = original.images;
 }
 
-ImageList::ImageList(ImageList&& original)  : Wrapper(std::move(original)) {
+ImageList::ImageList(ImageList&& original)  : ImageList() {
+	swap(original);
 	std::swap(list, original.list);
 	std::swap(images, original.images);
 }
@@ -730,18 +731,31 @@ ImageList::~ImageList() {
 
 Image ImageList::get(int channel) const {
 
+	if (TRAX_CHANNEL_INDEX(channel) < 0) return Image();
+
 	return images[TRAX_CHANNEL_INDEX(channel)];
 
 }
 
 bool ImageList::has(int channel) const {
 
-	return !images[TRAX_CHANNEL_INDEX(channel)].empty();
+	return !get(channel).empty();
 
 }
 
 void ImageList::set(Image image, int channel) {
 
+	if (TRAX_CHANNEL_INDEX(channel) < 0) return;
+
+	if (claims() > 1) {
+		trax_image_list* copy = trax_image_list_create();
+		for (int i = 0; i < TRAX_CHANNELS; i++)
+			copy->images[i] = list->images[i];
+		release();
+		list = copy;
+		acquire();
+	}
+
 	images[TRAX_CHANNEL_INDEX(channel)] = image;
 	list->images[TRAX_CHANNEL_INDEX(channel)] = image.image;
 
@@ -763,6 +777,7 @@ int ImageList::size() const {
 
 void ImageList::cleanup() {
 	if (!list) return;
+	// Only frees the structure, images are released by their wrappers
 	trax_image_list_release(&list);
 
 }
@@ -772,10 +787,12 @@ void ImageList::wrap(trax_image_list* obj) {
 	if (!obj) return;
 	release();
 	list = obj;
-	if (list) acquire();
+	acquire();
 
-	for (int i = 0; i < TRAX_CHANNELS; i++)
+	for (int i = 0; i < TRAX_CHANNELS; i++) {
+		images[i] = Image();
 		images[i].wrap(obj->images[i]);
+	}
 
 }
 
-- 
2.43.0


From c0b3eea0718448ad63a48f3bc3f8c101bda294a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 045/112] fix: the C++ metadata of a handle lost the custom
 properties

---
 src/traxpp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index ba5afda..3b004f2 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -139,6 +139,8 @@ Metadata::Metadata(trax_metadata* metadata) {
     wrap(trax_metadata_create(metadata->format_region, metadata->format_image, metadata->channels,
 		metadata->tracker_name, metadata->tracker_description, metadata->tracker_family, metadata->flags));
 
+    trax_properties_append(metadata->custom, this->metadata->custom, 1);
+
 }
 
 Metadata::~Metadata() {
-- 
2.43.0


From 182a8649cd0e2168d0eb737d5954b49c404fa871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 046/112] fix: calls on a C++ object that is not connected
 crashed or reported success

---
 src/traxpp.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 3b004f2..6389082 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -247,10 +247,12 @@ void Handle::cleanup() {
 }
 
 int Handle::set_parameter(int id, int value) {
+	if (!claims()) return TRAX_ERROR;
 	return trax_set_parameter(handle, id, value);
 }
 
 int Handle::get_parameter(int id, int* value) {
+	if (!claims()) return TRAX_ERROR;
 	return trax_get_parameter(handle, id, value);
 }
 
@@ -270,7 +272,7 @@ const Metadata Handle::metadata() {
 }
 
 bool Handle::terminate(const std::string reason) {
-	if (!claims()) return -1;
+	if (!claims()) return false;
 	return trax_terminate(handle, reason.c_str()) == TRAX_OK;
 }
 
@@ -486,6 +488,8 @@ int ServerMOT::reply(const Region& region, const Properties& properties) {
 
 int ServerMOT::wait(ImageList& image, ObjectList& objects, Properties& properties) {
 
+	if (!claims()) return -1;
+
 	trax_object_list* tobjects = NULL;
     trax_image_list* timagelist = NULL;
 
-- 
2.43.0


From 440bfa9072c136673b1919f952b284a27baa10ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 047/112] fix: the C++ server replied with a single region
 without its properties and leaked received objects

---
 src/traxpp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 6389082..c748722 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -464,6 +464,7 @@ int ServerMOT::wait(ImageList& image, Region& region, Properties& properties) {
 			region.wrap(tregion);
 			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 0);
 		}
+		trax_object_list_release(&tobjects);
 	}
 
 	return result;
@@ -476,7 +477,7 @@ int ServerMOT::reply(const Region& region, const Properties& properties) {
 
 	trax_object_list* objects = trax_object_list_create(1);
 	trax_object_list_set(objects, 0, region.region);
-	trax_properties_append(trax_object_list_properties(objects, 0), properties.properties, 0);
+	trax_properties_append(properties.properties, trax_object_list_properties(objects, 0), 0);
 
 	int result = trax_server_reply_mot(handle, objects);
 
-- 
2.43.0


From 93a87dd2f0979527e161ba14ab809c1b6c98c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 048/112] fix: an empty C++ object list aborted initialize and
 reply calls instead of being refused

---
 src/trax.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index a1390ab..65ef50e 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -927,9 +927,9 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
         return TRAX_ERROR;
     }
 
-    assert(images && objects);
+    assert(images);
 
-    n = trax_object_list_count(objects);
+    n = (objects) ? trax_object_list_count(objects) : 0;
 
     if (n < 1) {
         set_error(client, "At least one object required");
@@ -1448,9 +1448,7 @@ int trax_server_reply_mot(trax_handle* server, trax_object_list* objects) {
         return TRAX_ERROR;
     }
 
-    assert(objects);
-
-    n = trax_object_list_count(objects);
+    n = (objects) ? trax_object_list_count(objects) : 0;
 
     if (!IS_MULTI_OBJECT(server) && n != 1) {
         set_error(server, "Invalid mode");
-- 
2.43.0


From c4cd52ff84857974501e7caa4c1e014ba816ea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 049/112] fix: a reply without a region failed without an error
 message

---
 src/trax.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 65ef50e..d366001 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1419,7 +1419,10 @@ int trax_server_reply_sot(trax_handle* server, trax_region* region, trax_propert
 
     data = region_string(REGION(region));
 
-    if (!data) return TRAX_ERROR;
+    if (!data) {
+        set_error(server, "No region given");
+        return TRAX_ERROR;
+    }
 
     arguments = list_create(1);
 
-- 
2.43.0


From ea76a6c549135aadf4da9d80a5cafd1aaebb714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 050/112] fix: releasing an object list with an emptied slot
 crashed

---
 src/region.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/region.c b/src/region.c
index ac83c11..e271c47 100644
--- a/src/region.c
+++ b/src/region.c
@@ -751,6 +751,8 @@ region_container* region_convert(const region_container* region, region_type typ
 
 void region_release(region_container** region) {
 
+	if (!*region) return;
+
 	switch ((*region)->type) {
 	case RECTANGLE:
 		break;
-- 
2.43.0


From a36b444dac1ab3716d4a0f2b3be22045f164f24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 051/112] fix: a multi-object reply with a missing region was
 sent partially without an error message

---
 src/trax.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index d366001..f38dbb3 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1439,7 +1439,7 @@ int trax_server_reply_sot(trax_handle* server, trax_region* region, trax_propert
 int trax_server_reply_mot(trax_handle* server, trax_object_list* objects) {
 
     int n, i;
-    char* data;
+    string_list* regions;
     string_list* arguments;
 
     VALIDATE_SERVER_HANDLE(server);
@@ -1463,15 +1463,27 @@ int trax_server_reply_mot(trax_handle* server, trax_object_list* objects) {
         return TRAX_ERROR;
     }
 
+    regions = list_create(n + 1);
+
+    for (i = 0; i < n; i++) {
+        char* data = region_string(REGION(trax_object_list_get(objects, i)));
+        if (!data) {
+            set_error(server, "No region given");
+            list_destroy(&regions);
+            return TRAX_ERROR;
+        }
+        list_append_direct(regions, data);
+    }
+
     for (i = 0; i < n; i++) {
-        data = region_string(REGION(trax_object_list_get(objects, i)));
-        if (!data) return TRAX_ERROR;
         arguments = list_create(1);
-        list_append_direct(arguments, data);
+        list_append(arguments, regions->buffer[i]);
         write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, trax_object_list_properties(objects, i));
         list_destroy(&arguments);
     }
 
+    list_destroy(&regions);
+
     return TRAX_OK;
 }
 
-- 
2.43.0


From 727fe124c67d3574cd5e517d6bbb1db67c6f78ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 052/112] fix: a tracker command that cannot be parsed crashed
 the client

---
 support/client/process.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index b0265d6..c1d2c08 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -110,7 +110,7 @@ char** parse_command(const char* command) {
         position = __next_token(command, position, buffer, 1024);
 
         if (position < 0) {
-            for (int j = 0; j < i; j++) delete[] tokens[j];
+            for (int j = 0; j < i; j++) free(tokens[j]);
             delete [] tokens;
             delete [] buffer;
             return NULL;
@@ -152,7 +152,7 @@ Process::Process(string command, bool explicit_mode) : running(false), explicit_
 
     char** tokens = parse_command(command.c_str());
 
-    if (!tokens[0])
+    if (!tokens)
         throw std::runtime_error("Unable to parse command string");
 
     program = tokens[0];
-- 
2.43.0


From 7ae53bb6bb1704f7e886fb60291a32caf04df883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 053/112] fix: a failed start of the tracker left the process
 mutex locked

---
 support/client/client.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 083fc91..daf15ef 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -306,13 +306,13 @@ public:
 
 		print_debug("Creating process %s", command.c_str());
 
-		process_state_mutex.acquire();
-		process = new Process(command, connection == CONNECTION_EXPLICIT);
-		if (!directory.empty()) {
-			print_debug("Working directory is %s", directory.c_str());
-			process->set_directory(directory);
+		MUTEX_SYNCHRONIZE(process_state_mutex) {
+			process = new Process(command, connection == CONNECTION_EXPLICIT);
+			if (!directory.empty()) {
+				print_debug("Working directory is %s", directory.c_str());
+				process->set_directory(directory);
+			}
 		}
-		process_state_mutex.release();
 
 		process->copy_environment();
 
-- 
2.43.0


From 7e5b2f1235985f7a40c981a62447b241075192e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 054/112] fix: a long word made the command of a tracker
 unparsable

---
 support/client/process.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index c1d2c08..06f430f 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -107,7 +107,7 @@ char** parse_command(const char* command) {
 
     while (1) {
 
-        position = __next_token(command, position, buffer, 1024);
+        position = __next_token(command, position, buffer, length + 1);
 
         if (position < 0) {
             for (int j = 0; j < i; j++) free(tokens[j]);
-- 
2.43.0


From ad93cfdb72591b8d045fc3cd03c3707781f8e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 055/112] fix: spaces at the end made the command of a tracker
 unparsable

---
 support/client/process.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index 06f430f..7a55dfe 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -100,6 +100,10 @@ int __next_token(const char* str, int start, char* buffer, int len)
 char** parse_command(const char* command) {
 
     int length = (int)strlen(command);
+
+    // Ignore the spaces after the last word
+    while (length > 0 && command[length - 1] == ' ') length--;
+
     char* buffer = new char[length+1];
     char** tokens = new char*[length];
     int position = 0;
-- 
2.43.0


From f011c83ee548288ac26983d2389cbd4ad0d2522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 056/112] fix: quotes inside a quoted word of the tracker
 command were not understood

---
 support/client/process.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index 7a55dfe..a61de3f 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -60,6 +60,8 @@ int __next_token(const char* str, int start, char* buffer, int len)
     int s = -1;
     int e = -1;
     short quotes = 0;
+    int backslashes = 0; // Number of backslashes just before the current character
+    int n = 0;
 
     for (i = start; str[i] != '\0' ; i++)
     {
@@ -73,11 +75,12 @@ int __next_token(const char* str, int start, char* buffer, int len)
             else s = i;
             continue;
         }
-        if (s >= 0 && ((!quotes && str[i] == ' ') || (quotes && str[i] == '"' && (i == start || str[i - 1] != '\''))))
+        if (s >= 0 && ((!quotes && str[i] == ' ') || (quotes && str[i] == '"' && backslashes % 2 == 0)))
         {
             e = i;
             break;
         }
+        backslashes = str[i] == '\\' ? backslashes + 1 : 0;
     }
 
     buffer[0] = '\0';
@@ -90,9 +93,24 @@ int __next_token(const char* str, int start, char* buffer, int len)
     if (e - s > len - 1) return -1;
 
 
-    memcpy(buffer, &(str[s]), e - s);
+    // In a quoted word the backslashes before a quote are escape characters, all others are a part of the word
+    for (i = s; i < e; ) {
+        int k = 0;
+        while (i + k < e && str[i + k] == '\\') k++;
+        if (quotes && k > 0 && str[i + k] == '"') {
+            memset(&(buffer[n]), '\\', k / 2);
+            n += k / 2;
+            i += k;
+            if (k % 2) buffer[n++] = str[i++];
+        } else {
+            if (k == 0) k = 1;
+            memcpy(&(buffer[n]), &(str[i]), k);
+            n += k;
+            i += k;
+        }
+    }
 
-    buffer[e - s] = '\0';
+    buffer[n] = '\0';
 
     return str[e] == '\0' ? e : (quotes ? e + 2 : e + 1);
 }
-- 
2.43.0


From d807be829a3b7bb4ad5c8e9f019a12c447944aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 057/112] fix: a tracker that could not be started or exited at
 once raced with the watchdog and leaked

---
 support/client/client.cpp | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index daf15ef..a0548e9 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -289,6 +289,13 @@ public:
 
 	}
 
+	void release_process() {
+
+		if (process) delete process;
+		process = NULL;
+
+	}
+
 	bool process_running() {
 		Lock lock(process_state_mutex);
 		return process && process->is_alive();
@@ -298,20 +305,23 @@ public:
 
 		if (process_running()) return false;
 
+		// Keep the watchdog away from the process until it is running
+		Lock lock(process_state_mutex);
+
 		if (client) {
 			delete client;
 			client = NULL;
 			print_debug("Deleted stale client");
 		}
 
+		release_process();
+
 		print_debug("Creating process %s", command.c_str());
 
-		MUTEX_SYNCHRONIZE(process_state_mutex) {
-			process = new Process(command, connection == CONNECTION_EXPLICIT);
-			if (!directory.empty()) {
-				print_debug("Working directory is %s", directory.c_str());
-				process->set_directory(directory);
-			}
+		process = new Process(command, connection == CONNECTION_EXPLICIT);
+		if (!directory.empty()) {
+			print_debug("Working directory is %s", directory.c_str());
+			process->set_directory(directory);
 		}
 
 		process->copy_environment();
@@ -335,17 +345,25 @@ public:
 
 		if (!started) {
 			print_debug("Unable to start process");
+			release_process();
 			throw std::runtime_error("Unable to start the tracker process");
 		} else {
 
 			sleepf(0.1);
 			if (!process->is_alive()) {
 				print_debug("Unable to start process");
+				release_process();
 				throw std::runtime_error("Unable to start the tracker process");
 			}
 
+			int handle = process->get_handle();
+			int input = process->get_input();
+			int output = process->get_output();
+
 			start_watchdog();
 
+			lock.unlock();
+
 			Logging logger = trax_no_log;
 
 			if (verbosity != VERBOSITY_SILENT)
@@ -356,7 +374,7 @@ public:
 				client = new Client(socket_id, logger, timeout);
 			} else {
 				print_debug("Setting up TraX with %s streams connection", (connection == CONNECTION_EXPLICIT) ? "dedicated" : "standard");
-				client = new Client(process->get_output(), process->get_input(), logger);
+				client = new Client(output, input, logger);
 			}
 			// TODO: check tracker exit state
 			if (!(*client)) {
@@ -366,7 +384,7 @@ public:
 
 			stop_watchdog();
 
-			print_debug("Tracker process ID: %d", process->get_handle());
+			print_debug("Tracker process ID: %d", handle);
 			int server_version = 0;
 
 			client->get_parameter(TRAX_PARAMETER_VERSION, &server_version);
@@ -420,8 +438,7 @@ public:
 
 			flush_streams();
 
-			delete process;
-			process = NULL;
+			release_process();
 
 			print_debug("Process should be terminated.");
 
-- 
2.43.0


From 6309584bbc23d30d16e137a8a400583fe7254dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 058/112] fix: a debug message of more than 1024 bytes crashed
 the client

---
 support/client/client.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index a0548e9..2a72e55 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -543,6 +543,8 @@ flush_condition.wait(1000);
 		if (required >= size) {
 			size = required;
 			buffer = (char*) realloc(buffer, sizeof(char) * size);
+			va_end(args);
+			va_start(args, format);
 			required = vsnprintf(buffer, size, format, args);
 		}
 #endif
-- 
2.43.0


From 2762f42c794102a8ca51c61a6507eb3d96e67650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 059/112] fix: requests before an initialization or after a
 restart were not refused reliably

---
 support/client/client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 2a72e55..ad11449 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -228,6 +228,8 @@ public:
 		client(NULL), process(NULL), command(command), environment(environment), socket_id(-1), socket_port(-1),
 		connection(connection), verbosity(verbosity), timeout(timeout), directory(directory) {
 
+		tracking = false;
+
 		timer_init();
 
 		if (log)
@@ -305,6 +307,8 @@ public:
 
 		if (process_running()) return false;
 
+		tracking = false;
+
 		// Keep the watchdog away from the process until it is running
 		Lock lock(process_state_mutex);
 
-- 
2.43.0


From 8dfcd99ef4748a541f22bd256d1d0be29d3483ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 060/112] fix: a tracker with an unsupported protocol or a bad
 introduction was left running and reported as ready

---
 support/client/client.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index ad11449..34fdd00 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -383,6 +383,7 @@ public:
 			// TODO: check tracker exit state
 			if (!(*client)) {
 				print_debug("Unable to establish connection.");
+				stop_process();
 				throw std::runtime_error("Unable to establish connection.");
 			}
 
@@ -393,7 +394,10 @@ public:
 
 			client->get_parameter(TRAX_PARAMETER_VERSION, &server_version);
 
-			if (server_version > TRAX_VERSION) throw std::runtime_error("Unsupported protocol version");
+			if (server_version > TRAX_VERSION) {
+				stop_process();
+				throw std::runtime_error("Unsupported protocol version");
+			}
 
 			print_debug("Connection with tracker established.");
 
-- 
2.43.0


From 0d9287a0089f18c283f2821df6edc4781d25ee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 061/112] fix: a wrapper without a running tracker kept a
 processor busy

---
 support/client/client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 34fdd00..83f6e0d 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -634,7 +634,7 @@ flush_condition.wait(1000);
 
 				}
 				if (err == -1) {
-					sleep(0);
+					sleepf(0.01);
 					continue;
 				}
 
-- 
2.43.0


From d153ccf2c7f2d4350abc50da92c2cf898e776cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 062/112] fix: a tracker kept the streams of other trackers
 open and the client those of the tracker, so the end of a tracker was not
 noticed

---
 support/client/client.cpp  | 47 +++++++++++++++++++++++++++++++++
 support/client/process.cpp | 54 +++++++++++++++++++++++++++++++-------
 2 files changed, 92 insertions(+), 9 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 83f6e0d..e591d99 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -221,6 +221,46 @@ int read_stream(int fd, char* buffer, int len) {
 
 namespace trax {
 
+// Writing to a tracker that is gone must not terminate the program
+class PipeGuard {
+public:
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+	PipeGuard() {}
+#else
+	PipeGuard() {
+
+		sigset_t pending;
+		sigemptyset(&pending);
+		sigpending(&pending);
+		already_pending = sigismember(&pending, SIGPIPE) == 1;
+
+		sigemptyset(&signals);
+		sigaddset(&signals, SIGPIPE);
+		pthread_sigmask(SIG_BLOCK, &signals, &previous);
+
+	}
+
+	~PipeGuard() {
+
+		sigset_t pending;
+		int signal;
+		sigemptyset(&pending);
+		sigpending(&pending);
+
+		if (!already_pending && sigismember(&pending, SIGPIPE) == 1)
+			sigwait(&signals, &signal);
+
+		pthread_sigmask(SIG_SETMASK, &previous, NULL);
+
+	}
+
+private:
+	bool already_pending;
+	sigset_t signals;
+	sigset_t previous;
+#endif
+};
+
 int next_available_socket_port = TRAX_DEFAULT_PORT;
 class TrackerProcess::State : public Synchronized {
 public:
@@ -280,6 +320,7 @@ public:
 		stop_process();
 
 		if (client) {
+			PipeGuard guard;
 			delete client;
 			client = NULL;
 		}
@@ -313,6 +354,7 @@ public:
 		Lock lock(process_state_mutex);
 
 		if (client) {
+			PipeGuard guard;
 			delete client;
 			client = NULL;
 			print_debug("Deleted stale client");
@@ -418,6 +460,7 @@ public:
 
 		if (client != NULL) {
 			print_debug("Trying to stop process using protocol.");
+			PipeGuard guard;
 			client->terminate();
 		}
 
@@ -785,6 +828,7 @@ bool TrackerProcess::initialize(const ImageList& image, const Region& region, co
 	state->start_watchdog();
 
 	// Initialize the tracker ...
+	PipeGuard guard;
 	int result = state->client->initialize(image, region, properties);
 
 	state->stop_watchdog();
@@ -832,6 +876,7 @@ bool TrackerProcess::frame(const ImageList& image, const Properties& properties)
 
 	state->start_watchdog();
 
+	PipeGuard guard;
 	int result = state->client->frame(image, properties);
 
 	state->stop_watchdog();
@@ -858,6 +903,7 @@ bool TrackerProcess::initialize(const ImageList& image, const ObjectList& object
 	state->start_watchdog();
 
 	// Initialize the tracker ...
+	PipeGuard guard;
 	int result = state->client->initialize(image, objects, properties);
 
 	state->stop_watchdog();
@@ -904,6 +950,7 @@ bool TrackerProcess::frame(const ImageList& image, const ObjectList& objects, co
 
 	state->start_watchdog();
 
+	PipeGuard guard;
 	int result = state->client->frame(image, objects, properties);
 
 	state->stop_watchdog();
diff --git a/support/client/process.cpp b/support/client/process.cpp
index a61de3f..aeac027 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -45,6 +45,27 @@ const string __getcwd()
 
 #endif
 
+#if !(defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER))
+
+// Processes are started one at a time, so that they do not inherit the streams of each other
+static Mutex spawn_mutex;
+
+static void close_stream(int& stream) {
+
+    if (stream != -1) close(stream);
+    stream = -1;
+
+}
+
+static void set_inherited(int stream, bool inherited) {
+
+    int flags = fcntl(stream, F_GETFD);
+    fcntl(stream, F_SETFD, inherited ? (flags & ~FD_CLOEXEC) : (flags | FD_CLOEXEC));
+
+}
+
+#endif
+
 inline const string int_to_string(int i) {
 
     stringstream buffer;
@@ -170,6 +191,8 @@ Process::Process(string command, bool explicit_mode) : running(false), explicit_
     piProcInfo.hProcess = 0;
 #else
     pid = 0;
+    out[0] = out[1] = in[0] = in[1] = err[0] = err[1] = -1;
+    action_initialized = false;
 #endif
 
     char** tokens = parse_command(command.c_str());
@@ -342,11 +365,22 @@ bool Process::start() {
 
         if (pid) return false;
 
+        Lock spawn_lock(spawn_mutex);
+
         if (pipe(out) == -1 || pipe(in) == -1 || pipe(err) == -1) {
             std::cerr << "Error: unable to configure process streams" << std::endl;
+            cleanup();
             return false;
         }
 
+        // The process only gets its own ends, duplicated to its standard streams or in the explicit mode as they are
+        set_inherited(out[0], explicit_mode);
+        set_inherited(out[1], false);
+        set_inherited(in[0], false);
+        set_inherited(in[1], explicit_mode);
+        set_inherited(err[0], false);
+        set_inherited(err[1], false);
+
         vector<string> vars;
 
         map<string, string>::iterator iter;
@@ -357,9 +391,6 @@ bool Process::start() {
 
         posix_spawn_file_actions_init(&action);
         action_initialized = true;
-        posix_spawn_file_actions_addclose(&action, out[1]);
-        posix_spawn_file_actions_addclose(&action, in[0]);
-        posix_spawn_file_actions_addclose(&action, err[0]);
 
         if (!explicit_mode) {
             posix_spawn_file_actions_adddup2(&action, out[0], 0);
@@ -399,6 +430,11 @@ bool Process::start() {
 
         if (directory.size() > 0) CHDIR_SOFT(cwd);
 
+        // The end of the process is only noticed if nobody else holds its ends of the streams
+        close_stream(out[0]);
+        close_stream(in[1]);
+        close_stream(err[1]);
+
         p_stdin = out[1];
         p_stdout = in[0];
         p_stderr = err[0];
@@ -519,12 +555,12 @@ void Process::cleanup() {
 
 #else
 
-        if (out[0] != -1) {close(out[0]); out[0] = -1; };
-        if (err[0] != -1) {close(err[0]); err[0] = -1; };
-        if (in[1] != -1) {close(in[1]); in[1] = -1; };
-        if (out[1] != -1) {close(out[1]); out[1] = -1; };
-        if (err[1] != -1) {close(err[1]); err[1] = -1; };
-        if (in[0] != -1) {close(in[0]); in[0] = -1; };
+        close_stream(out[0]);
+        close_stream(err[0]);
+        close_stream(in[1]);
+        close_stream(out[1]);
+        close_stream(err[1]);
+        close_stream(in[0]);
 
         if (action_initialized) {
             posix_spawn_file_actions_destroy(&action);
-- 
2.43.0


From 1dfc05accb31f1bed708e68d59b85ebf51ff6aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 063/112] fix: the watchdog used the connection and released
 the process while a request was in progress, a request could block for ever

---
 support/client/client.cpp | 75 +++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 26 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index e591d99..879ca04 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -311,14 +311,14 @@ public:
 
 		print_debug("Cleaning up.");
 
+		stop_process();
+
 		watchdog_active = false;
 		logger_active = false;
 
 		RELEASE_THREAD(watchdog_thread);
 		RELEASE_THREAD(logger_thread);
 
-		stop_process();
-
 		if (client) {
 			PipeGuard guard;
 			delete client;
@@ -406,10 +406,10 @@ public:
 			int input = process->get_input();
 			int output = process->get_output();
 
-			start_watchdog();
-
 			lock.unlock();
 
+			start_watchdog();
+
 			Logging logger = trax_no_log;
 
 			if (verbosity != VERBOSITY_SILENT)
@@ -450,20 +450,55 @@ public:
 	}
 
 
-	bool stop_process() {
+	// Ends a running process without the protocol, the state of the process has to be locked
+	void end_process(int* exit_status) {
 
-		int exit_status = -1;
+		if (process->is_alive(exit_status)) {
+			print_debug("Trying to terminate process nicely.");
+			process->stop();
+			for (int i = 0; i < 5; i++) {
+				if (!process->is_alive(exit_status)) break;
+				sleepf(0.1);
+			}
 
-		stop_watchdog();
+			if (process->is_alive(exit_status)) {
+				print_debug("Escalating to brute-force termination.");
+				process->kill();
+				sleepf(0.1);
+				process->is_alive(exit_status);
+			}
+		}
+
+	}
+
+	// Used by the watchdog, the connection and the process belong to the thread that
+	// may be waiting for the tracker, so they are not released
+	void interrupt_process() {
+
+		int exit_status;
 
 		Lock lock(process_state_mutex);
 
-		if (client != NULL) {
+		if (process) end_process(&exit_status);
+
+	}
+
+	bool stop_process() {
+
+		int exit_status = -1;
+
+		if (client != NULL && process_running()) {
 			print_debug("Trying to stop process using protocol.");
 			PipeGuard guard;
+			// The watchdog ends a process that does not read the message
+			reset_watchdog(1);
 			client->terminate();
 		}
 
+		stop_watchdog();
+
+		Lock lock(process_state_mutex);
+
 		if (process) {
 
 			for (int i = 0; i < 5; i++) {
@@ -471,21 +506,7 @@ public:
 				sleepf(0.1);
 			}
 
-			if (process->is_alive(&exit_status)) {
-				print_debug("Trying to terminate process nicely.");
-				process->stop();
-				for (int i = 0; i < 5; i++) {
-					if (!process->is_alive(&exit_status)) break;
-					sleepf(0.1);
-				}
-
-				if (process->is_alive(&exit_status)) {
-					print_debug("Escalating to brute-force termination.");
-					process->kill();
-					sleepf(0.1);
-					process->is_alive(&exit_status);
-				}
-			}
+			end_process(&exit_status);
 
 			flush_streams();
 
@@ -515,6 +536,8 @@ public:
 
 	void reset_watchdog(int timeout) {
 
+		Lock lock(watchdog_mutex);
+
 		watchdog_timeout = timeout * 10;
 
 	}
@@ -624,14 +647,14 @@ flush_condition.wait(1000);
 
 			run = state->watchdog_active;
 
-			bool terminate = !state->process_running();
+			bool terminate = false;
 
 			for (vector<WatchdogCallback*>::iterator c = state->callbacks.begin(); c != state->callbacks.end(); c++) {
 				terminate |= (*c)();
 			}
 
 			if (terminate) {
-				state->stop_process();
+				state->interrupt_process();
 			} else {
 
 				if (state->watchdog_timeout > 0) {
@@ -640,7 +663,7 @@ flush_condition.wait(1000);
 
 					if (state->watchdog_timeout == 0) {
 						
-						state->stop_process();
+						state->interrupt_process();
 					}
 
 				}
-- 
2.43.0


From af678f736c393eaba460a9ff99b177544a87cbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 064/112] fix: messages of a tracker could be lost or taken
 from the streams of another one, and stopping a tracker took a second

---
 support/client/client.cpp | 109 +++++++++++++++++++++-----------------
 1 file changed, 59 insertions(+), 50 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 879ca04..f234355 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -57,6 +57,7 @@ __inline void sleep(long time) {
 //#else
 #include <sys/socket.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <sys/select.h>
 #include <arpa/inet.h>
 #include <netinet/tcp.h>
@@ -212,7 +213,8 @@ int read_stream(int fd, char* buffer, int len) {
 		return -1;
 
 	if (FD_ISSET(fd, &readfds)) {
-		return read(fd, buffer, len);
+		int count = read(fd, buffer, len);
+		return count > 0 ? count : -1; // The end of the stream
 	} else if (FD_ISSET(fd, &exceptfds)) {
 		return -1;
 	} else return 0;
@@ -270,6 +272,9 @@ public:
 
 		tracking = false;
 
+		error_stream = -1;
+		error_reading = false;
+
 		timer_init();
 
 		if (log)
@@ -325,6 +330,8 @@ public:
 			client = NULL;
 		}
 
+		if (error_stream != -1) close(error_stream);
+
 		if (connection == CONNECTION_SOCKETS) {
 			print_debug("Closing server socket.");
 			destroy_server_socket(socket_id);
@@ -395,9 +402,23 @@ public:
 			throw std::runtime_error("Unable to start the tracker process");
 		} else {
 
+			// The logger gets a stream of its own that remains valid when the process is released
+			MUTEX_SYNCHRONIZE(logger_mutex) {
+
+				if (error_stream != -1) close(error_stream);
+				error_stream = process->get_error();
+#ifdef F_DUPFD_CLOEXEC
+				if (error_stream != -1) error_stream = fcntl(error_stream, F_DUPFD_CLOEXEC, 0);
+#else
+				if (error_stream != -1) error_stream = dup(error_stream);
+#endif
+
+			}
+
 			sleepf(0.1);
 			if (!process->is_alive()) {
 				print_debug("Unable to start process");
+				flush_streams();
 				release_process();
 				throw std::runtime_error("Unable to start the tracker process");
 			}
@@ -570,27 +591,19 @@ public:
 
 		print_debug("Flushing streams");
 
-#ifdef _MSC_VER
-flush_condition.wait(1000);
-			return;
-#endif
-
-		char buffer[LOGGER_BUFFER_SIZE];
+		// Wait for the logger to read everything
+		for (int i = 0; i < 100; i++) {
 
-		for (int i = 0; i < 10; i++) {
+			MUTEX_SYNCHRONIZE(logger_mutex) {
 
-			int read = read_stream(process->get_error(), buffer, LOGGER_BUFFER_SIZE);
+				if (error_stream < 0 && !error_reading) return;
 
-			if (read <= 0) break;
-
-			client_logger(buffer, read, this);
+			}
 
-			sleepf(0.05);
+			sleepf(0.01);
 
 		}
 
-		flush_condition.wait(1000);
-
 	}
 
 	void print_debug(const char *format, ...) {
@@ -681,60 +694,54 @@ flush_condition.wait(1000);
 
 		State* state  = (State*) param;
 
-		bool run = true;
 		int err = -1;
+		char buffer[LOGGER_BUFFER_SIZE];
 
-		while (run) {
-
-			run = state->logger_active;
-
-			if (err == -1) {
-
-				if (state->process_running()) {
-
-					err = state->process->get_error();
-
-				} else {
+		while (state->logger_active) {
 
-					state->flush_condition.notify();
+			// A new stream replaces the one that is being read
+			MUTEX_SYNCHRONIZE(state->logger_mutex) {
 
+				if (state->error_stream != -1) {
+					if (err != -1) close(err);
+					err = state->error_stream;
+					state->error_stream = -1;
 				}
-				if (err == -1) {
-					sleepf(0.01);
-					continue;
-				}
-
-			}
-
-			char chr;
-			bool flush = false;
-			int read = read_stream(err, &chr, 1);
 
-			if (read != 1) {
+				state->error_reading = err != -1;
 
-				if (state->process_running()) err =  -1;
-				flush = true;
-
-			} else {
-
-				flush = line_buffer_push(state->stderr_buffer, chr, state->line_truncate);
+			}
 
+			if (err == -1) {
+				sleepf(0.01);
+				continue;
 			}
 
-			if (flush) {
+			int read = read_stream(err, buffer, LOGGER_BUFFER_SIZE);
 
-				MUTEX_SYNCHRONIZE(state->logger_mutex) {
+			MUTEX_SYNCHRONIZE(state->logger_mutex) {
 
-					line_buffer_flush(state->stderr_buffer, (state->verbosity != VERBOSITY_SILENT) ? state->logger_stream : NULL);
+				ostream* stream = (state->verbosity != VERBOSITY_SILENT) ? state->logger_stream : NULL;
 
+				for (int i = 0; i < read; i++) {
+					if (line_buffer_push(state->stderr_buffer, buffer[i], state->line_truncate))
+						line_buffer_flush(state->stderr_buffer, stream);
 				}
 
-				if (err == -1) state->flush_condition.notify();
+				if (read <= 0)
+					line_buffer_flush(state->stderr_buffer, stream);
+
+			}
 
+			if (read < 0) {
+				close(err);
+				err = -1;
 			}
 
 		}
 
+		if (err != -1) close(err);
+
 		state->print_debug("Stopping logger thread");
 
 		return 0;
@@ -814,7 +821,9 @@ flush_condition.wait(1000);
 	THREAD logger_thread;
 
 	THREAD watchdog_thread;
-	Signal flush_condition;
+
+	int error_stream;
+	bool error_reading;
 
 	string directory;
 
-- 
2.43.0


From c39cc72388d1ff4288cba568b519de0e189ed50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 065/112] fix: a restarted tracker could be given the
 connection of its predecessor

---
 support/client/client.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index f234355..d03ebff 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -148,6 +148,32 @@ void destroy_server_socket(int server) {
 
 }
 
+// Connections of a process that is already gone
+void discard_connections(int server) {
+
+	while (1) {
+
+		fd_set readfds;
+		struct timeval tv;
+
+		tv.tv_sec = 0;
+		tv.tv_usec = 0;
+
+		FD_ZERO(&readfds);
+		FD_SET(server, &readfds);
+
+		if (select(server + 1, &readfds, NULL, NULL, &tv) < 1) return;
+
+		int connection = (int) accept(server, NULL, NULL);
+
+		if (connection < 0) return;
+
+		closesocket(connection);
+
+	}
+
+}
+
 typedef struct line_buffer {
 
 	char buffer[LOGGER_BUFFER_SIZE];
@@ -386,6 +412,7 @@ public:
 
 		if (connection == CONNECTION_SOCKETS) {
 			char port_buffer[24];
+			discard_connections(socket_id);
 			sprintf(port_buffer, "%d", socket_port);
 			process->set_environment("TRAX_SOCKET", port_buffer);
 		}
-- 
2.43.0


From 5094f37117437d900674cdecfdb0910d9b11ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 066/112] fix: the command-line client mixed up image formats
 and channels and could not load anything but paths of color images

---
 support/client/cli.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index d47e39c..cc9afe4 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -640,7 +640,7 @@ int main( int argc, char** argv) {
                 Metadata metadata = tracker.metadata();
 
                 Region initialize = initialization[frame];
-                ImageList image = load_images(images[frame], metadata.image_formats(), metadata.channels());
+                ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                 // Start timing a frame
                 double timing_elapsed;
@@ -710,7 +710,7 @@ int main( int argc, char** argv) {
                     if (frame >= images.size()) break;
 
                     print_debug("Loading frame images.\n");
-                    ImageList image = load_images(images[frame], metadata.image_formats(), metadata.channels());
+                    ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                     // Start timing a frame
                     timing_start = timer_clock();
-- 
2.43.0


From 673d0fe86d693af8fa351229c58b82ab7f21ce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 067/112] fix: the command-line client bounded all overlaps by
 the size of the initialization image

---
 support/client/cli.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index cc9afe4..bf7e571 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -710,7 +710,7 @@ int main( int argc, char** argv) {
                     if (frame >= images.size()) break;
 
                     print_debug("Loading frame images.\n");
-                    ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
+                    image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                     // Start timing a frame
                     timing_start = timer_clock();
-- 
2.43.0


From f611fc9a5258c1c397f3322164ce070a9f1f9ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 068/112] fix: the command-line client ignored the last line of
 the image list if it had no line end and kept carriage returns

---
 support/client/cli.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index bf7e571..600e84e 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -311,8 +311,10 @@ void read_images(const string& file, vector<vector<string> >& list) {
     while (true) {
         string line;
         vector<string> images;
-        getline(input, line);
-        if (!input.good()) break;
+        if (!getline(input, line)) break;
+
+        if (!line.empty() && line[line.size() - 1] == '\r')
+            line.erase(line.size() - 1);
 
         size_t pos = 0;
         std::string token;
-- 
2.43.0


From e79134e5efa742fb5bbbe7c48ed1a704fc71a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 069/112] fix: the command-line client read beyond the end of a
 short initialization file

---
 support/client/cli.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 600e84e..4d40ca7 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -609,6 +609,7 @@ int main( int argc, char** argv) {
 
             if (!initialization_file.empty()) {
                 load_trajectory(initialization_file, initialization);
+                initialization.resize(images.size()); // No initialization data for the rest
                 print_debug("Initialization loaded from file %s.\n", initialization_file.c_str());
             } else {
                 initialization = vector<Region>(groundtruth.begin(), groundtruth.end());
-- 
2.43.0


From 8f4bf12bf024f822b0e96490c9db3ac6fd77529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 070/112] fix: the timings of the command-line client had no
 entries for frames without initialization

---
 support/client/cli.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 4d40ca7..8c1a1c7 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -630,6 +630,7 @@ int main( int argc, char** argv) {
                     if (!initialization[frame].empty()) break;
                     print_debug("Skipping frame %d, no initialization data. \n", (int) frame);
                     output.push_back(Region::create_special(0));
+                    timings.push_back(0);
                 }
 
                 if (frame == images.size()) break;
-- 
2.43.0


From fece404955bf259b4b35b097ce1a951766110146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 071/112] fix: the command-line client did not escape quotes
 and backslashes in the arguments of the tracker

---
 support/client/cli.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 8c1a1c7..0869de1 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -335,6 +335,25 @@ void read_images(const string& file, vector<vector<string> >& list) {
     input.close();
 }
 
+// Backslashes are only special if they are followed by a quote
+string escape_argument(const string& argument) {
+
+    string result, backslashes;
+
+    for (size_t i = 0; i < argument.size(); i++) {
+        if (argument[i] == '\\') {
+            backslashes += '\\';
+            continue;
+        }
+        result += argument[i] == '"' ? backslashes + backslashes + "\\" : backslashes;
+        result += argument[i];
+        backslashes.clear();
+    }
+
+    return result + backslashes + backslashes;
+
+}
+
 void save_timings(const string& file, vector<double>& timings) {
 
     std::ofstream output;
@@ -529,7 +548,7 @@ int main( int argc, char** argv) {
             stringstream buffer;
 
             for (int i = optind; i < argc; i++) {
-                buffer << " \"" << string(argv[i]) << "\" ";
+                buffer << " \"" << escape_argument(argv[i]) << "\" ";
             }
 
             tracker_command = buffer.str();
-- 
2.43.0


From 8c189d1db9a367170b45c13c32ca513f6a12f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 072/112] fix: a missing image file crashed the command-line
 client

---
 support/client/cli.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 0869de1..265c271 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -396,7 +396,9 @@ Image load_image(string& path, int formats) {
     }
     case TRAX_IMAGE_BUFFER: {
         // Read the file to memory
-        std::ifstream t(path.c_str());
+        std::ifstream t(path.c_str(), std::ios::in | std::ios::binary);
+        if (!t.is_open())
+            throw std::runtime_error("Unable to read image file " + path);
         t.seekg(0, std::ios::end);
         size_t size = t.tellg();
         std::string buffer(size, ' ');
-- 
2.43.0


From 762eda00536ccb1f429bf259184e3851b98c3ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 073/112] fix: an interrupted wait for the connection of a
 tracker never ended

---
 src/message.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/message.c b/src/message.c
index 06f70f5..c051939 100644
--- a/src/message.c
+++ b/src/message.c
@@ -24,6 +24,7 @@
 #endif
 
 #include <ctype.h>
+#include <errno.h>
 
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER) 
 #include <winsock2.h>
@@ -184,6 +185,7 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
 
 	fd_set readfds,writefds,exceptfds;
 	int asock=-1;
+	int ready;
     int one = 1;
     message_stream* stream = NULL;
     struct timeval tv;
@@ -197,15 +199,18 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
 		return NULL;
 	}
 
-	FD_ZERO(&readfds);
-	FD_ZERO(&writefds);
-	FD_ZERO(&exceptfds);
-	FD_SET(server,&readfds);
-	FD_SET(server,&exceptfds);
+	do {
+		FD_ZERO(&readfds);
+		FD_ZERO(&writefds);
+		FD_ZERO(&exceptfds);
+		FD_SET(server,&readfds);
+		FD_SET(server,&exceptfds);
 
-    select(server+1,&readfds,&writefds,&exceptfds,&tv);
-	
-	if(FD_ISSET(server,&readfds)) {
+		// The sets are only valid if the call succeeds
+		ready = select(server+1,&readfds,&writefds,&exceptfds,&tv);
+	} while (ready < 0 && errno == EINTR);
+
+	if(ready > 0 && FD_ISSET(server,&readfds)) {
 		struct sockaddr_in pin;
 		int addrlen = sizeof(struct sockaddr_in);
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER) 
-- 
2.43.0


From b15f2c4666ef3908a0a29da480b5728cb38a60ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 074/112] fix: missing reference or initialization files and
 unwritable output files went unnoticed by the command-line client

---
 support/client/cli.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 265c271..e9c12a4 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -295,6 +295,15 @@ image_size image_get_size(ImageList image) {
 }
 
 
+void require_file(const string& file, const char* message) {
+
+    std::ifstream input(file.c_str(), std::ifstream::in);
+
+    if (!input.is_open())
+        throw std::runtime_error(message);
+
+}
+
 #define DELIMITER ";"
 
 void read_images(const string& file, vector<vector<string> >& list) {
@@ -613,6 +622,7 @@ int main( int argc, char** argv) {
             vector<double> timings;
 
             read_images(images_file, images);
+            require_file(groundtruth_file, "Groundtruth file not available.");
             load_trajectory(groundtruth_file, groundtruth);
 
             print_debug("Images loaded from file %s.\n", images_file.c_str());
@@ -629,6 +639,7 @@ int main( int argc, char** argv) {
             }
 
             if (!initialization_file.empty()) {
+                require_file(initialization_file, "Initialization file not available.");
                 load_trajectory(initialization_file, initialization);
                 initialization.resize(images.size()); // No initialization data for the rest
                 print_debug("Initialization loaded from file %s.\n", initialization_file.c_str());
@@ -781,11 +792,15 @@ int main( int argc, char** argv) {
                 }
             }
 
-            if (output.size() > 0)
+            if (output.size() > 0) {
                 save_trajectory(output_file, output);
+                require_file(output_file, "Unable to write the output file.");
+            }
 
-            if (timings.size() > 0 && timing_file.size() > 0)
+            if (timings.size() > 0 && timing_file.size() > 0) {
                 save_timings(timing_file, timings);
+                require_file(timing_file, "Unable to write the timing file.");
+            }
 
         }
 
-- 
2.43.0


From 9575a26cdcfa91c4c633cb818a0b06c3940400dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 075/112] fix: items of Python properties could not be read by
 name

---
 support/python/trax/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index 20beec5..b2cdfb9 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -423,7 +423,10 @@ class Properties(object):
         Args:
             key (str): property key
         """
-        return trax_properties_get(self._ref.reference, key)
+        value = self.get(key)
+        if value is None:
+            raise KeyError(key)
+        return value
 
     def __setitem__(self, key: str, value: str):
         """ Set a property value.
-- 
2.43.0


From bed61edcbd50a02252fc88ae2ea6bd5b7025587c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 076/112] fix: a Python client could not send a frame without
 new objects

---
 support/python/trax/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 6251107..b67d9e7 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -233,7 +233,7 @@ class Client(object):
         """
 
         timage = wrap_images(images)
-        tobjects = wrap_objects(objects)
+        tobjects = wrap_objects(objects if not objects is None else [])
         tproperties = Properties(properties)
 
         status = TraxStatus.decode(trax_client_frame(self._handle.reference, timage.reference, tobjects.reference, tproperties.reference))
-- 
2.43.0


From d2ff2d701afd42c015eebad0d9227d73ffd3883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 077/112] fix: Python masks were created from the wrong memory
 if the array was not contiguous

---
 support/python/trax/region.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/python/trax/region.py b/support/python/trax/region.py
index 230dc2a..ae77783 100644
--- a/support/python/trax/region.py
+++ b/support/python/trax/region.py
@@ -344,6 +344,8 @@ class Mask(Region):
         """
         assert(len(source.shape) == 2 and source.dtype == np.uint8)
 
+        source = np.ascontiguousarray(source)
+
         mask = cast(trax_region_create_mask(x, y, source.shape[1], source.shape[0]), c_void_p)
 
         data = trax_region_write_mask_row(mask, 0)
-- 
2.43.0


From b478a0d73a87d31d53e8424a11177e751d742ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 078/112] fix: the names of the formats of encoded images were
 swapped in Python

---
 support/python/trax/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/python/trax/image.py b/support/python/trax/image.py
index 375c46b..cfa7979 100644
--- a/support/python/trax/image.py
+++ b/support/python/trax/image.py
@@ -314,8 +314,8 @@ class MemoryImage(Image):
             raise TraxException("NumPy is not installed")
 
 
-IMAGE_BUFFER_JPEG = 1
-IMAGE_BUFFER_PNG = 2
+IMAGE_BUFFER_PNG = 1
+IMAGE_BUFFER_JPEG = 2
 
 _image_buffer_map_string = {IMAGE_BUFFER_JPEG : "jpeg", IMAGE_BUFFER_PNG: "png"}
 
-- 
2.43.0


From 875e9e55f78db855a2f76fb270ca89373f403981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 079/112] fix: Python loggers read beyond the end of the logged
 data

---
 support/python/trax/_ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/_ctypes.py b/support/python/trax/_ctypes.py
index a4e12e0..be242e7 100644
--- a/support/python/trax/_ctypes.py
+++ b/support/python/trax/_ctypes.py
@@ -600,7 +600,7 @@ struct_trax_bounds._fields_ = [
 
 trax_bounds = struct_trax_bounds# /home/lukacu/Checkouts/vot/trax/include/trax.h: 168
 
-trax_logger = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_int32, ctypes.c_void_p)
+trax_logger = ctypes.CFUNCTYPE(None, POINTER(ctypes.c_char), ctypes.c_int32, ctypes.c_void_p)
 trax_enumerator = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_void_p)
 
 # /home/lukacu/Checkouts/vot/trax/include/trax.h: 181
-- 
2.43.0


From f53d1adba9f5b1dd48df7de19d8723d3e8b68eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 080/112] fix: Python loggers lost text that is not ASCII

---
 support/python/trax/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index b2cdfb9..498d859 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -7,6 +7,7 @@ __all__ = \
     'Rectangle', 'Special', 'Mask', 'TraxStatus', 'Properties']
 
 import os
+import codecs
 import traceback
 import weakref
 from ctypes import py_object, c_void_p, cast, byref, POINTER
@@ -70,6 +71,7 @@ class Logger(object):
     def __init__(self):
         """ Initialize logger"""
         self._interrupted = False
+        self._decoder = codecs.getincrementaldecoder("utf-8")(errors="replace")
 
     def __call__(self, buffer, length, _):
         """ Call logger with buffer and length, this method is called from C code, handles buffer decoding and calls handle() method. It also handles KeyboardInterrupt exception.
@@ -83,8 +85,10 @@ class Logger(object):
         try:
             if not buffer:
                 return
-            message = buffer[:length].decode("utf-8")
-            self.handle(message)
+            # A character can be split between two calls
+            message = self._decoder.decode(buffer[:length])
+            if message:
+                self.handle(message)
         except KeyboardInterrupt:
             self._interrupted = True
 
@@ -123,7 +127,7 @@ class FileLogger(Logger):
         """
         super().__init__()
         os.makedirs(os.path.dirname(filename), exist_ok=True)
-        self._fp = open(filename, "w")
+        self._fp = open(filename, "w", encoding="utf-8")
 
     def handle(self, message: str):
         """ Handle message by writing it to a file.
-- 
2.43.0


From 0fd7ea9fa5277318dc885dda6db50cdeabd0c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 081/112] fix: a Python log file could not be created in the
 current directory

---
 support/python/trax/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index 498d859..7790f50 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -126,7 +126,7 @@ class FileLogger(Logger):
             filename (str): name of the file to write messages to
         """
         super().__init__()
-        os.makedirs(os.path.dirname(filename), exist_ok=True)
+        os.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
         self._fp = open(filename, "w", encoding="utf-8")
 
     def handle(self, message: str):
-- 
2.43.0


From f18225db816b56a8f0060c5f261a85eb1375daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 082/112] fix: a Python mask with a negative offset could not
 be normalized

---
 support/python/trax/region.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/support/python/trax/region.py b/support/python/trax/region.py
index ae77783..135992f 100644
--- a/support/python/trax/region.py
+++ b/support/python/trax/region.py
@@ -431,4 +431,7 @@ class Mask(Region):
         if not normalize:
             return mat
 
-        return np.pad(mat, pad_width=[(y.value, 0), (x.value, 0)], mode='constant')
+        # Pixels left of and above the origin are not a part of the normalized mask
+        mat = mat[max(0, -y.value):, max(0, -x.value):]
+
+        return np.pad(mat, pad_width=[(max(0, y.value), 0), (max(0, x.value), 0)], mode='constant')
-- 
2.43.0


From b6f805339b73a5e0d2c358416179e91bf82f182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 083/112] fix: a Python client without a log could not be
 created

---
 support/python/trax/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index b67d9e7..b1404f3 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -45,9 +45,9 @@ class Client(object):
         else:
             self._logger = None
 
-        self._clogger = trax_logger(self._logger) if not self._logger is None else None
+        self._clogger = trax_logger(self._logger) if not self._logger is None else trax_logger()
 
-        logger = trax_logger_setup(self._clogger, 0, 0)
+        logger = trax_logger_setup(self._clogger, None, 0)
 
         if isinstance(stream, tuple):
 
-- 
2.43.0


From 9ecbb60b3383fe968965deba33cce2c8eb7d3816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 084/112] fix: Python clients and servers did not report why a
 connection failed

---
 support/python/trax/client.py | 2 +-
 support/python/trax/server.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index b1404f3..cd4bec9 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -75,7 +75,7 @@ class Client(object):
             raise TraxException("Unable to connect to tracker")
 
         if trax_is_alive(handle) == 0:
-            message = trax_get_error(handle.reference)
+            message = trax_get_error(handle)
             message = message.decode('utf-8') if not message is None else "Unknown"
             raise TraxException("Exception when connecting to tracker: {}".format(message))
 
diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index b969e5d..f69cf91 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -79,7 +79,7 @@ class Server(object):
             raise TraxException("Exception when setting up.")
 
         if trax_is_alive(handle) == 0:
-            message = trax_get_error(handle.reference)
+            message = trax_get_error(handle)
             message = message.decode('utf-8') if not message is None else "Unknown"
             raise TraxException("Exception when setting up: {}".format(message))
 
-- 
2.43.0


From b7df53fd720ba5fc342cf4f2bb1ea390e59c7214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:27 +0000
Subject: [PATCH 085/112] fix: Python images of the other byte order were sent
 with their bytes swapped

---
 support/python/trax/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/image.py b/support/python/trax/image.py
index cfa7979..bbce713 100644
--- a/support/python/trax/image.py
+++ b/support/python/trax/image.py
@@ -253,7 +253,7 @@ class MemoryImage(Image):
 
             assert(isinstance(image, np.ndarray))
 
-            image = np.ascontiguousarray(image)
+            image = np.ascontiguousarray(image, dtype=image.dtype.newbyteorder("="))
 
         except ImportError:
             from . import TraxException
-- 
2.43.0


From 5c2ac00e5cee7ca87837d2912efb72e361f9f8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:27 +0000
Subject: [PATCH 086/112] fix: Python loggers were used after they were
 released

---
 support/python/trax/__init__.py | 5 +++--
 support/python/trax/client.py   | 2 +-
 support/python/trax/server.py   | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index 7790f50..23c0fc1 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -300,14 +300,15 @@ class PropertiesWrapper(Wrapper):
 class HandleWrapper(Wrapper):
     """ Wrapper for trax_handle_t structure."""
 
-    def __init__(self, reference, owner=True):
+    def __init__(self, reference, owner=True, logger=None):
         """ Initialize wrapper with reference to trax_handle_t structure.
         
         Args:
             reference (c_void_p): reference to trax_handle_t structure
             owner (bool): whether to take ownership of the structure
+            logger: callback that is used by the handle, it has to be available until the handle is released
         """
-        super().__init__(POINTER(struct_trax_handle), reference, lambda x: trax_cleanup(byref(x)) if owner else None)
+        super().__init__(POINTER(struct_trax_handle), reference, lambda x, _=logger: trax_cleanup(byref(x)) if owner else None)
 
 def wrap_image_list(list):
     """ Wrap image list internal C structure into a dictionary of images.
diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index cd4bec9..a4b2531 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -79,7 +79,7 @@ class Client(object):
             message = message.decode('utf-8') if not message is None else "Unknown"
             raise TraxException("Exception when connecting to tracker: {}".format(message))
 
-        self._handle = HandleWrapper(handle)
+        self._handle = HandleWrapper(handle, logger=self._clogger)
 
         metadata = self._handle.reference.contents.metadata
 
diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index f69cf91..c48e6cb 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -83,7 +83,7 @@ class Server(object):
             message = message.decode('utf-8') if not message is None else "Unknown"
             raise TraxException("Exception when setting up: {}".format(message))
 
-        self._handle = HandleWrapper(handle)
+        self._handle = HandleWrapper(handle, logger=self._logger)
 
     def wait(self):
         """ Wait for client message request. Recognize it and parse them when received .
-- 
2.43.0


From 86f3faee5331f364875eaecd66c8a91aaf04341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 087/112] fix: parts of OpenCV matrices were converted to wrong
 masks

---
 support/opencv/opencv.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index 4289dd6..020329b 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -144,7 +144,11 @@ Region mat_to_region(const cv::Mat& mat) {
     CV_Assert(mat.type() == CV_8UC1);
 
     Region r = Region::create_mask(0, 0, mat.cols, mat.rows);
-    memcpy(r.write_mask_row(0), mat.data, mat.cols * mat.rows);
+
+    // The rows of a matrix can be further apart than they are wide
+    for (int i = 0; i < mat.rows; i++) {
+        memcpy(r.write_mask_row(i), mat.ptr(i), mat.cols);
+    }
 
     return r;
 
-- 
2.43.0


From 97db8e1f6d246a699f93b1f027fed3b914294bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 088/112] fix: masks with an offset were converted to wrong
 OpenCV matrices

---
 support/opencv/opencv.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index 020329b..d3f347e 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -128,12 +128,16 @@ cv::Mat region_to_mat(const Region& region) {
     int height, width, x, y;
     region.get_mask_header(&x, &y, &width, &height);
 
-    cv::Mat result(height + y, width + x, CV_8UC1);
+    // Pixels left of and above the origin are not a part of the matrix
+    int left = MAX(0, -x), top = MAX(0, -y);
 
-    for (int i = 0; i < height; i++) {
-            const char* data = region.get_mask_row(i);
-            memcpy(&(result.data[(i + y) * width + x]), data, width);
+    if (left >= width || top >= height) return cv::Mat();
 
+    cv::Mat result = cv::Mat::zeros(height + y, width + x, CV_8UC1);
+
+    for (int i = top; i < height; i++) {
+        const char* data = region.get_mask_row(i);
+        memcpy(result.ptr(i + y) + x + left, data + left, width - left);
     }
     return result;
 
-- 
2.43.0


From d6d91f430666784a85dd8db1dc3c8ccf22e4e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 089/112] fix: gray images could not be converted to or from
 OpenCV matrices

---
 support/opencv/opencv.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index d3f347e..4a5a571 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -27,8 +27,11 @@ cv::Mat image_to_mat(const Image& image) {
 
         cv::Mat result;
 
-        cv::cvtColor(tmp, result, cv::COLOR_BGR2RGB);
-        
+        if (format == TRAX_IMAGE_MEMORY_RGB)
+            cv::cvtColor(tmp, result, cv::COLOR_RGB2BGR);
+        else
+            tmp.copyTo(result);
+
         return result;
     }
     case TRAX_IMAGE_BUFFER: {
@@ -100,7 +103,11 @@ Image mat_to_image(const cv::Mat& mat) {
     Image image = Image::create_memory(mat.cols, mat.rows, format);
     char* dst = image.write_memory_row(0);
     cv::Mat tmp(mat.size(), mat.type(), dst);
-    cv::cvtColor(mat, tmp, cv::COLOR_BGR2RGB);
+
+    if (format == TRAX_IMAGE_MEMORY_RGB)
+        cv::cvtColor(mat, tmp, cv::COLOR_BGR2RGB);
+    else
+        mat.copyTo(tmp);
 
     return image;
 }
-- 
2.43.0


From 7537bf520aadf7784d22bd5db996d89a8e426928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 090/112] fix: drawing a mask failed or changed the rest of the
 canvas

---
 support/opencv/opencv.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index 4a5a571..4078faa 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -201,11 +201,11 @@ void draw_region(cv::Mat& canvas, const Region& region, cv::Scalar color, int wi
             int width = MIN(canvas.cols, mask.cols);
             int height = MIN(canvas.rows, mask.rows);
 
-            cv::Mat stencil = cv::Mat::zeros(cv::Size(height, width), CV_8UC3);
+            if (width < 1 || height < 1) break;
 
-            stencil(cv::Range(0, height), cv::Range(0, width)).setTo(color, mask);
+            cv::Rect visible(0, 0, width, height);
 
-            canvas = canvas * (1 - stencil) + stencil;
+            canvas(visible).setTo(color, mask(visible));
 
             break;
         }
-- 
2.43.0


From ef5fc068c9c9f5595e43a63e0ff2d53c93f10117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 091/112] fix: the MATLAB and Octave functions aborted on URL
 images

---
 support/matlab/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 37e4803..3f09f50 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -323,7 +323,7 @@ mxArray* image_to_array(const Image& img) {
         break;
     }
     case TRAX_IMAGE_URL: {
-        std::string s = img.get_path();
+        std::string s = img.get_url();
         const char* cp = s.c_str();
         val = mxCreateCharMatrixFromStrings(1, &cp);
         break;
-- 
2.43.0


From 8367518a43962cc76bb5df3950ca1f2b4d70768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 092/112] fix: the MATLAB and Octave functions refused most
 cell arrays of parameters

---
 support/matlab/helpers.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 3f09f50..30274fb 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -76,11 +76,10 @@ Properties cell_to_parameters(const mxArray * input) {
     int length = mxGetM(input);
     int n = mxGetN(input);
 
-    if ( min(mxGetM(input), mxGetN(input)) != 1 ) {
-        MEX_ERROR("Array must be a vector");
+    if (length > 0 && n != 2) {
+        MEX_ERROR("Array must have two columns");
     }
 
-
     Properties prop;
 
     for (int i = 0; i < length; i++) {
-- 
2.43.0


From afc0f54b6d2ecde4bd4a3b1c79dd46b93fda51c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 093/112] fix: the MATLAB and Octave functions refused empty
 strings and used strings that were none

---
 support/matlab/helpers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 30274fb..daaa594 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -16,11 +16,13 @@ bool is_property_name(const std::string &str) {
 
 string get_string(const mxArray *arg) {
 
-    if (mxGetM(arg) != 1) {
+    if (!arg || !mxIsChar(arg) || (mxGetM(arg) != 1 && !mxIsEmpty(arg))) {
         MEX_ERROR("Must be a string");
         return string();
     }
 
+    if (mxIsEmpty(arg)) return string();
+
     int l = (int) mxGetN(arg);
 
     char* cstr = (char *) malloc(sizeof(char) * (l + 1));
-- 
2.43.0


From 6302d2dea8cb649945b28060c70ef5b1a3cc21a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 094/112] fix: masks with a negative offset were written
 outside of MATLAB and Octave arrays

---
 support/matlab/helpers.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index daaa594..d8ffbda 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -291,16 +291,16 @@ mxArray* region_to_array(const Region& region) {
         int x, y, width, height;
         region.get_mask_header(&x, &y, &width, &height);
         mwSize dims[2];
-        dims[0] = height + y;
-        dims[1] = width + x;
+        dims[0] = max(0, height + y);
+        dims[1] = max(0, width + x);
         
         val = mxCreateNumericArray(2, dims, mxUINT8_CLASS, mxREAL);
         char *data = (char*) mxGetPr(val);
         memset(data, 0, dims[0] * dims[1]);
 
-        for (int i = 0; i < height; i++) {
+        for (int i = max(0, -y); i < height; i++) {
             const char *row = region.get_mask_row(i);
-            for (int j = 0; j < width; j++) {
+            for (int j = max(0, -x); j < width; j++) {
                 *(data + (j + x) * (height + y) + y + i) = row[j];          
             }
         }
-- 
2.43.0


From 8c0be037628136b51f986526f989ee9a25c4a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 095/112] fix: the MATLAB and Octave server function read
 arguments that were not given

---
 support/matlab/traxserver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/support/matlab/traxserver.cpp b/support/matlab/traxserver.cpp
index 471b5ff..980bf05 100644
--- a/support/matlab/traxserver.cpp
+++ b/support/matlab/traxserver.cpp
@@ -52,6 +52,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         std::map<std::string, std::string> custom;
 
+        if ( nrhs % 2 == 0 ) { MEX_ERROR("Argument without a value."); return; }
+
         if ( nrhs > 3 ) {
 
             for (int i = 3; i < std::floor((float)nrhs/2) * 2; i+=2) {
@@ -116,6 +118,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         if (!handle) { MEX_ERROR("Protocol not initialized."); return; }
 
+        if ( nrhs % 2 == 0 ) { MEX_ERROR("Argument without a value."); return; }
+
         if ( nrhs > 1 ) {
 
 			for (int i = 1; i < std::floor((float)nrhs/2) * 2; i+=2) {
@@ -197,7 +201,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         if (nrhs > 2)
             MEX_ERROR("Only one optional string argument allowed.");
-        else
+        else if (nrhs > 1)
             reason = get_string(prhs[1]);
 
         if (handle->terminate(reason) == TRAX_ERROR) {
-- 
2.43.0


From ec8fed18876059845252bd33cd8640621c1ea964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 096/112] fix: the MATLAB and Octave client function gave the
 properties of earlier states to the callback

---
 support/matlab/traxclient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/matlab/traxclient.cpp b/support/matlab/traxclient.cpp
index d10a6d6..1d0777e 100644
--- a/support/matlab/traxclient.cpp
+++ b/support/matlab/traxclient.cpp
@@ -453,6 +453,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 			// Start timing a frame
 			timer_state begin = timer_clock();
 
+			st.properties.clear();
+
 			if (!tracker.wait(st.region, st.properties))
 				throw std::runtime_error("Did not receive response.");
 
-- 
2.43.0


From 3b753b74c781bafedc29b0e60283c82d0c0a3cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 097/112] fix: the test client sent a scrambled and mostly
 undefined image to trackers that take images from memory

---
 support/client/tester.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/support/client/tester.cpp b/support/client/tester.cpp
index f44f20c..13c51e3 100644
--- a/support/client/tester.cpp
+++ b/support/client/tester.cpp
@@ -262,8 +262,13 @@ int main(int argc, char** argv) {
             char* buffer = NULL;
             tester_copy_resource("static.bin", &buffer, &length);
             Image tmp = Image::create_memory(320, 240, TRAX_IMAGE_MEMORY_RGB);
-            char* dst = tmp.write_memory_row(0);
-            memcpy(dst, buffer, 320 * 240);
+            // The resource is stored as a Matlab array, one channel after another in column-major order
+            for (int y = 0; y < 240; y++) {
+                char* dst = tmp.write_memory_row(y);
+                for (int x = 0; x < 320; x++)
+                    for (int k = 0; k < 3; k++)
+                        dst[x * 3 + k] = buffer[(k * 320 + x) * 240 + y];
+            }
             free(buffer);
             image.set(tmp, TRAX_CHANNEL_COLOR);
         } else if TRAX_SUPPORTS(image_formats, TRAX_IMAGE_PATH) {
-- 
2.43.0


From 5b1f011e4cc17043cdc0c6ab1837529c83eb68f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 098/112] fix: the test client crashed if a number of
 initializations was given and did not wait for the last answer

---
 support/client/tester.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/support/client/tester.cpp b/support/client/tester.cpp
index 13c51e3..be3a414 100644
--- a/support/client/tester.cpp
+++ b/support/client/tester.cpp
@@ -168,7 +168,7 @@ void print_debug(const char *format, ...) {
 }
 
 
-#define CMD_OPTIONS "hdt:p:e:xXI"
+#define CMD_OPTIONS "hdt:p:e:xXI:"
 
 int main(int argc, char** argv) {
 
@@ -316,7 +316,7 @@ int main(int argc, char** argv) {
 
             frame = 0;
 
-            while (frame < 20) {
+            while (frame <= 20) {
                 // Repeat while tracking the target.
                 bool result = false;
                 Properties additional;
@@ -344,6 +344,9 @@ int main(int argc, char** argv) {
                     }
                 }
 
+                // The answer to the last frame has to be received before the next initialization
+                if (frame == 20) break;
+
                 Properties no_properties;
 
                 if (multiobject && frame % 5 == 3) {
-- 
2.43.0


From 0a5374f6e975cac0533dcca49c4d19d323adae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 099/112] fix: the test client did not escape quotes and
 backslashes in the arguments of the tracker

---
 support/client/tester.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/support/client/tester.cpp b/support/client/tester.cpp
index be3a414..fa4ae3d 100644
--- a/support/client/tester.cpp
+++ b/support/client/tester.cpp
@@ -168,6 +168,25 @@ void print_debug(const char *format, ...) {
 }
 
 
+// Backslashes are only special if they are followed by a quote
+string escape_argument(const string& argument) {
+
+    string result, backslashes;
+
+    for (size_t i = 0; i < argument.size(); i++) {
+        if (argument[i] == '\\') {
+            backslashes += '\\';
+            continue;
+        }
+        result += argument[i] == '"' ? backslashes + backslashes + "\\" : backslashes;
+        result += argument[i];
+        backslashes.clear();
+    }
+
+    return result + backslashes + backslashes;
+
+}
+
 #define CMD_OPTIONS "hdt:p:e:xXI:"
 
 int main(int argc, char** argv) {
@@ -233,7 +252,7 @@ int main(int argc, char** argv) {
             stringstream buffer;
 
             for (int i = optind; i < argc; i++) {
-                buffer << " \"" << string(argv[i]) << "\" ";
+                buffer << " \"" << escape_argument(argv[i]) << "\" ";
             }
 
             tracker_command = buffer.str();
-- 
2.43.0


From 2067a14886ba722a1dfc08e20a990f5cf41d3a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 100/112] fix: the player never started the tracker

---
 support/client/player.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/client/player.cpp b/support/client/player.cpp
index 8d7fe74..f018ebb 100644
--- a/support/client/player.cpp
+++ b/support/client/player.cpp
@@ -320,6 +320,8 @@ int main(int argc, char** argv) {
                 print_debug("Using interactive region: %s\n", ((string) initialization_region).c_str());
             } else break;
 
+            tracker.query();
+
             if (!tracker.ready()) {
                 throw std::runtime_error("Tracker process not alive anymore.");
             }
-- 
2.43.0


From 213c5b2fc121b81907f14ab057942daa9e9de396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 101/112] fix: the player did not escape quotes and backslashes
 in the arguments of the tracker

---
 support/client/player.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/support/client/player.cpp b/support/client/player.cpp
index f018ebb..d44789d 100644
--- a/support/client/player.cpp
+++ b/support/client/player.cpp
@@ -184,6 +184,25 @@ void configure_signals() {
 
 }
 
+// Backslashes are only special if they are followed by a quote
+string escape_argument(const string& argument) {
+
+    string result, backslashes;
+
+    for (size_t i = 0; i < argument.size(); i++) {
+        if (argument[i] == '\\') {
+            backslashes += '\\';
+            continue;
+        }
+        result += argument[i] == '"' ? backslashes + backslashes + "\\" : backslashes;
+        result += argument[i];
+        backslashes.clear();
+    }
+
+    return result + backslashes + backslashes;
+
+}
+
 #define GROUNDTRUTH_COLOR Scalar(100, 255, 100)
 #define TRACKER_COLOR Scalar(100, 100, 255)
 
@@ -284,7 +303,7 @@ int main(int argc, char** argv) {
             stringstream buffer;
 
             for (int i = optind; i < argc; i++) {
-                buffer << " \"" << string(argv[i]) << "\" ";
+                buffer << " \"" << escape_argument(argv[i]) << "\" ";
             }
 
             tracker_command = buffer.str();
-- 
2.43.0


From 4f207910e30dd87df45352fd09dea45b9dfc1d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 102/112] fix: the player did not accept its documented switch
 -g

---
 support/client/player.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/support/client/player.cpp b/support/client/player.cpp
index d44789d..ef4cbcb 100644
--- a/support/client/player.cpp
+++ b/support/client/player.cpp
@@ -271,6 +271,9 @@ int main(int argc, char** argv) {
             case 'X':
                 connection = CONNECTION_SOCKETS;
                 break;
+            case 'g':
+                // Results are always visualized in the window
+                break;
             case 'V':
                 video_file = string(optarg);
                 break;
-- 
2.43.0


From 561e797686d7e1f9221eef5745416bf8278ed92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 103/112] fix: a missing video file went unnoticed by the
 player

---
 support/client/player.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/support/client/player.cpp b/support/client/player.cpp
index ef4cbcb..a4bb2b8 100644
--- a/support/client/player.cpp
+++ b/support/client/player.cpp
@@ -318,6 +318,10 @@ int main(int argc, char** argv) {
 
         Mat cvimage;
         VideoCapture reader(video_file);
+        if (!reader.isOpened()) {
+            throw std::runtime_error("Unable to open video file.");
+        }
+
         int video_length = reader.get(cv::CAP_PROP_FRAME_COUNT);
 
         print_debug("Video will be loaded from file %s.\n", video_file.c_str());
-- 
2.43.0


From 9a418f50a083596994a8cfa2e63ea5962228e3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 104/112] fix: rectangles that were drawn upwards or to the
 left in the player had negative sizes

---
 support/client/player.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/client/player.cpp b/support/client/player.cpp
index a4bb2b8..bbee86d 100644
--- a/support/client/player.cpp
+++ b/support/client/player.cpp
@@ -91,7 +91,7 @@ void on_mouse(int event, int x, int y, int flags, void* data) {
         rc->start = point;
     } else if ( event == EVENT_LBUTTONUP ) {
         rc->dragging = false;
-        rc->region = Region::create_rectangle(rc->start.x, rc->start.y, point.x - rc->start.x, point.y - rc->start.y);
+        rc->region = Region::create_rectangle(std::min(rc->start.x, point.x), std::min(rc->start.y, point.y), std::abs(point.x - rc->start.x), std::abs(point.y - rc->start.y));
     }
 
     if (rc->dragging) {
-- 
2.43.0


From f6a182f70ca8ddede61b2dc1e4bf243421dcf228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:56 +0000
Subject: [PATCH 105/112] fix: Numbers are printed and parsed with a decimal
 point in every locale

---
 b/.ninja_deps                                 | Bin 0 -> 16520 bytes
 b/.ninja_log                                  |   9 +
 b/CMakeCache.txt                              | 513 ++++++++++
 b/CMakeFiles/3.28.3/CMakeCCompiler.cmake      |  74 ++
 b/CMakeFiles/3.28.3/CMakeCXXCompiler.cmake    |  85 ++
 .../3.28.3/CMakeDetermineCompilerABI_C.bin    | Bin 0 -> 15968 bytes
 .../3.28.3/CMakeDetermineCompilerABI_CXX.bin  | Bin 0 -> 15992 bytes
 b/CMakeFiles/3.28.3/CMakeSystem.cmake         |  15 +
 .../3.28.3/CompilerIdC/CMakeCCompilerId.c     | 880 ++++++++++++++++++
 b/CMakeFiles/3.28.3/CompilerIdC/a.out         | Bin 0 -> 16088 bytes
 .../CompilerIdCXX/CMakeCXXCompilerId.cpp      | 869 +++++++++++++++++
 b/CMakeFiles/3.28.3/CompilerIdCXX/a.out       | Bin 0 -> 16096 bytes
 b/CMakeFiles/CMakeConfigureLog.yaml           | 507 ++++++++++
 .../trax-component-core-noconfig.cmake        |  19 +
 .../trax-component-core.cmake                 | 106 +++
 b/CMakeFiles/TargetDirectories.txt            |  10 +
 b/CMakeFiles/cmake.check_cache                |   1 +
 b/CMakeFiles/rules.ninja                      | 111 +++
 b/CPackConfig.cmake                           |  73 ++
 b/CPackSourceConfig.cmake                     |  81 ++
 b/build.ninja                                 | 384 ++++++++
 b/cmake_install.cmake                         | 121 +++
 b/libtraxstatic.a                             | Bin 0 -> 409834 bytes
 b/trax-config-version.cmake                   |  65 ++
 b/trax-config.cmake                           |  70 ++
 src/neutral.h                                 |  70 ++
 src/region.c                                  |  11 +
 src/trax.c                                    |   7 +-
 28 files changed, 4079 insertions(+), 2 deletions(-)
 create mode 100644 b/.ninja_deps
 create mode 100644 b/.ninja_log
 create mode 100644 b/CMakeCache.txt
 create mode 100644 b/CMakeFiles/3.28.3/CMakeCCompiler.cmake
 create mode 100644 b/CMakeFiles/3.28.3/CMakeCXXCompiler.cmake
 create mode 100755 b/CMakeFiles/3.28.3/CMakeDetermineCompilerABI_C.bin
 create mode 100755 b/CMakeFiles/3.28.3/CMakeDetermineCompilerABI_CXX.bin
 create mode 100644 b/CMakeFiles/3.28.3/CMakeSystem.cmake
 create mode 100644 b/CMakeFiles/3.28.3/CompilerIdC/CMakeCCompilerId.c
 create mode 100755 b/CMakeFiles/3.28.3/CompilerIdC/a.out
 create mode 100644 b/CMakeFiles/3.28.3/CompilerIdCXX/CMakeCXXCompilerId.cpp
 create mode 100755 b/CMakeFiles/3.28.3/CompilerIdCXX/a.out
 create mode 100644 b/CMakeFiles/CMakeConfigureLog.yaml
 create mode 100644 b/CMakeFiles/Export/90cc544b2e67d50154fb73ad0acebfde/trax-component-core-noconfig.cmake
 create mode 100644 b/CMakeFiles/Export/90cc544b2e67d50154fb73ad0acebfde/trax-component-core.cmake
 create mode 100644 b/CMakeFiles/TargetDirectories.txt
 create mode 100644 b/CMakeFiles/cmake.check_cache
 create mode 100644 b/CMakeFiles/rules.ninja
 create mode 100644 b/CPackConfig.cmake
 create mode 100644 b/CPackSourceConfig.cmake
 create mode 100644 b/build.ninja
 create mode 100644 b/cmake_install.cmake
 create mode 100644 b/libtraxstatic.a
 create mode 100644 b/trax-config-version.cmake
 create mode 100644 b/trax-config.cmake
 create mode 100644 src/neutral.h

diff --git a/b/.ninja_deps b/b/.ninja_deps
new file mode 100644
index 0000000000000000000000000000000000000000..844bbd0a047de70635af95904e040a755a7a9173
GIT binary patch
literal 16520
zcmche2e=$n6~`|ml+a6nP}C<xL}7OgU_gx$AOujF1w}>2d9$;-Lw0ADnc2J-6b+()
zg{oqq3koX5juioWSHLbRz4zYzojWu8X4}kc{E&}78FJ76mUGTM_uR7EO}LJGgju!Q
z!8)^*QagdY4>XtAOP!`2R6^gJ4ni|@ta8=yD}irSCe6TJxNF%ed(ZLDHpo}PR=YA)
zsZIBkEA=ep6H?v@{EFjR%}&*>1Yy-GwSBv4*UAm0o=NKHmGK?7F2(9;$`|$5F}?dj
zW8to)rsH;|OLezXnRLRS(sU-RQp08}eu+N&p;YkHu=;DZ8FqX-K;TKr=l9p2l$S!M
zC1a(YCy?8<Uv79mraZqII7ivK|Bn~vNn>5!WAI*)+g`9Ds90!HMxxZC#oKCnZoO3X
zI+IPh`ADI*M9)FknT*<ccsx!?wD=I5-IFn4txDapDg!!PuuIxkVmDC_rn!kP4REy|
zge%&3Zqu{OrfrB5JOH<#4@F$VNU@c=AHMeUK_Au1xGyOmHV-h&y_6rK)Jle~uDI;k
z8?QR|j(Mx`y*ii$WZta-)&y&TwZR;)4p<kg2i6B0fDOS$U}KO!SF849r!G@f-7~b0
zaXEF}P5C_j?4PTSS8m)z*|>Hy{b>H)2{+%5XY3}9d<UF@b4}Zexu)%K`xtE{6Z^LG
z*oyd-Vbt1Qp#ADrxMTWNYf_?V<d*7|@%hsB!d-RiO5Hqu-<R%xz&<)w+yr+V9am!J
zjpOz?2>p%~8cD-9z+ckuXIb;u^1Nk^Z8)A$>$q0vc&=9de~R~?6$f_HY01F<4X>a-
z)|#Ffx{&?_r|bXOJ`!<Cme*=|LRHtp9TGdLgg<SEe^Or14pXKR)|zHr`}#k|<B8XG
zg!p%O`Qw*$MNci=$G^cTIQ}SpT7=JKk(2&)mAFn-*nb(9D=TO`H~zdTTt6cJ32s4~
zh;O-J31IE(;0@T?cB_u5T|r$-dA{y-EbOwbDc+Ze<Jy7P`H#hUlPf|ym@?bi)_;Ik
z(AFIpb;+sPZs>$7VE?|*_{6sYyJ=gpG^^hg;%J?8Nxv=L$H*T8rykg$HtuiWjv2F4
zY^8n;fAKi+D~^BSn#;|m*72|YhdP3`ZAm4+EUtrg*zn1UXXf)S#?XPLmV$;!#$Jl6
z_<3=Dy6uwbTMg;^&x-TS&}%uCF@={Ime+AZ+b=hMT72xW_FJ9Mp4Phm$=F<fN}`#N
ze++kEew$6n6?NTLk5jj-042R#Xzo>MZo%A``KP&84(nGGnRNM&C@&ayrYtNiq$|?>
z$zJo~7^uU6ZtsU<bDOpqL}U2@+<E=;OC}FBf4}%RVun)RE8dqlRz&$qNVf1@xT`YP
z9ckT<X6kpSL;Fn6-XO}mQM0-{DNpY$%pkC%?W_7W<?~llD>p%Q-!1pQN%jt#@-2IZ
zxuEFYVKZbm2U`Hq@0MUIur-kWy#Txrya-Hy7lUoVc3?hu3D_RI6zl+A23`(!1hNk)
zfikE7@wEkDXRr&9we*!>A=nMb`tmC9YVaB$@%Xjibzl#$80-o50(%3=7xw{6!M-5b
z2g%-PBd{OXALQ?c2nQ_|IyOY#O7z}im!w>&Z)TNaxNlH?9ecXh)9&2spVoGH1K(no
z1AyqQsBIGcCOQ{Ar)~9o>s<7h=v4G6_RBs4;-Dfh>$cumD)sfDy6VcPuVt1u)K`a=
zPj+fGiS|leHc*}fBsrccH!h`oAZFAoH)OfJgfbaV&%So}ej{cmbupZR`Jd)Q2T|q5
zSBkeK`M8diUoPHOyp~1OFTooavn3&{+_-31neF>7d-)5C_c3ND^+h-n{W{c#Z<Vgh
z7YfyD2CW&2x&V&&evfSsDb;P)_8lt`Js&xl+u3p@IhfQs{d}Rm=sc8_-PVRU501p4
zo;HU2NzXdrc*}J{c5b0IqdYcg^c*+^{VdQNBeL(=<MGUDRZk;zR-rzMjiTm6nP<Y;
zp<gd)8_kHSGmssyXXGawTR79Y`)p1=hulPeosk^5M0Dc!S!D8cBYo|uT73qdtS{Mi
z?Bj8mEMxsN+)O{~ZAzV9xQ}A@w(ZNQD-C@rubp0T^-1LOV_0H0$CLfvC*b7TEfQ6y
zA-gzNXWDmreBTq>$KG`+b?7`NoyT-s2ZM@g)hU$c+f%m@Y1wP*d3iFte0yr1?JjqG
z&uy_E6%8nLQt>t|&#k$p&N7ucv3Q$xJEWtA?y_$4<Hg&Ixt8Y>wmw#z7irb7r$s>@
zg*Tvg({Gy`qDy4^2;~#~wxvW$5z&1<0hs~6A0GQO<M^yPLrWhd9EZ%6<gEwN_U!YH
zxmEJkgZP&G=wL8c{vH%L_g>Z9RdT{ZK!1KCxml8P{XcTrH`3mlz?;Eaz@gx+U_bCS
za2R+ycn5eVI2^nSyc-zcJ-`H$zyeiZgBqv<@pT6r0hWO#XaN^^pbd@$J_tYvI$$}N
z0+MG>gB2j1fA7uzi(h2tg1%knP*zgG4`Xxfi#<7YQm)j8DDTFAB759;dweXsdGw<v
zrnk&c4ii3@t}{sshx@KDO03qQ$8vZKyv6->4(HL+Rw-~=)l${Anp`a=cVH{2qhM^R
zHN%pe|CCyG*zgF6AAp-5({)^{wM$K}&T;Yk$KurVmilNoONxzC^uwK5GvE@n$!b;V
z9=N0D_fb#RcKLeN^+<4eFTAdfirAcUdKOC^myQ~jOG=l}SHK;Ji%B8+m@YmZ9o!eh
z7YI|udHN19xp!C&Z=&B0QO?utRR@`Zwu;Zy3^oItw6`3$R9(UP#Wg)T52<HSe_O+S
zd!QcS2gS#zb+dCkNFUzF`A@w^4lQ@>4%;|68Eq%!=^R39G0N*b$_vh!F3W{;IP1_+
z=wr^ikG)IQq4)AF>(E><8$6$D(EF(W|GnPKqRsSv{%HRH{on&&B{&9r5F86W1Z16*
zb?C$3IB+~T0el2}6nqSP9GnPF0<xx_3{C;3g8Vf?@6+WPTD7o;j^#aTL{#3SY!S9P
zjXF1&v+n(3t55JPwvsUwwN-lTGB&Y+tifXMRm~;R>$jX^CFfl)<2zZ;MK=e4QT9%s
zmsOAxUtR!q2I+IMyfd<X{T~c}W3V5PI<wbn(RG_MFn~Rlq4U8xJ0o)h<rCD|v-U=D
ztEP{>nYYd`8EeNKD?H`k(1NEt<S58U-+JnaW%MfN+edaB-sBh!F9>bDX{f_l)Xy1+
zW9drxmQ3D>-X7G(=5w*n_LJOLFF^L#e5>6_RZxX5b7R<;+d<f@$bY!jNIGmGzrzT5
zt)obpwJEeSnJ3$_Tb{o{%bFSe(Dllpzk$u;h4(#qbrbdVMiAQ@$WDytv!!nn$YYTi
z$lv0dhIdic%@4BkifHdS#jQtt$9wp=+|=ufcfy@NqTkX`tPb@K<T7m%-T&yE^6kiu
z?XM~RVem)!i?)+%PZ=rsw;`|RZhF0prvswut$BU7r!BiJPb$idL-X3!$zVi~9N{g<
zXU^wt-7^#7&2UEPT#v8CVH%acDX(r~mp)5M`Rp6vWZEgp2=sh71lh6e)XgZ^zrr8s
z^O2l7C_{#07y6;pff+KEKFei2K_*krOhs;YTZZFy?~L96C)1Ct>1lJ)F>0P~Nu+%}
z@&j`)9abewIb6MR8|xc#%&Onw=oq<wZd;x!PG(pQTW(SJ%aGT%VwLFfOWyg2pY1z-
z-;&UzmS(gS$J3c{(bzs2@|?El7cnW9Q%f@Bb^Yxy9ah!edGey?WYa}|_R5kc@1HXL
zDo<Zs9=vK@?U^Aj{dYTDOLCi@MEb=U@?HIy&AJz#tnYz*<{Xp$w@pV*n_rhF+X<a!
z^lU`EHbXY@iJAM-MaX8(hv;cBOL*1r+FC8@HE>47Nye#OozcG5gKyWS{OEzqtMX(W
zce%GL+OO=6Z00=lO}B0vre#HMc6Q6C+i|&7Hk&+k^x16%;ljMSu^Fb0G6wAN$_#n&
z4ZW;%J%c;j40)}SKEf_}@^Pv|hj<QHZtRTwsI?&Kw6WY_4O@U*roEH-Vm6J28R+*V
zugL3*2pam?6Ph7E%ac!as2o~WIipXa%UGPmZaFhEiex1?Bi9TL$vGNPJ0X)Zzp92A
zJ;2^Er#^?={^eOR`sR*%d}Ib<|3HqdEgt1x@K^-&+58T9{gu2@w1AdhifpDGd;Aq8
zW0&poI8lykuxs!-EM;QMm%z!=GwHpWpI2`uU>}l7wCKxra0br5(raWd$Kd_54nEsv
z^e61Jn{tl(Vq`|eC!Q;)3CeT)qRG^?MFB5Dc2vxX=DAas*qGd|zc52yTix||det!9
zs{B%bcOpglB5y2^-6pSYi3zPvljky;uytPDWFX`oj{I<BD`ZF6IXdIzjSDiFJ}2#S
zo6-%f<U;d`^f@_1#&%m2k)NC)Y>s@UEn`uc0h=K^Dn`n(>^osY&iUu&)hXi?0(#pt
zufN@jb*ij3DN;8-x)FnKjBKX9(KR`z<f@@jWf6n3QC@$f@1fml<FJUU4Ur!;5A~k9
z-t4fXCfbqBhn|NUWb{q*>}lH~C-K}aMXe8Kl#h|a>%4ot44GI&t&7a4`At1)9m+@9
zxx0<R&U26(HMjL#?Ft)Yp5?~c$dA&MmXG%VG6A?w?Cu5Ef;Vd1vIsbC&07<hOj~n?
z!ZA*|TD1n8Oy5TtdV7JPXJ^RjIHn(lMhWCBWCzAMu!g0Bb)6@%<;Lpp#@h!9k6WOc
zNzf`cR)ara*Z4$Td{t3CaPASX5hBh!_v{e;4fI)CDQ56{Iyg(Hw&y%)I44@GaZ&m0
zg|2|a+&A@4Ak;I(+vY&4#M9|=<LTlYdHtv#+dfsCLmNl5B!)b>ieoek__C@Qp(&?-
zPf*WzwoRTI^XonMkHgQ;i}V{J&Nt<UX8NVHKDc~r*tpZ~7o8CpR#W!6(H`Z|F*&k6
zJOXD_+@NPfO+#mE4<olY*Kg7tjFLQ3H}03B*Ax$BwG~#Q=s_C~X3EJ)1vWzN0pv1c
zSrlF+>g#0ie&jP_N0dJjLCTH$^6HNDUo$ORt{U$}exhGLu{t=zl)0qtL1tjCM`e1d
z-%WYGzv%fKu}a;i*6J>}<N2!YQxYoGo$v?ZU)r2qU3O1#bf527#daN+3jngg+u>)f
z0lj+GcDxNvrrl@ksO4`(KGW{;A}d~U3$ml^NVXx)r*6)xFBX*gZbG&?ORfAQzOne|
z)3?2v`>0RxE%#B$ebQ{cpU?Zl^u3e31vwpzx_|mKWuF0`1)l?FfHT2a;B0UXI2W7;
zJ`eT;=YtDCa%c7hzP|`A1Q&rXfiHuvfQ!K;;8JiI_$v4sI0c*vz7D<t<Sy}>;9KC^
z;BxRC@Lljd@O|(D@I!C~_z}1gTm`NMKL$SmKLtMnKL@`6zXZPmzXrbnzXiVozXyK+
ze+1WnYr*q<2X`H9{0aOS90rEH-}wuF|5xxg@OSVJ@K10(_!sy$_z$=N+z4(0H-lTi
zt>89rJGcYf3GM=SgL}Ze;689acmO;I9s&=8N5G@tG4MEe0z3(x0#Acyz_Z{vpjP8w
zusWCpmhe~mfZ2R6<<EV=8hoz_<Q{k}{#+Z(0qcNu!FphQumRW*Yy>t2n}AKhT(B9~
S9BcvP$In}Wt-#h`8}MKM-LxqH

literal 0
HcmV?d00001

diff --git a/b/.ninja_log b/b/.ninja_log
new file mode 100644
index 0000000..b4645ca
--- /dev/null
+++ b/b/.ninja_log
@@ -0,0 +1,9 @@
+# ninja log v5
+2	33	1795142681081327550	CMakeFiles/traxstatic.dir/src/base64.c.o	437a68fde40d0726
+2	37	1795142681086204231	CMakeFiles/traxstatic.dir/src/debug.c.o	7d05d705bfa8ee5b
+1	49	1795142681097985300	CMakeFiles/traxstatic.dir/src/strmap.c.o	dfff247db89c0c5a
+2	98	1795142681140240644	CMakeFiles/traxstatic.dir/src/message.c.o	bb720d9aec4ac045
+1	182	1795142681224240649	CMakeFiles/traxstatic.dir/src/region.c.o	2576538490dce560
+1	257	1795142681300240654	CMakeFiles/traxstatic.dir/src/trax.c.o	d1070bc5ecce2734
+2	1106	1795142682148240704	CMakeFiles/traxstatic.dir/src/traxpp.cpp.o	8092ea30ad4d9acc
+1106	1212	1795142682252240710	libtraxstatic.a	289da80eccaa377d
diff --git a/b/CMakeCache.txt b/b/CMakeCache.txt
new file mode 100644
index 0000000..432c479
--- /dev/null
+++ b/b/CMakeCache.txt
@@ -0,0 +1,513 @@
+# This is the CMakeCache file.
+# For build in directory: /tmp/w/fx/b
+# It was generated by CMake: /usr/bin/cmake
+# You can edit this file to change values found and used by cmake.
+# If you do not want to change any of the values, simply exit the editor.
+# If you do want to change a value, simply edit, save, and exit the editor.
+# The syntax for the file is as follows:
+# KEY:TYPE=VALUE
+# KEY is the name of a variable in the cache.
+# TYPE is a hint to GUIs for the type of VALUE, DO NOT EDIT TYPE!.
+# VALUE is the current value for the KEY.
+
+########################
+# EXTERNAL cache entries
+########################
+
+//Build with client support library and executable
+BUILD_CLIENT:BOOL=FALSE
+
+//Build in debug mode
+BUILD_DEBUG:BOOL=FALSE
+
+//Build Matlab/Octave bindings
+BUILD_MATLAB:BOOL=FALSE
+
+//Build with OpenCV support
+BUILD_OPENCV:BOOL=FALSE
+
+//Build Python wrapper
+BUILD_PYTHON:BOOL=FALSE
+
+//Build with support for tests
+BUILD_TESTS:BOOL=FALSE
+
+//Path to a program.
+CMAKE_ADDR2LINE:FILEPATH=/usr/bin/addr2line
+
+//Path to a program.
+CMAKE_AR:FILEPATH=/usr/bin/ar
+
+//Choose the type of build, options are: None Debug Release RelWithDebInfo
+// MinSizeRel ...
+CMAKE_BUILD_TYPE:STRING=
+
+//CXX compiler
+CMAKE_CXX_COMPILER:FILEPATH=/usr/bin/c++
+
+//A wrapper around 'ar' adding the appropriate '--plugin' option
+// for the GCC compiler
+CMAKE_CXX_COMPILER_AR:FILEPATH=/usr/bin/gcc-ar-13
+
+//A wrapper around 'ranlib' adding the appropriate '--plugin' option
+// for the GCC compiler
+CMAKE_CXX_COMPILER_RANLIB:FILEPATH=/usr/bin/gcc-ranlib-13
+
+//Flags used by the CXX compiler during all build types.
+CMAKE_CXX_FLAGS:STRING=
+
+//Flags used by the CXX compiler during DEBUG builds.
+CMAKE_CXX_FLAGS_DEBUG:STRING=-g
+
+//Flags used by the CXX compiler during MINSIZEREL builds.
+CMAKE_CXX_FLAGS_MINSIZEREL:STRING=-Os -DNDEBUG
+
+//Flags used by the CXX compiler during RELEASE builds.
+CMAKE_CXX_FLAGS_RELEASE:STRING=-O3 -DNDEBUG
+
+//Flags used by the CXX compiler during RELWITHDEBINFO builds.
+CMAKE_CXX_FLAGS_RELWITHDEBINFO:STRING=-O2 -g -DNDEBUG
+
+//C compiler
+CMAKE_C_COMPILER:FILEPATH=/usr/bin/cc
+
+//A wrapper around 'ar' adding the appropriate '--plugin' option
+// for the GCC compiler
+CMAKE_C_COMPILER_AR:FILEPATH=/usr/bin/gcc-ar-13
+
+//A wrapper around 'ranlib' adding the appropriate '--plugin' option
+// for the GCC compiler
+CMAKE_C_COMPILER_RANLIB:FILEPATH=/usr/bin/gcc-ranlib-13
+
+//Flags used by the C compiler during all build types.
+CMAKE_C_FLAGS:STRING=
+
+//Flags used by the C compiler during DEBUG builds.
+CMAKE_C_FLAGS_DEBUG:STRING=-g
+
+//Flags used by the C compiler during MINSIZEREL builds.
+CMAKE_C_FLAGS_MINSIZEREL:STRING=-Os -DNDEBUG
+
+//Flags used by the C compiler during RELEASE builds.
+CMAKE_C_FLAGS_RELEASE:STRING=-O3 -DNDEBUG
+
+//Flags used by the C compiler during RELWITHDEBINFO builds.
+CMAKE_C_FLAGS_RELWITHDEBINFO:STRING=-O2 -g -DNDEBUG
+
+//Path to a program.
+CMAKE_DLLTOOL:FILEPATH=CMAKE_DLLTOOL-NOTFOUND
+
+//Flags used by the linker during all build types.
+CMAKE_EXE_LINKER_FLAGS:STRING=
+
+//Flags used by the linker during DEBUG builds.
+CMAKE_EXE_LINKER_FLAGS_DEBUG:STRING=
+
+//Flags used by the linker during MINSIZEREL builds.
+CMAKE_EXE_LINKER_FLAGS_MINSIZEREL:STRING=
+
+//Flags used by the linker during RELEASE builds.
+CMAKE_EXE_LINKER_FLAGS_RELEASE:STRING=
+
+//Flags used by the linker during RELWITHDEBINFO builds.
+CMAKE_EXE_LINKER_FLAGS_RELWITHDEBINFO:STRING=
+
+//Enable/Disable output of compile commands during generation.
+CMAKE_EXPORT_COMPILE_COMMANDS:BOOL=
+
+//Value Computed by CMake.
+CMAKE_FIND_PACKAGE_REDIRECTS_DIR:STATIC=/tmp/w/fx/b/CMakeFiles/pkgRedirects
+
+//User executables (bin)
+CMAKE_INSTALL_BINDIR:PATH=bin
+
+//Read-only architecture-independent data (DATAROOTDIR)
+CMAKE_INSTALL_DATADIR:PATH=
+
+//Read-only architecture-independent data root (share)
+CMAKE_INSTALL_DATAROOTDIR:PATH=share
+
+//Documentation root (DATAROOTDIR/doc/PROJECT_NAME)
+CMAKE_INSTALL_DOCDIR:PATH=
+
+//C header files (include)
+CMAKE_INSTALL_INCLUDEDIR:PATH=include
+
+//Info documentation (DATAROOTDIR/info)
+CMAKE_INSTALL_INFODIR:PATH=
+
+//Object code libraries (lib)
+CMAKE_INSTALL_LIBDIR:PATH=lib
+
+//Program executables (libexec)
+CMAKE_INSTALL_LIBEXECDIR:PATH=libexec
+
+//Locale-dependent data (DATAROOTDIR/locale)
+CMAKE_INSTALL_LOCALEDIR:PATH=
+
+//Modifiable single-machine data (var)
+CMAKE_INSTALL_LOCALSTATEDIR:PATH=var
+
+//Man documentation (DATAROOTDIR/man)
+CMAKE_INSTALL_MANDIR:PATH=
+
+//C header files for non-gcc (/usr/include)
+CMAKE_INSTALL_OLDINCLUDEDIR:PATH=/usr/include
+
+//Install path prefix, prepended onto install directories.
+CMAKE_INSTALL_PREFIX:PATH=/usr/local
+
+//Run-time variable data (LOCALSTATEDIR/run)
+CMAKE_INSTALL_RUNSTATEDIR:PATH=
+
+//System admin executables (sbin)
+CMAKE_INSTALL_SBINDIR:PATH=sbin
+
+//Modifiable architecture-independent data (com)
+CMAKE_INSTALL_SHAREDSTATEDIR:PATH=com
+
+//Read-only single-machine data (etc)
+CMAKE_INSTALL_SYSCONFDIR:PATH=etc
+
+//Path to a program.
+CMAKE_LINKER:FILEPATH=/usr/bin/ld
+
+//Program used to build from build.ninja files.
+CMAKE_MAKE_PROGRAM:FILEPATH=/usr/bin/ninja
+
+//Flags used by the linker during the creation of modules during
+// all build types.
+CMAKE_MODULE_LINKER_FLAGS:STRING=
+
+//Flags used by the linker during the creation of modules during
+// DEBUG builds.
+CMAKE_MODULE_LINKER_FLAGS_DEBUG:STRING=
+
+//Flags used by the linker during the creation of modules during
+// MINSIZEREL builds.
+CMAKE_MODULE_LINKER_FLAGS_MINSIZEREL:STRING=
+
+//Flags used by the linker during the creation of modules during
+// RELEASE builds.
+CMAKE_MODULE_LINKER_FLAGS_RELEASE:STRING=
+
+//Flags used by the linker during the creation of modules during
+// RELWITHDEBINFO builds.
+CMAKE_MODULE_LINKER_FLAGS_RELWITHDEBINFO:STRING=
+
+//Path to a program.
+CMAKE_NM:FILEPATH=/usr/bin/nm
+
+//Path to a program.
+CMAKE_OBJCOPY:FILEPATH=/usr/bin/objcopy
+
+//Path to a program.
+CMAKE_OBJDUMP:FILEPATH=/usr/bin/objdump
+
+//No help, variable specified on the command line.
+CMAKE_POLICY_VERSION_MINIMUM:UNINITIALIZED=3.5
+
+//Value Computed by CMake
+CMAKE_PROJECT_DESCRIPTION:STATIC=
+
+//Value Computed by CMake
+CMAKE_PROJECT_HOMEPAGE_URL:STATIC=
+
+//Value Computed by CMake
+CMAKE_PROJECT_NAME:STATIC=trax
+
+//Path to a program.
+CMAKE_RANLIB:FILEPATH=/usr/bin/ranlib
+
+//Path to a program.
+CMAKE_READELF:FILEPATH=/usr/bin/readelf
+
+//Flags used by the linker during the creation of shared libraries
+// during all build types.
+CMAKE_SHARED_LINKER_FLAGS:STRING=
+
+//Flags used by the linker during the creation of shared libraries
+// during DEBUG builds.
+CMAKE_SHARED_LINKER_FLAGS_DEBUG:STRING=
+
+//Flags used by the linker during the creation of shared libraries
+// during MINSIZEREL builds.
+CMAKE_SHARED_LINKER_FLAGS_MINSIZEREL:STRING=
+
+//Flags used by the linker during the creation of shared libraries
+// during RELEASE builds.
+CMAKE_SHARED_LINKER_FLAGS_RELEASE:STRING=
+
+//Flags used by the linker during the creation of shared libraries
+// during RELWITHDEBINFO builds.
+CMAKE_SHARED_LINKER_FLAGS_RELWITHDEBINFO:STRING=
+
+//If set, runtime paths are not added when installing shared libraries,
+// but are added when building.
+CMAKE_SKIP_INSTALL_RPATH:BOOL=NO
+
+//If set, runtime paths are not added when using shared libraries.
+CMAKE_SKIP_RPATH:BOOL=NO
+
+//Flags used by the linker during the creation of static libraries
+// during all build types.
+CMAKE_STATIC_LINKER_FLAGS:STRING=
+
+//Flags used by the linker during the creation of static libraries
+// during DEBUG builds.
+CMAKE_STATIC_LINKER_FLAGS_DEBUG:STRING=
+
+//Flags used by the linker during the creation of static libraries
+// during MINSIZEREL builds.
+CMAKE_STATIC_LINKER_FLAGS_MINSIZEREL:STRING=
+
+//Flags used by the linker during the creation of static libraries
+// during RELEASE builds.
+CMAKE_STATIC_LINKER_FLAGS_RELEASE:STRING=
+
+//Flags used by the linker during the creation of static libraries
+// during RELWITHDEBINFO builds.
+CMAKE_STATIC_LINKER_FLAGS_RELWITHDEBINFO:STRING=
+
+//Path to a program.
+CMAKE_STRIP:FILEPATH=/usr/bin/strip
+
+//Path to a program.
+CMAKE_TAPI:FILEPATH=CMAKE_TAPI-NOTFOUND
+
+//If this value is on, makefiles will be generated without the
+// .SILENT directive, and all commands will be echoed to the console
+// during the make.  This is useful for debugging only. With Visual
+// Studio IDE projects all commands are done without /nologo.
+CMAKE_VERBOSE_MAKEFILE:BOOL=FALSE
+
+//Enable to build RPM source packages
+CPACK_SOURCE_RPM:BOOL=OFF
+
+//Enable to build TBZ2 source packages
+CPACK_SOURCE_TBZ2:BOOL=ON
+
+//Enable to build TGZ source packages
+CPACK_SOURCE_TGZ:BOOL=ON
+
+//Enable to build TXZ source packages
+CPACK_SOURCE_TXZ:BOOL=ON
+
+//Enable to build TZ source packages
+CPACK_SOURCE_TZ:BOOL=ON
+
+//Enable to build ZIP source packages
+CPACK_SOURCE_ZIP:BOOL=OFF
+
+//Value Computed by CMake
+trax_BINARY_DIR:STATIC=/tmp/w/fx/b
+
+//Value Computed by CMake
+trax_IS_TOP_LEVEL:STATIC=ON
+
+//Dependencies for the target
+trax_LIB_DEPENDS:STATIC=general;m;
+
+//Value Computed by CMake
+trax_SOURCE_DIR:STATIC=/tmp/w/fx
+
+//Dependencies for the target
+traxstatic_LIB_DEPENDS:STATIC=general;m;
+
+
+########################
+# INTERNAL cache entries
+########################
+
+//ADVANCED property for variable: CMAKE_ADDR2LINE
+CMAKE_ADDR2LINE-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_AR
+CMAKE_AR-ADVANCED:INTERNAL=1
+//This is the directory where this CMakeCache.txt was created
+CMAKE_CACHEFILE_DIR:INTERNAL=/tmp/w/fx/b
+//Major version of cmake used to create the current loaded cache
+CMAKE_CACHE_MAJOR_VERSION:INTERNAL=3
+//Minor version of cmake used to create the current loaded cache
+CMAKE_CACHE_MINOR_VERSION:INTERNAL=28
+//Patch version of cmake used to create the current loaded cache
+CMAKE_CACHE_PATCH_VERSION:INTERNAL=3
+//Path to CMake executable.
+CMAKE_COMMAND:INTERNAL=/usr/bin/cmake
+//Path to cpack program executable.
+CMAKE_CPACK_COMMAND:INTERNAL=/usr/bin/cpack
+//Path to ctest program executable.
+CMAKE_CTEST_COMMAND:INTERNAL=/usr/bin/ctest
+//ADVANCED property for variable: CMAKE_CXX_COMPILER
+CMAKE_CXX_COMPILER-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_CXX_COMPILER_AR
+CMAKE_CXX_COMPILER_AR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_CXX_COMPILER_RANLIB
+CMAKE_CXX_COMPILER_RANLIB-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_CXX_FLAGS
+CMAKE_CXX_FLAGS-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_CXX_FLAGS_DEBUG
+CMAKE_CXX_FLAGS_DEBUG-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_CXX_FLAGS_MINSIZEREL
+CMAKE_CXX_FLAGS_MINSIZEREL-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_CXX_FLAGS_RELEASE
+CMAKE_CXX_FLAGS_RELEASE-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_CXX_FLAGS_RELWITHDEBINFO
+CMAKE_CXX_FLAGS_RELWITHDEBINFO-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_C_COMPILER
+CMAKE_C_COMPILER-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_C_COMPILER_AR
+CMAKE_C_COMPILER_AR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_C_COMPILER_RANLIB
+CMAKE_C_COMPILER_RANLIB-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_C_FLAGS
+CMAKE_C_FLAGS-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_C_FLAGS_DEBUG
+CMAKE_C_FLAGS_DEBUG-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_C_FLAGS_MINSIZEREL
+CMAKE_C_FLAGS_MINSIZEREL-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_C_FLAGS_RELEASE
+CMAKE_C_FLAGS_RELEASE-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_C_FLAGS_RELWITHDEBINFO
+CMAKE_C_FLAGS_RELWITHDEBINFO-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_DLLTOOL
+CMAKE_DLLTOOL-ADVANCED:INTERNAL=1
+//Executable file format
+CMAKE_EXECUTABLE_FORMAT:INTERNAL=ELF
+//ADVANCED property for variable: CMAKE_EXE_LINKER_FLAGS
+CMAKE_EXE_LINKER_FLAGS-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_EXE_LINKER_FLAGS_DEBUG
+CMAKE_EXE_LINKER_FLAGS_DEBUG-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_EXE_LINKER_FLAGS_MINSIZEREL
+CMAKE_EXE_LINKER_FLAGS_MINSIZEREL-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_EXE_LINKER_FLAGS_RELEASE
+CMAKE_EXE_LINKER_FLAGS_RELEASE-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_EXE_LINKER_FLAGS_RELWITHDEBINFO
+CMAKE_EXE_LINKER_FLAGS_RELWITHDEBINFO-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_EXPORT_COMPILE_COMMANDS
+CMAKE_EXPORT_COMPILE_COMMANDS-ADVANCED:INTERNAL=1
+//Name of external makefile project generator.
+CMAKE_EXTRA_GENERATOR:INTERNAL=
+//Name of generator.
+CMAKE_GENERATOR:INTERNAL=Ninja
+//Generator instance identifier.
+CMAKE_GENERATOR_INSTANCE:INTERNAL=
+//Name of generator platform.
+CMAKE_GENERATOR_PLATFORM:INTERNAL=
+//Name of generator toolset.
+CMAKE_GENERATOR_TOOLSET:INTERNAL=
+//Source directory with the top level CMakeLists.txt file for this
+// project
+CMAKE_HOME_DIRECTORY:INTERNAL=/tmp/w/fx
+//ADVANCED property for variable: CMAKE_INSTALL_BINDIR
+CMAKE_INSTALL_BINDIR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_INSTALL_DATADIR
+CMAKE_INSTALL_DATADIR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_INSTALL_DATAROOTDIR
+CMAKE_INSTALL_DATAROOTDIR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_INSTALL_DOCDIR
+CMAKE_INSTALL_DOCDIR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_INSTALL_INCLUDEDIR
+CMAKE_INSTALL_INCLUDEDIR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_INSTALL_INFODIR
+CMAKE_INSTALL_INFODIR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_INSTALL_LIBDIR
+CMAKE_INSTALL_LIBDIR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_INSTALL_LIBEXECDIR
+CMAKE_INSTALL_LIBEXECDIR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_INSTALL_LOCALEDIR
+CMAKE_INSTALL_LOCALEDIR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_INSTALL_LOCALSTATEDIR
+CMAKE_INSTALL_LOCALSTATEDIR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_INSTALL_MANDIR
+CMAKE_INSTALL_MANDIR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_INSTALL_OLDINCLUDEDIR
+CMAKE_INSTALL_OLDINCLUDEDIR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_INSTALL_RUNSTATEDIR
+CMAKE_INSTALL_RUNSTATEDIR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_INSTALL_SBINDIR
+CMAKE_INSTALL_SBINDIR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_INSTALL_SHAREDSTATEDIR
+CMAKE_INSTALL_SHAREDSTATEDIR-ADVANCED:INTERNAL=1
+//Install .so files without execute permission.
+CMAKE_INSTALL_SO_NO_EXE:INTERNAL=1
+//ADVANCED property for variable: CMAKE_INSTALL_SYSCONFDIR
+CMAKE_INSTALL_SYSCONFDIR-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_LINKER
+CMAKE_LINKER-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_MAKE_PROGRAM
+CMAKE_MAKE_PROGRAM-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_MODULE_LINKER_FLAGS
+CMAKE_MODULE_LINKER_FLAGS-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_MODULE_LINKER_FLAGS_DEBUG
+CMAKE_MODULE_LINKER_FLAGS_DEBUG-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_MODULE_LINKER_FLAGS_MINSIZEREL
+CMAKE_MODULE_LINKER_FLAGS_MINSIZEREL-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_MODULE_LINKER_FLAGS_RELEASE
+CMAKE_MODULE_LINKER_FLAGS_RELEASE-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_MODULE_LINKER_FLAGS_RELWITHDEBINFO
+CMAKE_MODULE_LINKER_FLAGS_RELWITHDEBINFO-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_NM
+CMAKE_NM-ADVANCED:INTERNAL=1
+//number of local generators
+CMAKE_NUMBER_OF_MAKEFILES:INTERNAL=1
+//ADVANCED property for variable: CMAKE_OBJCOPY
+CMAKE_OBJCOPY-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_OBJDUMP
+CMAKE_OBJDUMP-ADVANCED:INTERNAL=1
+//Platform information initialized
+CMAKE_PLATFORM_INFO_INITIALIZED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_RANLIB
+CMAKE_RANLIB-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_READELF
+CMAKE_READELF-ADVANCED:INTERNAL=1
+//Path to CMake installation.
+CMAKE_ROOT:INTERNAL=/usr/share/cmake-3.28
+//ADVANCED property for variable: CMAKE_SHARED_LINKER_FLAGS
+CMAKE_SHARED_LINKER_FLAGS-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_SHARED_LINKER_FLAGS_DEBUG
+CMAKE_SHARED_LINKER_FLAGS_DEBUG-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_SHARED_LINKER_FLAGS_MINSIZEREL
+CMAKE_SHARED_LINKER_FLAGS_MINSIZEREL-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_SHARED_LINKER_FLAGS_RELEASE
+CMAKE_SHARED_LINKER_FLAGS_RELEASE-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_SHARED_LINKER_FLAGS_RELWITHDEBINFO
+CMAKE_SHARED_LINKER_FLAGS_RELWITHDEBINFO-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_SKIP_INSTALL_RPATH
+CMAKE_SKIP_INSTALL_RPATH-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_SKIP_RPATH
+CMAKE_SKIP_RPATH-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_STATIC_LINKER_FLAGS
+CMAKE_STATIC_LINKER_FLAGS-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_STATIC_LINKER_FLAGS_DEBUG
+CMAKE_STATIC_LINKER_FLAGS_DEBUG-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_STATIC_LINKER_FLAGS_MINSIZEREL
+CMAKE_STATIC_LINKER_FLAGS_MINSIZEREL-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_STATIC_LINKER_FLAGS_RELEASE
+CMAKE_STATIC_LINKER_FLAGS_RELEASE-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_STATIC_LINKER_FLAGS_RELWITHDEBINFO
+CMAKE_STATIC_LINKER_FLAGS_RELWITHDEBINFO-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_STRIP
+CMAKE_STRIP-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CMAKE_TAPI
+CMAKE_TAPI-ADVANCED:INTERNAL=1
+//uname command
+CMAKE_UNAME:INTERNAL=/usr/bin/uname
+//ADVANCED property for variable: CMAKE_VERBOSE_MAKEFILE
+CMAKE_VERBOSE_MAKEFILE-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CPACK_SOURCE_RPM
+CPACK_SOURCE_RPM-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CPACK_SOURCE_TBZ2
+CPACK_SOURCE_TBZ2-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CPACK_SOURCE_TGZ
+CPACK_SOURCE_TGZ-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CPACK_SOURCE_TXZ
+CPACK_SOURCE_TXZ-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CPACK_SOURCE_TZ
+CPACK_SOURCE_TZ-ADVANCED:INTERNAL=1
+//ADVANCED property for variable: CPACK_SOURCE_ZIP
+CPACK_SOURCE_ZIP-ADVANCED:INTERNAL=1
+//linker supports push/pop state
+_CMAKE_LINKER_PUSHPOP_STATE_SUPPORTED:INTERNAL=TRUE
+//CMAKE_INSTALL_PREFIX during last run
+_GNUInstallDirs_LAST_CMAKE_INSTALL_PREFIX:INTERNAL=/usr/local
+
diff --git a/b/CMakeFiles/3.28.3/CMakeCCompiler.cmake b/b/CMakeFiles/3.28.3/CMakeCCompiler.cmake
new file mode 100644
index 0000000..3766fe1
--- /dev/null
+++ b/b/CMakeFiles/3.28.3/CMakeCCompiler.cmake
@@ -0,0 +1,74 @@
+set(CMAKE_C_COMPILER "/usr/bin/cc")
+set(CMAKE_C_COMPILER_ARG1 "")
+set(CMAKE_C_COMPILER_ID "GNU")
+set(CMAKE_C_COMPILER_VERSION "13.3.0")
+set(CMAKE_C_COMPILER_VERSION_INTERNAL "")
+set(CMAKE_C_COMPILER_WRAPPER "")
+set(CMAKE_C_STANDARD_COMPUTED_DEFAULT "17")
+set(CMAKE_C_EXTENSIONS_COMPUTED_DEFAULT "ON")
+set(CMAKE_C_COMPILE_FEATURES "c_std_90;c_function_prototypes;c_std_99;c_restrict;c_variadic_macros;c_std_11;c_static_assert;c_std_17;c_std_23")
+set(CMAKE_C90_COMPILE_FEATURES "c_std_90;c_function_prototypes")
+set(CMAKE_C99_COMPILE_FEATURES "c_std_99;c_restrict;c_variadic_macros")
+set(CMAKE_C11_COMPILE_FEATURES "c_std_11;c_static_assert")
+set(CMAKE_C17_COMPILE_FEATURES "c_std_17")
+set(CMAKE_C23_COMPILE_FEATURES "c_std_23")
+
+set(CMAKE_C_PLATFORM_ID "Linux")
+set(CMAKE_C_SIMULATE_ID "")
+set(CMAKE_C_COMPILER_FRONTEND_VARIANT "GNU")
+set(CMAKE_C_SIMULATE_VERSION "")
+
+
+
+
+set(CMAKE_AR "/usr/bin/ar")
+set(CMAKE_C_COMPILER_AR "/usr/bin/gcc-ar-13")
+set(CMAKE_RANLIB "/usr/bin/ranlib")
+set(CMAKE_C_COMPILER_RANLIB "/usr/bin/gcc-ranlib-13")
+set(CMAKE_LINKER "/usr/bin/ld")
+set(CMAKE_MT "")
+set(CMAKE_TAPI "CMAKE_TAPI-NOTFOUND")
+set(CMAKE_COMPILER_IS_GNUCC 1)
+set(CMAKE_C_COMPILER_LOADED 1)
+set(CMAKE_C_COMPILER_WORKS TRUE)
+set(CMAKE_C_ABI_COMPILED TRUE)
+
+set(CMAKE_C_COMPILER_ENV_VAR "CC")
+
+set(CMAKE_C_COMPILER_ID_RUN 1)
+set(CMAKE_C_SOURCE_FILE_EXTENSIONS c;m)
+set(CMAKE_C_IGNORE_EXTENSIONS h;H;o;O;obj;OBJ;def;DEF;rc;RC)
+set(CMAKE_C_LINKER_PREFERENCE 10)
+set(CMAKE_C_LINKER_DEPFILE_SUPPORTED TRUE)
+
+# Save compiler ABI information.
+set(CMAKE_C_SIZEOF_DATA_PTR "8")
+set(CMAKE_C_COMPILER_ABI "ELF")
+set(CMAKE_C_BYTE_ORDER "LITTLE_ENDIAN")
+set(CMAKE_C_LIBRARY_ARCHITECTURE "x86_64-linux-gnu")
+
+if(CMAKE_C_SIZEOF_DATA_PTR)
+  set(CMAKE_SIZEOF_VOID_P "${CMAKE_C_SIZEOF_DATA_PTR}")
+endif()
+
+if(CMAKE_C_COMPILER_ABI)
+  set(CMAKE_INTERNAL_PLATFORM_ABI "${CMAKE_C_COMPILER_ABI}")
+endif()
+
+if(CMAKE_C_LIBRARY_ARCHITECTURE)
+  set(CMAKE_LIBRARY_ARCHITECTURE "x86_64-linux-gnu")
+endif()
+
+set(CMAKE_C_CL_SHOWINCLUDES_PREFIX "")
+if(CMAKE_C_CL_SHOWINCLUDES_PREFIX)
+  set(CMAKE_CL_SHOWINCLUDES_PREFIX "${CMAKE_C_CL_SHOWINCLUDES_PREFIX}")
+endif()
+
+
+
+
+
+set(CMAKE_C_IMPLICIT_INCLUDE_DIRECTORIES "/usr/lib/gcc/x86_64-linux-gnu/13/include;/usr/local/include;/usr/include/x86_64-linux-gnu;/usr/include")
+set(CMAKE_C_IMPLICIT_LINK_LIBRARIES "gcc;gcc_s;c;gcc;gcc_s")
+set(CMAKE_C_IMPLICIT_LINK_DIRECTORIES "/usr/lib/gcc/x86_64-linux-gnu/13;/usr/lib/x86_64-linux-gnu;/usr/lib;/lib/x86_64-linux-gnu;/lib")
+set(CMAKE_C_IMPLICIT_LINK_FRAMEWORK_DIRECTORIES "")
diff --git a/b/CMakeFiles/3.28.3/CMakeCXXCompiler.cmake b/b/CMakeFiles/3.28.3/CMakeCXXCompiler.cmake
new file mode 100644
index 0000000..8dbc9d3
--- /dev/null
+++ b/b/CMakeFiles/3.28.3/CMakeCXXCompiler.cmake
@@ -0,0 +1,85 @@
+set(CMAKE_CXX_COMPILER "/usr/bin/c++")
+set(CMAKE_CXX_COMPILER_ARG1 "")
+set(CMAKE_CXX_COMPILER_ID "GNU")
+set(CMAKE_CXX_COMPILER_VERSION "13.3.0")
+set(CMAKE_CXX_COMPILER_VERSION_INTERNAL "")
+set(CMAKE_CXX_COMPILER_WRAPPER "")
+set(CMAKE_CXX_STANDARD_COMPUTED_DEFAULT "17")
+set(CMAKE_CXX_EXTENSIONS_COMPUTED_DEFAULT "ON")
+set(CMAKE_CXX_COMPILE_FEATURES "cxx_std_98;cxx_template_template_parameters;cxx_std_11;cxx_alias_templates;cxx_alignas;cxx_alignof;cxx_attributes;cxx_auto_type;cxx_constexpr;cxx_decltype;cxx_decltype_incomplete_return_types;cxx_default_function_template_args;cxx_defaulted_functions;cxx_defaulted_move_initializers;cxx_delegating_constructors;cxx_deleted_functions;cxx_enum_forward_declarations;cxx_explicit_conversions;cxx_extended_friend_declarations;cxx_extern_templates;cxx_final;cxx_func_identifier;cxx_generalized_initializers;cxx_inheriting_constructors;cxx_inline_namespaces;cxx_lambdas;cxx_local_type_template_args;cxx_long_long_type;cxx_noexcept;cxx_nonstatic_member_init;cxx_nullptr;cxx_override;cxx_range_for;cxx_raw_string_literals;cxx_reference_qualified_functions;cxx_right_angle_brackets;cxx_rvalue_references;cxx_sizeof_member;cxx_static_assert;cxx_strong_enums;cxx_thread_local;cxx_trailing_return_types;cxx_unicode_literals;cxx_uniform_initialization;cxx_unrestricted_unions;cxx_user_literals;cxx_variadic_macros;cxx_variadic_templates;cxx_std_14;cxx_aggregate_default_initializers;cxx_attribute_deprecated;cxx_binary_literals;cxx_contextual_conversions;cxx_decltype_auto;cxx_digit_separators;cxx_generic_lambdas;cxx_lambda_init_captures;cxx_relaxed_constexpr;cxx_return_type_deduction;cxx_variable_templates;cxx_std_17;cxx_std_20;cxx_std_23")
+set(CMAKE_CXX98_COMPILE_FEATURES "cxx_std_98;cxx_template_template_parameters")
+set(CMAKE_CXX11_COMPILE_FEATURES "cxx_std_11;cxx_alias_templates;cxx_alignas;cxx_alignof;cxx_attributes;cxx_auto_type;cxx_constexpr;cxx_decltype;cxx_decltype_incomplete_return_types;cxx_default_function_template_args;cxx_defaulted_functions;cxx_defaulted_move_initializers;cxx_delegating_constructors;cxx_deleted_functions;cxx_enum_forward_declarations;cxx_explicit_conversions;cxx_extended_friend_declarations;cxx_extern_templates;cxx_final;cxx_func_identifier;cxx_generalized_initializers;cxx_inheriting_constructors;cxx_inline_namespaces;cxx_lambdas;cxx_local_type_template_args;cxx_long_long_type;cxx_noexcept;cxx_nonstatic_member_init;cxx_nullptr;cxx_override;cxx_range_for;cxx_raw_string_literals;cxx_reference_qualified_functions;cxx_right_angle_brackets;cxx_rvalue_references;cxx_sizeof_member;cxx_static_assert;cxx_strong_enums;cxx_thread_local;cxx_trailing_return_types;cxx_unicode_literals;cxx_uniform_initialization;cxx_unrestricted_unions;cxx_user_literals;cxx_variadic_macros;cxx_variadic_templates")
+set(CMAKE_CXX14_COMPILE_FEATURES "cxx_std_14;cxx_aggregate_default_initializers;cxx_attribute_deprecated;cxx_binary_literals;cxx_contextual_conversions;cxx_decltype_auto;cxx_digit_separators;cxx_generic_lambdas;cxx_lambda_init_captures;cxx_relaxed_constexpr;cxx_return_type_deduction;cxx_variable_templates")
+set(CMAKE_CXX17_COMPILE_FEATURES "cxx_std_17")
+set(CMAKE_CXX20_COMPILE_FEATURES "cxx_std_20")
+set(CMAKE_CXX23_COMPILE_FEATURES "cxx_std_23")
+
+set(CMAKE_CXX_PLATFORM_ID "Linux")
+set(CMAKE_CXX_SIMULATE_ID "")
+set(CMAKE_CXX_COMPILER_FRONTEND_VARIANT "GNU")
+set(CMAKE_CXX_SIMULATE_VERSION "")
+
+
+
+
+set(CMAKE_AR "/usr/bin/ar")
+set(CMAKE_CXX_COMPILER_AR "/usr/bin/gcc-ar-13")
+set(CMAKE_RANLIB "/usr/bin/ranlib")
+set(CMAKE_CXX_COMPILER_RANLIB "/usr/bin/gcc-ranlib-13")
+set(CMAKE_LINKER "/usr/bin/ld")
+set(CMAKE_MT "")
+set(CMAKE_TAPI "CMAKE_TAPI-NOTFOUND")
+set(CMAKE_COMPILER_IS_GNUCXX 1)
+set(CMAKE_CXX_COMPILER_LOADED 1)
+set(CMAKE_CXX_COMPILER_WORKS TRUE)
+set(CMAKE_CXX_ABI_COMPILED TRUE)
+
+set(CMAKE_CXX_COMPILER_ENV_VAR "CXX")
+
+set(CMAKE_CXX_COMPILER_ID_RUN 1)
+set(CMAKE_CXX_SOURCE_FILE_EXTENSIONS C;M;c++;cc;cpp;cxx;m;mm;mpp;CPP;ixx;cppm;ccm;cxxm;c++m)
+set(CMAKE_CXX_IGNORE_EXTENSIONS inl;h;hpp;HPP;H;o;O;obj;OBJ;def;DEF;rc;RC)
+
+foreach (lang C OBJC OBJCXX)
+  if (CMAKE_${lang}_COMPILER_ID_RUN)
+    foreach(extension IN LISTS CMAKE_${lang}_SOURCE_FILE_EXTENSIONS)
+      list(REMOVE_ITEM CMAKE_CXX_SOURCE_FILE_EXTENSIONS ${extension})
+    endforeach()
+  endif()
+endforeach()
+
+set(CMAKE_CXX_LINKER_PREFERENCE 30)
+set(CMAKE_CXX_LINKER_PREFERENCE_PROPAGATES 1)
+set(CMAKE_CXX_LINKER_DEPFILE_SUPPORTED TRUE)
+
+# Save compiler ABI information.
+set(CMAKE_CXX_SIZEOF_DATA_PTR "8")
+set(CMAKE_CXX_COMPILER_ABI "ELF")
+set(CMAKE_CXX_BYTE_ORDER "LITTLE_ENDIAN")
+set(CMAKE_CXX_LIBRARY_ARCHITECTURE "x86_64-linux-gnu")
+
+if(CMAKE_CXX_SIZEOF_DATA_PTR)
+  set(CMAKE_SIZEOF_VOID_P "${CMAKE_CXX_SIZEOF_DATA_PTR}")
+endif()
+
+if(CMAKE_CXX_COMPILER_ABI)
+  set(CMAKE_INTERNAL_PLATFORM_ABI "${CMAKE_CXX_COMPILER_ABI}")
+endif()
+
+if(CMAKE_CXX_LIBRARY_ARCHITECTURE)
+  set(CMAKE_LIBRARY_ARCHITECTURE "x86_64-linux-gnu")
+endif()
+
+set(CMAKE_CXX_CL_SHOWINCLUDES_PREFIX "")
+if(CMAKE_CXX_CL_SHOWINCLUDES_PREFIX)
+  set(CMAKE_CL_SHOWINCLUDES_PREFIX "${CMAKE_CXX_CL_SHOWINCLUDES_PREFIX}")
+endif()
+
+
+
+
+
+set(CMAKE_CXX_IMPLICIT_INCLUDE_DIRECTORIES "/usr/include/c++/13;/usr/include/x86_64-linux-gnu/c++/13;/usr/include/c++/13/backward;/usr/lib/gcc/x86_64-linux-gnu/13/include;/usr/local/include;/usr/include/x86_64-linux-gnu;/usr/include")
+set(CMAKE_CXX_IMPLICIT_LINK_LIBRARIES "stdc++;m;gcc_s;gcc;c;gcc_s;gcc")
+set(CMAKE_CXX_IMPLICIT_LINK_DIRECTORIES "/usr/lib/gcc/x86_64-linux-gnu/13;/usr/lib/x86_64-linux-gnu;/usr/lib;/lib/x86_64-linux-gnu;/lib")
+set(CMAKE_CXX_IMPLICIT_LINK_FRAMEWORK_DIRECTORIES "")
diff --git a/b/CMakeFiles/3.28.3/CMakeDetermineCompilerABI_C.bin b/b/CMakeFiles/3.28.3/CMakeDetermineCompilerABI_C.bin
new file mode 100755
index 0000000000000000000000000000000000000000..7393c91dc54ca2c2a7acf80aa6df75703338828c
GIT binary patch
literal 15968
zcmeHOeQX?85r22iheJN@(k5V%kZd7=xZsWLI3^7WIe(n9R~$P{9B4_>&7N;<FTD?U
zZ;#p~G?r3OtPqq|6{UPgp{f9h{?Q6(C`jc>P*IVf<d2r1O2{-+3L+)02*^O1W9Ge?
z%X)KeQ9%f#ozw2T`OU|BJNx$T?d|N5WN%M25)n*w;-dnkL|h>WQfMEh2C#(KDwe|j
zJz|Ym0P;MEDSbjQ&?-6?oz3eBuLF*L4cMr`*C-fzP{bodj(&5Iu~2E43px(;n~y4z
zgZxSAfH~`{{b}e7q{)4i50D>ozaQpix=GnjZ=cOI%F9OL?1v)y30>L4=}<(xO#LzE
zd}2;;+e-Ni@@5LdJm@z<enH+%e$25Cq`j|tnYYv5Zt^>+$uJ_wKcry6ocp^C{A6B8
z|5l7o^B(GNuJaJ5{4=NYicMK3-QKn-n`z2A`O;X^*w*%@_BOp(&|78KI4%t~oKrjd
z_6Z16MvT%Zq7zEyc&J-JdbD>$Vg2(DjK)$gxCcJDVd>(gJ8yjjZE)P^gEmMQkEaOB
z*eBXxK91e?jmUa?-pz<Df^8XWoyiw3eri$IOFumS;Ni3OFLO(_J-qnwkDV{KreA*T
z+}*dYx$DSR4nN&6{|8_?Ct>^>YH0DiXf^QM9QfDf!0!M&F5V^L326A}5VR2&2_Fc}
z;}UNW4FUW{z~2j7kkSBXHR2owd^u)WQy!Req#@XDfb1n`;=Es?LYxF17Y)~q6Z4Gr
zjmwqcXUN_Fj`1~30V@d?rU^4@&@6hE>zO&r$pbPtW|>1y-pV@n+5*)$zuJYF8rWrK
zY}X!kik|Hb?CQ!E^7eq0&f3Ds4;9QJ*cXP(%&6xI)6Q6)1;LQ1@E{E53VG_wgn0eX
z&Nz9qRJ1eTk%yg`E*9Aw`>Wa8&fZjKm)WYf>RSZ2H@D#-MPUYB`_%c`5qZQBu)y;|
z=@g|^4ouHF@f2a-d*DkjeWT(h(i*-e>HCqtmo&=jOaPyvfb|LG$o4Fs+o5p0Hq=Oz
zJmtfq3X=N^KAf*zR80GDo+F6Q_;BtU@sPp{gc%4k5N06EK$w9r1OG1>_;YOS-;JXe
z>y6{{f3ryl<8x&%TKSc6^r!V_<RMhHJPL4S!(*_ItxE{BuWWb*q@mclZXxBC*HV*b
z?=&V~F^>LzdiOxGrQGtoabo+=AwXqi5lk-+>9KY9%Xol40*G;9{)5PFnekRa*B{3=
zbiJrD6<arfhG&R_y(8_nq>(jVH72KxXaBUrcy^}Fh&*SUz3Q!i02?SkePv3Gi~VuD
z6WdWON*~;39NiwprZM@dx5PNUeE|p;8Y`8`g$(SToBsyfbw>_@Z?%8)|HD0?#Ku1G
zoBZrWW3n{$v*Z;V=JDi3<IBd0l`q2mK<ue`@z^uvNb(AyEATL1M$PGY(b(yr=6AI;
zEB_dXbmia~>{_0q>RG|ALkcqxW+2Q!n1L_@VFtnsgc%4k5N06EK$w9r1OIvk@Hx$!
zQL3+}f1B@l)BfhI2mSVass5hyHgDXt-GZIj@1{D<oqfqvcVCB)cG5pR?%8I+g-2TZ
zds71gy-73K*PZI<0}H9Q($0RULqLbf>bj5MGe&&oa`IB8atQb-;KzVJ0o(xo$aJN0
z3OEuzQ$>p0yGKOE;*r%$7S^AH2S13ff$b3Z$Y*)o3+0oe^?>06tc`$6U|GCpS;MWd
z#rM=th#jkLxq0(?d~7BC4*-v|9fCj@(}V4Gz~wW)<g)nZqg_iEL|y0^EkX)25N06E
zK$w9r17QZj41^g7GZ1DV%)tLf2Dq+{>*%;fPTusu5SQ>Usm^XG$&XPz-n&WWdcD;o
z^R3S+lDTdV@0XBR|Cg(k0?JQNv7M~R26==UShpt$ZvcVbp_upu@x{a&h*#??N#+{9
zGS%r(Ik-4Rfq5Kdvd5ZPB#yUMiPiD`qoT$Od6KSINxq%p!INQmJe)_kHI;HZ>HkJD
zkBh?p=NQ+A|C<rHesX75*EVhAzH}+?m9&=4`ewbksl6n{*85u9^yW6brI8eG)+Od+
zo_M_yw84BwK=TDkh(-oj$6L!D&qoyMY)5H6lDW_bKNY|?6VCIS?NiW*`09B1d|{P!
z1n%~EzOwycXkfp5y)b@E+TU2MS7rQL(5N;3A4&VTNNCEE=hsVwA0nKXxJ>v20Z<Jf
zX|DXd0on*uBJaM541KKDcos+SxMG5@XEt9Bcm(RDc^)vnR^o7#1?JfY0LMyauHR?-
zZ4@V1*WDxWcM85P+5Q0FQ2|$V;5?=QuT_731aOU=ef;|pzrJq#tAN+4$9^2}TJ`7O
zC0rzY!J%1}@n>Twy+HAWrgZeRC4MX8TwkyLG~l)B%+Hg3FmIR0K3Hdd8F1=SbxiwZ
z@OK`6m(Nn{9dx}Gy#R&Z@Nb*xS;GQ=qE{Lk(g(%0Vsq2WnS)qvUc{2}f;pTmq^+!(
z@d|Fyv`S-Qu#g+g+Mb=!n`>KOMZ05Ku4}=cf_cv!7elU<v&~E?mm3EcpJaliH_NnZ
zmvxuj)dhVxS=;UCOu^t}$@{gx5Y4nRj3w-jmA_7vbv!R?&(gxtLZ>}@I(Er_9Ze{Q
z#{uHliv@GU%4eXe-t4}kuVYuL3s89R!b}?EV07;R2nz7=4@-32+1uaQ(QEei^z2Oz
zm;)W1@L#5ohXHnh0{?`sV*bBf(yv}Hn6s{b_Nxcgfnu4z(2L_a&q@RLT*XJY<>cXY
zgi)dA3!beH=S%viTNt%nZ`=o^OAfp=<75beQ`m%)O`4Bb#Sx)r#`DmH;_w24)O^}@
zi%uawOE5v_+F1)7gpN~1=%ZP+(}xSt@a!?z%hRd51^FI?ZjaCm8_9q_OUhqOHRZu=
z2yW$^K^P9cMxn!75kiMKo`b17>-u?{0<MqXQibn0MZx#oczr}_Y0GWo?}H83Fzi3q
zdtGRY#OoU+3DFJ>zkl%kF8n{-PyGGG82)bh{rPvBxyFXXgZ`fY{I9SE;_>skk9jZo
z@wzWKehc)t=3{^OkyS)|1d|JdW5g!=^Low!43`@0&+AO)ysiWjNfeGnaW}MZjmQ4H
zu4B%>=RAJ4V}2j_<C>9WUN<strk;Z1=K-961|BN=^E#G!nGCuA;PF2UdORl9SAS>e
z_m<c16sDS9mcJhG*T|1~;AcA+UOXD`Zzc!kZ{`1;fPaD<m}defEEw;}fIqK$nDhM&
zm`UR4#qw!rU>BT!p^=987fEDBFpJ{H(DM89dWktc>+(~uf1ICw|FWj6nLp%rhBlvn
zhJOtWTto8x2j92x`;b9<mYJUi-<Z#z*U2+Y00Oa{lCH^&UjhZrJ?_7{j?|S$84nH!
z=RXqr@p=3vU}(brynZZiLTe!sa(`{d{>*1U<@c{TG%FwOha<2b%U7X+828WXvpD$&
z?dfpXUDN@97@1db_NO#farXD~>fEbZ!EsZ-Z_~i=I>vi*9uI&2;r$km-RCYY;EfVc
ZV<0&9tF*XwuI;}Ze^`K)1RMgQ_$PNLL%IL}

literal 0
HcmV?d00001

diff --git a/b/CMakeFiles/3.28.3/CMakeDetermineCompilerABI_CXX.bin b/b/CMakeFiles/3.28.3/CMakeDetermineCompilerABI_CXX.bin
new file mode 100755
index 0000000000000000000000000000000000000000..a93eae3256794fcdb5f15646823cb96f33f3ec24
GIT binary patch
literal 15992
zcmeHOYit}>6~4Q65{Ee1ZJJP%gk~rWN&rv%igAKW){k{&!H+x~2!t@1^^WZ!`*3Gx
zTRVg%QVNO*L1|S{ii8xZLXqG{gAkDrDq95w5nj!Y(4hV?grXo);tGOH8@!xz=bZI;
zyl#0)2+djToO{1>zI*SSxwCs`=FIVUZ%;TB5-e5X0|INYsEfqN(DptmfQpGWu@bg#
z7aPP<s8>tOwZ~iqR#&ct=j$56t3V^K4ht3Z1{a1NT;UO-M&4o)UFKR?3)&ClEkP62
z{rWt0z?$vl{uCsGC~{lYgT!O)<zZ~5>s|lp_W4?&xNIiPJgg#5sIEU84p&GQsXx{n
zPmBqE+bEuX-9XK-_VY%G=hxlDV~u^F?0eZs{VV<LCf->^HY5D{y)G<RbANk)C*wl)
zH&c9=_fmh09fv5zpEZS7Y)xCq)|Rd5RDIgY7RKwx+gj^eThx3`ZIWH%xD@!}oZ8jD
zUqCZO#3+m+e8R1BduUrjcJyC!`M^(VODk`kdwu*D{ofwHr1tH75Pfjm$Uz?zY>%f1
z*RfCZ!FZh7^VN`IR&PdZIebw%<5zEfa(UM;zjytyV^_?dXKHsmvEo}Fx?XHbzVynq
z2M%mFa{SB3T+fADY<KlSSRN0h0{(HpD&eOW!8O36;vNx=LBS&fP)1zDJRlU0O1w_g
z`S7~|zYo5C*#m%5p`9au--XdtTn5G(1*5!LtSbNBy-T7(90wg0bqmJ1iu||S<vM<f
z{DrQ=j2Y7Nj$u1`#;~%042>K5u$48^)=^WS8Rt){&=Z4wddjrT5i9SQ_F!LEI+ryE
zjbz#sx|uQ@1GuQ%)}S(y$z`c&9q0p4PFY#KkT+An$ihZX=JV{1%~x!ES8t-TOK(z}
z)NO*x%`LD8VVF;IpDIr|1U8H_pHGE#7EH4$@ioG}^XM008ivJriUa@7@$ZX5ahjpu
zKgOr1!J3#$WSr~QcDgvuah#JZQy$!VUfl5Dd=4UK+Jo~kM|{SEbKi&u5=0<~KoEf-
z0zm|V2m}%Me~-YQBKN+goxEA2onG>*twLy@DLUcO3);ya)?AdkUfT8)z@<%3!#1)p
zCeXjM={cwkM>ci~S#NwLF?r<^+T?GvlfRwbJs58+HvU*U(|#EmD6P$d>z{|!$i_!x
zdw@R)h<0YlW2m;zIBTKn4`Ug+US67tY&?OE7fFM^CH=Q0QEi#kCa1OM|F~0oex^zb
zUDB@1I%}YTP1Hb5Y04cJ^KrZ<+R-cu@7b@NY!72mn|#@+)lRoBh02XBrBdle3O1LP
z{0*+ULx+G{?jQNTe+Z0N*bltPPv6ug3sXOe-@##?j^EV2q@7uN6|M^+->r^Do-2mp
zcL-gByZI7YE>wpj7yOoASF)`AgRiAKhc05*@)(tm3U(bx5P={9K?H&b1Q7@#5JVt|
zKoEf-0zm|V2m}%M$0LBxciu=6{XGLa^6>mBH>{_|9Q$BH+aa%ie`25~xx<;zO*?0%
z4%&%MeOG@x(cRx6q@Uy`Cmd7H+3?8gU~gh@us5#9`@0hz{oo<(M$$S6c?d`dt*?4N
zKKsRIHD_;?N{2z81APkgv!FH5PfnLg=Rl+2GgXw((Y+!x9u2LpT~>1z9vC6M0ltTU
zBcJJYFOyH4?gtE?cx?t;0;{4utLi=&S@BTK39)nC_IEemFCQx+AD?YT*$>Jn*ro&D
zR{@vL{^F~mpAC1dTpG5aXY>dph(Hj5AOb-If(Qf=2qF+fAc#N^fgl3^8xi1qJkG!4
z+&X#D14FFkVN!nHN~%9id3<l9I_LSVr#fHytfM;T`{DHx3fphbmU38smXh=^ZxuzO
z0_OXn%#i&pZdH7r^a|2-q}P&W#kqe)%I~9eaIu>j=5Z8>z&W$r-o1pg-|HoJybvb|
z%~D;V_Tb5|+#il3T$;*yHQE14bsiUw^FO9JKm6Zpkn=8gb#?7fHt$asvQ9y1Y*w4q
zhWgfmtTsK|)S@=DsEu35@J3x?JgUX3CBF~GI|P=`Q$Q4Qz<l0H{&+mXke@q7^O4+z
zLijl!-b^^pZ}v|>A>_&D<>Q6<zah9=!1I;;k3j+Z<@1H{Q_}x#!SkQ-XP{7N{6CQX
zQK2ZVC(qZbgvSWyd3T%e!-SI(bui$Nh>8;gK$d`%#p1R}`mYwd-$9NZRcV~f;2#zd
z!RI-<Z<p=dBY1u=-Xn3?8{hmJ030)|&noQc>Lj(}&->0w{H=n|S7to|cv!&M?mNDp
z1H4jx`ZIw0x|B`*RN@Qs$}a+5DG&WJ;UdN(arKL`o%tBneg}A^yz<+!orQVpF92RC
z-~2W5_s3@`+@3>!f4=z&z?Fr=5t{(NuL3Ui4cShknuAPnxZ9>X#)tqQ?-YiI)gdvL
zjIKKweF)Rh^O%F4(?`;|q><KBPR`EjMqykG<uYSw(=k(OLuC)lc(-)Jwhg!`n04$4
zF>D(dQ%@B#nF*kHYC3p2^IW_7j3Z{(fdgI8i<LI*j?RQSG&UymkM%aTTG`>8?ztC<
zXp@W1-C@*|)(ED=TLxs{gMGVXdF*M+anh#8rA>N3RA6vDdpr8%-ANtt>~TkMAM-hV
z)X1hVJHPv*{T+RYE<oW04Lz<ALF?WN5G3;BjZLKP>K*9p=+y^$diKQ!^}&u#xaTS4
z?t-81MS++n75~5dYJmG*!lLg7%ztB{JT81)K&bhNjAJB0JGQGwxnyPGErv0nW^<0I
zj${k!n4KFlZD+y*B?}h3OJk)7g5z3`b5OdE8u?M7rY5q`g{vLgwLECrc`KKlSJA;{
zn`r|HLd6**)UmX?QAcu6aLjSo%A=>+Ir%<?YL3#x8%+V9YcAiNfi8o~(72JYhG01O
zI)(~wR|plReg<ZArL*gw#&F#Pr#$?|x#E8hj@M0OmcCp@{Z9De+J^ayz3+v-D7>C=
zYeKX_!OQo*_l5V#y@L1Sy@LOzUOxYyvsS#$Q1<gb0@z<*ZN%f}^&o4F_`DwUkKX`0
zt_7LT>qXYPF}NT&Ml3R)*LfCTxCCK7uRmGydJ|lvP;*=r4?qdme$40f9&0{+Jbw0L
z{V?!xEy;CWPqJ>Hp8VtI0i1yX#+3QIzGYn`NABOh|4)D&_lfQ0|5^IK<#jzZv*7rB
z#m85O$J+O|?QdQ@<>NOHf%Tj5zv<)0h`>7KJ7E6y&inYh?qSW>J>VwAKYuR(id}I0
zg(BSq>n~816`Q&4t_$b*yk26>??1A?zyF_s!P|e4I$-@c6G`*&XZS@Z;2M&zOL#rY
z?@9Xoxz74Ja3dZ*ub*e?0R&+`w>DR2{1zB+?s5O+b)@PtinwziIR8<Y$H(#OfT0WX
zdHq=2irzxR<aTbueAY8y^76}s2A9MAa0|@i`YaR><NkTw7A3ylpLU1oq6z@S$i0j+
zpTbzineWx*xmWgr{iX)LK?B3{7_Z5BJpB8I*I_(%4_(~A3n-A7uW|0zwc?t$GJiAv
Mv4GV22)?TLJHrA)nE(I)

literal 0
HcmV?d00001

diff --git a/b/CMakeFiles/3.28.3/CMakeSystem.cmake b/b/CMakeFiles/3.28.3/CMakeSystem.cmake
new file mode 100644
index 0000000..2b9adb4
--- /dev/null
+++ b/b/CMakeFiles/3.28.3/CMakeSystem.cmake
@@ -0,0 +1,15 @@
+set(CMAKE_HOST_SYSTEM "Linux-6.18.44-fc-v657")
+set(CMAKE_HOST_SYSTEM_NAME "Linux")
+set(CMAKE_HOST_SYSTEM_VERSION "6.18.44-fc-v657")
+set(CMAKE_HOST_SYSTEM_PROCESSOR "x86_64")
+
+
+
+set(CMAKE_SYSTEM "Linux-6.18.44-fc-v657")
+set(CMAKE_SYSTEM_NAME "Linux")
+set(CMAKE_SYSTEM_VERSION "6.18.44-fc-v657")
+set(CMAKE_SYSTEM_PROCESSOR "x86_64")
+
+set(CMAKE_CROSSCOMPILING "FALSE")
+
+set(CMAKE_SYSTEM_LOADED 1)
diff --git a/b/CMakeFiles/3.28.3/CompilerIdC/CMakeCCompilerId.c b/b/CMakeFiles/3.28.3/CompilerIdC/CMakeCCompilerId.c
new file mode 100644
index 0000000..0a0ec9b
--- /dev/null
+++ b/b/CMakeFiles/3.28.3/CompilerIdC/CMakeCCompilerId.c
@@ -0,0 +1,880 @@
+#ifdef __cplusplus
+# error "A C++ compiler has been selected for C."
+#endif
+
+#if defined(__18CXX)
+# define ID_VOID_MAIN
+#endif
+#if defined(__CLASSIC_C__)
+/* cv-qualifiers did not exist in K&R C */
+# define const
+# define volatile
+#endif
+
+#if !defined(__has_include)
+/* If the compiler does not have __has_include, pretend the answer is
+   always no.  */
+#  define __has_include(x) 0
+#endif
+
+
+/* Version number components: V=Version, R=Revision, P=Patch
+   Version date components:   YYYY=Year, MM=Month,   DD=Day  */
+
+#if defined(__INTEL_COMPILER) || defined(__ICC)
+# define COMPILER_ID "Intel"
+# if defined(_MSC_VER)
+#  define SIMULATE_ID "MSVC"
+# endif
+# if defined(__GNUC__)
+#  define SIMULATE_ID "GNU"
+# endif
+  /* __INTEL_COMPILER = VRP prior to 2021, and then VVVV for 2021 and later,
+     except that a few beta releases use the old format with V=2021.  */
+# if __INTEL_COMPILER < 2021 || __INTEL_COMPILER == 202110 || __INTEL_COMPILER == 202111
+#  define COMPILER_VERSION_MAJOR DEC(__INTEL_COMPILER/100)
+#  define COMPILER_VERSION_MINOR DEC(__INTEL_COMPILER/10 % 10)
+#  if defined(__INTEL_COMPILER_UPDATE)
+#   define COMPILER_VERSION_PATCH DEC(__INTEL_COMPILER_UPDATE)
+#  else
+#   define COMPILER_VERSION_PATCH DEC(__INTEL_COMPILER   % 10)
+#  endif
+# else
+#  define COMPILER_VERSION_MAJOR DEC(__INTEL_COMPILER)
+#  define COMPILER_VERSION_MINOR DEC(__INTEL_COMPILER_UPDATE)
+   /* The third version component from --version is an update index,
+      but no macro is provided for it.  */
+#  define COMPILER_VERSION_PATCH DEC(0)
+# endif
+# if defined(__INTEL_COMPILER_BUILD_DATE)
+   /* __INTEL_COMPILER_BUILD_DATE = YYYYMMDD */
+#  define COMPILER_VERSION_TWEAK DEC(__INTEL_COMPILER_BUILD_DATE)
+# endif
+# if defined(_MSC_VER)
+   /* _MSC_VER = VVRR */
+#  define SIMULATE_VERSION_MAJOR DEC(_MSC_VER / 100)
+#  define SIMULATE_VERSION_MINOR DEC(_MSC_VER % 100)
+# endif
+# if defined(__GNUC__)
+#  define SIMULATE_VERSION_MAJOR DEC(__GNUC__)
+# elif defined(__GNUG__)
+#  define SIMULATE_VERSION_MAJOR DEC(__GNUG__)
+# endif
+# if defined(__GNUC_MINOR__)
+#  define SIMULATE_VERSION_MINOR DEC(__GNUC_MINOR__)
+# endif
+# if defined(__GNUC_PATCHLEVEL__)
+#  define SIMULATE_VERSION_PATCH DEC(__GNUC_PATCHLEVEL__)
+# endif
+
+#elif (defined(__clang__) && defined(__INTEL_CLANG_COMPILER)) || defined(__INTEL_LLVM_COMPILER)
+# define COMPILER_ID "IntelLLVM"
+#if defined(_MSC_VER)
+# define SIMULATE_ID "MSVC"
+#endif
+#if defined(__GNUC__)
+# define SIMULATE_ID "GNU"
+#endif
+/* __INTEL_LLVM_COMPILER = VVVVRP prior to 2021.2.0, VVVVRRPP for 2021.2.0 and
+ * later.  Look for 6 digit vs. 8 digit version number to decide encoding.
+ * VVVV is no smaller than the current year when a version is released.
+ */
+#if __INTEL_LLVM_COMPILER < 1000000L
+# define COMPILER_VERSION_MAJOR DEC(__INTEL_LLVM_COMPILER/100)
+# define COMPILER_VERSION_MINOR DEC(__INTEL_LLVM_COMPILER/10 % 10)
+# define COMPILER_VERSION_PATCH DEC(__INTEL_LLVM_COMPILER    % 10)
+#else
+# define COMPILER_VERSION_MAJOR DEC(__INTEL_LLVM_COMPILER/10000)
+# define COMPILER_VERSION_MINOR DEC(__INTEL_LLVM_COMPILER/100 % 100)
+# define COMPILER_VERSION_PATCH DEC(__INTEL_LLVM_COMPILER     % 100)
+#endif
+#if defined(_MSC_VER)
+  /* _MSC_VER = VVRR */
+# define SIMULATE_VERSION_MAJOR DEC(_MSC_VER / 100)
+# define SIMULATE_VERSION_MINOR DEC(_MSC_VER % 100)
+#endif
+#if defined(__GNUC__)
+# define SIMULATE_VERSION_MAJOR DEC(__GNUC__)
+#elif defined(__GNUG__)
+# define SIMULATE_VERSION_MAJOR DEC(__GNUG__)
+#endif
+#if defined(__GNUC_MINOR__)
+# define SIMULATE_VERSION_MINOR DEC(__GNUC_MINOR__)
+#endif
+#if defined(__GNUC_PATCHLEVEL__)
+# define SIMULATE_VERSION_PATCH DEC(__GNUC_PATCHLEVEL__)
+#endif
+
+#elif defined(__PATHCC__)
+# define COMPILER_ID "PathScale"
+# define COMPILER_VERSION_MAJOR DEC(__PATHCC__)
+# define COMPILER_VERSION_MINOR DEC(__PATHCC_MINOR__)
+# if defined(__PATHCC_PATCHLEVEL__)
+#  define COMPILER_VERSION_PATCH DEC(__PATHCC_PATCHLEVEL__)
+# endif
+
+#elif defined(__BORLANDC__) && defined(__CODEGEARC_VERSION__)
+# define COMPILER_ID "Embarcadero"
+# define COMPILER_VERSION_MAJOR HEX(__CODEGEARC_VERSION__>>24 & 0x00FF)
+# define COMPILER_VERSION_MINOR HEX(__CODEGEARC_VERSION__>>16 & 0x00FF)
+# define COMPILER_VERSION_PATCH DEC(__CODEGEARC_VERSION__     & 0xFFFF)
+
+#elif defined(__BORLANDC__)
+# define COMPILER_ID "Borland"
+  /* __BORLANDC__ = 0xVRR */
+# define COMPILER_VERSION_MAJOR HEX(__BORLANDC__>>8)
+# define COMPILER_VERSION_MINOR HEX(__BORLANDC__ & 0xFF)
+
+#elif defined(__WATCOMC__) && __WATCOMC__ < 1200
+# define COMPILER_ID "Watcom"
+   /* __WATCOMC__ = VVRR */
+# define COMPILER_VERSION_MAJOR DEC(__WATCOMC__ / 100)
+# define COMPILER_VERSION_MINOR DEC((__WATCOMC__ / 10) % 10)
+# if (__WATCOMC__ % 10) > 0
+#  define COMPILER_VERSION_PATCH DEC(__WATCOMC__ % 10)
+# endif
+
+#elif defined(__WATCOMC__)
+# define COMPILER_ID "OpenWatcom"
+   /* __WATCOMC__ = VVRP + 1100 */
+# define COMPILER_VERSION_MAJOR DEC((__WATCOMC__ - 1100) / 100)
+# define COMPILER_VERSION_MINOR DEC((__WATCOMC__ / 10) % 10)
+# if (__WATCOMC__ % 10) > 0
+#  define COMPILER_VERSION_PATCH DEC(__WATCOMC__ % 10)
+# endif
+
+#elif defined(__SUNPRO_C)
+# define COMPILER_ID "SunPro"
+# if __SUNPRO_C >= 0x5100
+   /* __SUNPRO_C = 0xVRRP */
+#  define COMPILER_VERSION_MAJOR HEX(__SUNPRO_C>>12)
+#  define COMPILER_VERSION_MINOR HEX(__SUNPRO_C>>4 & 0xFF)
+#  define COMPILER_VERSION_PATCH HEX(__SUNPRO_C    & 0xF)
+# else
+   /* __SUNPRO_CC = 0xVRP */
+#  define COMPILER_VERSION_MAJOR HEX(__SUNPRO_C>>8)
+#  define COMPILER_VERSION_MINOR HEX(__SUNPRO_C>>4 & 0xF)
+#  define COMPILER_VERSION_PATCH HEX(__SUNPRO_C    & 0xF)
+# endif
+
+#elif defined(__HP_cc)
+# define COMPILER_ID "HP"
+  /* __HP_cc = VVRRPP */
+# define COMPILER_VERSION_MAJOR DEC(__HP_cc/10000)
+# define COMPILER_VERSION_MINOR DEC(__HP_cc/100 % 100)
+# define COMPILER_VERSION_PATCH DEC(__HP_cc     % 100)
+
+#elif defined(__DECC)
+# define COMPILER_ID "Compaq"
+  /* __DECC_VER = VVRRTPPPP */
+# define COMPILER_VERSION_MAJOR DEC(__DECC_VER/10000000)
+# define COMPILER_VERSION_MINOR DEC(__DECC_VER/100000  % 100)
+# define COMPILER_VERSION_PATCH DEC(__DECC_VER         % 10000)
+
+#elif defined(__IBMC__) && defined(__COMPILER_VER__)
+# define COMPILER_ID "zOS"
+  /* __IBMC__ = VRP */
+# define COMPILER_VERSION_MAJOR DEC(__IBMC__/100)
+# define COMPILER_VERSION_MINOR DEC(__IBMC__/10 % 10)
+# define COMPILER_VERSION_PATCH DEC(__IBMC__    % 10)
+
+#elif defined(__open_xl__) && defined(__clang__)
+# define COMPILER_ID "IBMClang"
+# define COMPILER_VERSION_MAJOR DEC(__open_xl_version__)
+# define COMPILER_VERSION_MINOR DEC(__open_xl_release__)
+# define COMPILER_VERSION_PATCH DEC(__open_xl_modification__)
+# define COMPILER_VERSION_TWEAK DEC(__open_xl_ptf_fix_level__)
+
+
+#elif defined(__ibmxl__) && defined(__clang__)
+# define COMPILER_ID "XLClang"
+# define COMPILER_VERSION_MAJOR DEC(__ibmxl_version__)
+# define COMPILER_VERSION_MINOR DEC(__ibmxl_release__)
+# define COMPILER_VERSION_PATCH DEC(__ibmxl_modification__)
+# define COMPILER_VERSION_TWEAK DEC(__ibmxl_ptf_fix_level__)
+
+
+#elif defined(__IBMC__) && !defined(__COMPILER_VER__) && __IBMC__ >= 800
+# define COMPILER_ID "XL"
+  /* __IBMC__ = VRP */
+# define COMPILER_VERSION_MAJOR DEC(__IBMC__/100)
+# define COMPILER_VERSION_MINOR DEC(__IBMC__/10 % 10)
+# define COMPILER_VERSION_PATCH DEC(__IBMC__    % 10)
+
+#elif defined(__IBMC__) && !defined(__COMPILER_VER__) && __IBMC__ < 800
+# define COMPILER_ID "VisualAge"
+  /* __IBMC__ = VRP */
+# define COMPILER_VERSION_MAJOR DEC(__IBMC__/100)
+# define COMPILER_VERSION_MINOR DEC(__IBMC__/10 % 10)
+# define COMPILER_VERSION_PATCH DEC(__IBMC__    % 10)
+
+#elif defined(__NVCOMPILER)
+# define COMPILER_ID "NVHPC"
+# define COMPILER_VERSION_MAJOR DEC(__NVCOMPILER_MAJOR__)
+# define COMPILER_VERSION_MINOR DEC(__NVCOMPILER_MINOR__)
+# if defined(__NVCOMPILER_PATCHLEVEL__)
+#  define COMPILER_VERSION_PATCH DEC(__NVCOMPILER_PATCHLEVEL__)
+# endif
+
+#elif defined(__PGI)
+# define COMPILER_ID "PGI"
+# define COMPILER_VERSION_MAJOR DEC(__PGIC__)
+# define COMPILER_VERSION_MINOR DEC(__PGIC_MINOR__)
+# if defined(__PGIC_PATCHLEVEL__)
+#  define COMPILER_VERSION_PATCH DEC(__PGIC_PATCHLEVEL__)
+# endif
+
+#elif defined(__clang__) && defined(__cray__)
+# define COMPILER_ID "CrayClang"
+# define COMPILER_VERSION_MAJOR DEC(__cray_major__)
+# define COMPILER_VERSION_MINOR DEC(__cray_minor__)
+# define COMPILER_VERSION_PATCH DEC(__cray_patchlevel__)
+# define COMPILER_VERSION_INTERNAL_STR __clang_version__
+
+
+#elif defined(_CRAYC)
+# define COMPILER_ID "Cray"
+# define COMPILER_VERSION_MAJOR DEC(_RELEASE_MAJOR)
+# define COMPILER_VERSION_MINOR DEC(_RELEASE_MINOR)
+
+#elif defined(__TI_COMPILER_VERSION__)
+# define COMPILER_ID "TI"
+  /* __TI_COMPILER_VERSION__ = VVVRRRPPP */
+# define COMPILER_VERSION_MAJOR DEC(__TI_COMPILER_VERSION__/1000000)
+# define COMPILER_VERSION_MINOR DEC(__TI_COMPILER_VERSION__/1000   % 1000)
+# define COMPILER_VERSION_PATCH DEC(__TI_COMPILER_VERSION__        % 1000)
+
+#elif defined(__CLANG_FUJITSU)
+# define COMPILER_ID "FujitsuClang"
+# define COMPILER_VERSION_MAJOR DEC(__FCC_major__)
+# define COMPILER_VERSION_MINOR DEC(__FCC_minor__)
+# define COMPILER_VERSION_PATCH DEC(__FCC_patchlevel__)
+# define COMPILER_VERSION_INTERNAL_STR __clang_version__
+
+
+#elif defined(__FUJITSU)
+# define COMPILER_ID "Fujitsu"
+# if defined(__FCC_version__)
+#   define COMPILER_VERSION __FCC_version__
+# elif defined(__FCC_major__)
+#   define COMPILER_VERSION_MAJOR DEC(__FCC_major__)
+#   define COMPILER_VERSION_MINOR DEC(__FCC_minor__)
+#   define COMPILER_VERSION_PATCH DEC(__FCC_patchlevel__)
+# endif
+# if defined(__fcc_version)
+#   define COMPILER_VERSION_INTERNAL DEC(__fcc_version)
+# elif defined(__FCC_VERSION)
+#   define COMPILER_VERSION_INTERNAL DEC(__FCC_VERSION)
+# endif
+
+
+#elif defined(__ghs__)
+# define COMPILER_ID "GHS"
+/* __GHS_VERSION_NUMBER = VVVVRP */
+# ifdef __GHS_VERSION_NUMBER
+# define COMPILER_VERSION_MAJOR DEC(__GHS_VERSION_NUMBER / 100)
+# define COMPILER_VERSION_MINOR DEC(__GHS_VERSION_NUMBER / 10 % 10)
+# define COMPILER_VERSION_PATCH DEC(__GHS_VERSION_NUMBER      % 10)
+# endif
+
+#elif defined(__TASKING__)
+# define COMPILER_ID "Tasking"
+  # define COMPILER_VERSION_MAJOR DEC(__VERSION__/1000)
+  # define COMPILER_VERSION_MINOR DEC(__VERSION__ % 100)
+# define COMPILER_VERSION_INTERNAL DEC(__VERSION__)
+
+#elif defined(__ORANGEC__)
+# define COMPILER_ID "OrangeC"
+# define COMPILER_VERSION_MAJOR DEC(__ORANGEC_MAJOR__)
+# define COMPILER_VERSION_MINOR DEC(__ORANGEC_MINOR__)
+# define COMPILER_VERSION_PATCH DEC(__ORANGEC_PATCHLEVEL__)
+
+#elif defined(__TINYC__)
+# define COMPILER_ID "TinyCC"
+
+#elif defined(__BCC__)
+# define COMPILER_ID "Bruce"
+
+#elif defined(__SCO_VERSION__)
+# define COMPILER_ID "SCO"
+
+#elif defined(__ARMCC_VERSION) && !defined(__clang__)
+# define COMPILER_ID "ARMCC"
+#if __ARMCC_VERSION >= 1000000
+  /* __ARMCC_VERSION = VRRPPPP */
+  # define COMPILER_VERSION_MAJOR DEC(__ARMCC_VERSION/1000000)
+  # define COMPILER_VERSION_MINOR DEC(__ARMCC_VERSION/10000 % 100)
+  # define COMPILER_VERSION_PATCH DEC(__ARMCC_VERSION     % 10000)
+#else
+  /* __ARMCC_VERSION = VRPPPP */
+  # define COMPILER_VERSION_MAJOR DEC(__ARMCC_VERSION/100000)
+  # define COMPILER_VERSION_MINOR DEC(__ARMCC_VERSION/10000 % 10)
+  # define COMPILER_VERSION_PATCH DEC(__ARMCC_VERSION    % 10000)
+#endif
+
+
+#elif defined(__clang__) && defined(__apple_build_version__)
+# define COMPILER_ID "AppleClang"
+# if defined(_MSC_VER)
+#  define SIMULATE_ID "MSVC"
+# endif
+# define COMPILER_VERSION_MAJOR DEC(__clang_major__)
+# define COMPILER_VERSION_MINOR DEC(__clang_minor__)
+# define COMPILER_VERSION_PATCH DEC(__clang_patchlevel__)
+# if defined(_MSC_VER)
+   /* _MSC_VER = VVRR */
+#  define SIMULATE_VERSION_MAJOR DEC(_MSC_VER / 100)
+#  define SIMULATE_VERSION_MINOR DEC(_MSC_VER % 100)
+# endif
+# define COMPILER_VERSION_TWEAK DEC(__apple_build_version__)
+
+#elif defined(__clang__) && defined(__ARMCOMPILER_VERSION)
+# define COMPILER_ID "ARMClang"
+  # define COMPILER_VERSION_MAJOR DEC(__ARMCOMPILER_VERSION/1000000)
+  # define COMPILER_VERSION_MINOR DEC(__ARMCOMPILER_VERSION/10000 % 100)
+  # define COMPILER_VERSION_PATCH DEC(__ARMCOMPILER_VERSION/100   % 100)
+# define COMPILER_VERSION_INTERNAL DEC(__ARMCOMPILER_VERSION)
+
+#elif defined(__clang__)
+# define COMPILER_ID "Clang"
+# if defined(_MSC_VER)
+#  define SIMULATE_ID "MSVC"
+# endif
+# define COMPILER_VERSION_MAJOR DEC(__clang_major__)
+# define COMPILER_VERSION_MINOR DEC(__clang_minor__)
+# define COMPILER_VERSION_PATCH DEC(__clang_patchlevel__)
+# if defined(_MSC_VER)
+   /* _MSC_VER = VVRR */
+#  define SIMULATE_VERSION_MAJOR DEC(_MSC_VER / 100)
+#  define SIMULATE_VERSION_MINOR DEC(_MSC_VER % 100)
+# endif
+
+#elif defined(__LCC__) && (defined(__GNUC__) || defined(__GNUG__) || defined(__MCST__))
+# define COMPILER_ID "LCC"
+# define COMPILER_VERSION_MAJOR DEC(__LCC__ / 100)
+# define COMPILER_VERSION_MINOR DEC(__LCC__ % 100)
+# if defined(__LCC_MINOR__)
+#  define COMPILER_VERSION_PATCH DEC(__LCC_MINOR__)
+# endif
+# if defined(__GNUC__) && defined(__GNUC_MINOR__)
+#  define SIMULATE_ID "GNU"
+#  define SIMULATE_VERSION_MAJOR DEC(__GNUC__)
+#  define SIMULATE_VERSION_MINOR DEC(__GNUC_MINOR__)
+#  if defined(__GNUC_PATCHLEVEL__)
+#   define SIMULATE_VERSION_PATCH DEC(__GNUC_PATCHLEVEL__)
+#  endif
+# endif
+
+#elif defined(__GNUC__)
+# define COMPILER_ID "GNU"
+# define COMPILER_VERSION_MAJOR DEC(__GNUC__)
+# if defined(__GNUC_MINOR__)
+#  define COMPILER_VERSION_MINOR DEC(__GNUC_MINOR__)
+# endif
+# if defined(__GNUC_PATCHLEVEL__)
+#  define COMPILER_VERSION_PATCH DEC(__GNUC_PATCHLEVEL__)
+# endif
+
+#elif defined(_MSC_VER)
+# define COMPILER_ID "MSVC"
+  /* _MSC_VER = VVRR */
+# define COMPILER_VERSION_MAJOR DEC(_MSC_VER / 100)
+# define COMPILER_VERSION_MINOR DEC(_MSC_VER % 100)
+# if defined(_MSC_FULL_VER)
+#  if _MSC_VER >= 1400
+    /* _MSC_FULL_VER = VVRRPPPPP */
+#   define COMPILER_VERSION_PATCH DEC(_MSC_FULL_VER % 100000)
+#  else
+    /* _MSC_FULL_VER = VVRRPPPP */
+#   define COMPILER_VERSION_PATCH DEC(_MSC_FULL_VER % 10000)
+#  endif
+# endif
+# if defined(_MSC_BUILD)
+#  define COMPILER_VERSION_TWEAK DEC(_MSC_BUILD)
+# endif
+
+#elif defined(_ADI_COMPILER)
+# define COMPILER_ID "ADSP"
+#if defined(__VERSIONNUM__)
+  /* __VERSIONNUM__ = 0xVVRRPPTT */
+#  define COMPILER_VERSION_MAJOR DEC(__VERSIONNUM__ >> 24 & 0xFF)
+#  define COMPILER_VERSION_MINOR DEC(__VERSIONNUM__ >> 16 & 0xFF)
+#  define COMPILER_VERSION_PATCH DEC(__VERSIONNUM__ >> 8 & 0xFF)
+#  define COMPILER_VERSION_TWEAK DEC(__VERSIONNUM__ & 0xFF)
+#endif
+
+#elif defined(__IAR_SYSTEMS_ICC__) || defined(__IAR_SYSTEMS_ICC)
+# define COMPILER_ID "IAR"
+# if defined(__VER__) && defined(__ICCARM__)
+#  define COMPILER_VERSION_MAJOR DEC((__VER__) / 1000000)
+#  define COMPILER_VERSION_MINOR DEC(((__VER__) / 1000) % 1000)
+#  define COMPILER_VERSION_PATCH DEC((__VER__) % 1000)
+#  define COMPILER_VERSION_INTERNAL DEC(__IAR_SYSTEMS_ICC__)
+# elif defined(__VER__) && (defined(__ICCAVR__) || defined(__ICCRX__) || defined(__ICCRH850__) || defined(__ICCRL78__) || defined(__ICC430__) || defined(__ICCRISCV__) || defined(__ICCV850__) || defined(__ICC8051__) || defined(__ICCSTM8__))
+#  define COMPILER_VERSION_MAJOR DEC((__VER__) / 100)
+#  define COMPILER_VERSION_MINOR DEC((__VER__) - (((__VER__) / 100)*100))
+#  define COMPILER_VERSION_PATCH DEC(__SUBVERSION__)
+#  define COMPILER_VERSION_INTERNAL DEC(__IAR_SYSTEMS_ICC__)
+# endif
+
+#elif defined(__SDCC_VERSION_MAJOR) || defined(SDCC)
+# define COMPILER_ID "SDCC"
+# if defined(__SDCC_VERSION_MAJOR)
+#  define COMPILER_VERSION_MAJOR DEC(__SDCC_VERSION_MAJOR)
+#  define COMPILER_VERSION_MINOR DEC(__SDCC_VERSION_MINOR)
+#  define COMPILER_VERSION_PATCH DEC(__SDCC_VERSION_PATCH)
+# else
+  /* SDCC = VRP */
+#  define COMPILER_VERSION_MAJOR DEC(SDCC/100)
+#  define COMPILER_VERSION_MINOR DEC(SDCC/10 % 10)
+#  define COMPILER_VERSION_PATCH DEC(SDCC    % 10)
+# endif
+
+
+/* These compilers are either not known or too old to define an
+  identification macro.  Try to identify the platform and guess that
+  it is the native compiler.  */
+#elif defined(__hpux) || defined(__hpua)
+# define COMPILER_ID "HP"
+
+#else /* unknown compiler */
+# define COMPILER_ID ""
+#endif
+
+/* Construct the string literal in pieces to prevent the source from
+   getting matched.  Store it in a pointer rather than an array
+   because some compilers will just produce instructions to fill the
+   array rather than assigning a pointer to a static array.  */
+char const* info_compiler = "INFO" ":" "compiler[" COMPILER_ID "]";
+#ifdef SIMULATE_ID
+char const* info_simulate = "INFO" ":" "simulate[" SIMULATE_ID "]";
+#endif
+
+#ifdef __QNXNTO__
+char const* qnxnto = "INFO" ":" "qnxnto[]";
+#endif
+
+#if defined(__CRAYXT_COMPUTE_LINUX_TARGET)
+char const *info_cray = "INFO" ":" "compiler_wrapper[CrayPrgEnv]";
+#endif
+
+#define STRINGIFY_HELPER(X) #X
+#define STRINGIFY(X) STRINGIFY_HELPER(X)
+
+/* Identify known platforms by name.  */
+#if defined(__linux) || defined(__linux__) || defined(linux)
+# define PLATFORM_ID "Linux"
+
+#elif defined(__MSYS__)
+# define PLATFORM_ID "MSYS"
+
+#elif defined(__CYGWIN__)
+# define PLATFORM_ID "Cygwin"
+
+#elif defined(__MINGW32__)
+# define PLATFORM_ID "MinGW"
+
+#elif defined(__APPLE__)
+# define PLATFORM_ID "Darwin"
+
+#elif defined(_WIN32) || defined(__WIN32__) || defined(WIN32)
+# define PLATFORM_ID "Windows"
+
+#elif defined(__FreeBSD__) || defined(__FreeBSD)
+# define PLATFORM_ID "FreeBSD"
+
+#elif defined(__NetBSD__) || defined(__NetBSD)
+# define PLATFORM_ID "NetBSD"
+
+#elif defined(__OpenBSD__) || defined(__OPENBSD)
+# define PLATFORM_ID "OpenBSD"
+
+#elif defined(__sun) || defined(sun)
+# define PLATFORM_ID "SunOS"
+
+#elif defined(_AIX) || defined(__AIX) || defined(__AIX__) || defined(__aix) || defined(__aix__)
+# define PLATFORM_ID "AIX"
+
+#elif defined(__hpux) || defined(__hpux__)
+# define PLATFORM_ID "HP-UX"
+
+#elif defined(__HAIKU__)
+# define PLATFORM_ID "Haiku"
+
+#elif defined(__BeOS) || defined(__BEOS__) || defined(_BEOS)
+# define PLATFORM_ID "BeOS"
+
+#elif defined(__QNX__) || defined(__QNXNTO__)
+# define PLATFORM_ID "QNX"
+
+#elif defined(__tru64) || defined(_tru64) || defined(__TRU64__)
+# define PLATFORM_ID "Tru64"
+
+#elif defined(__riscos) || defined(__riscos__)
+# define PLATFORM_ID "RISCos"
+
+#elif defined(__sinix) || defined(__sinix__) || defined(__SINIX__)
+# define PLATFORM_ID "SINIX"
+
+#elif defined(__UNIX_SV__)
+# define PLATFORM_ID "UNIX_SV"
+
+#elif defined(__bsdos__)
+# define PLATFORM_ID "BSDOS"
+
+#elif defined(_MPRAS) || defined(MPRAS)
+# define PLATFORM_ID "MP-RAS"
+
+#elif defined(__osf) || defined(__osf__)
+# define PLATFORM_ID "OSF1"
+
+#elif defined(_SCO_SV) || defined(SCO_SV) || defined(sco_sv)
+# define PLATFORM_ID "SCO_SV"
+
+#elif defined(__ultrix) || defined(__ultrix__) || defined(_ULTRIX)
+# define PLATFORM_ID "ULTRIX"
+
+#elif defined(__XENIX__) || defined(_XENIX) || defined(XENIX)
+# define PLATFORM_ID "Xenix"
+
+#elif defined(__WATCOMC__)
+# if defined(__LINUX__)
+#  define PLATFORM_ID "Linux"
+
+# elif defined(__DOS__)
+#  define PLATFORM_ID "DOS"
+
+# elif defined(__OS2__)
+#  define PLATFORM_ID "OS2"
+
+# elif defined(__WINDOWS__)
+#  define PLATFORM_ID "Windows3x"
+
+# elif defined(__VXWORKS__)
+#  define PLATFORM_ID "VxWorks"
+
+# else /* unknown platform */
+#  define PLATFORM_ID
+# endif
+
+#elif defined(__INTEGRITY)
+# if defined(INT_178B)
+#  define PLATFORM_ID "Integrity178"
+
+# else /* regular Integrity */
+#  define PLATFORM_ID "Integrity"
+# endif
+
+# elif defined(_ADI_COMPILER)
+#  define PLATFORM_ID "ADSP"
+
+#else /* unknown platform */
+# define PLATFORM_ID
+
+#endif
+
+/* For windows compilers MSVC and Intel we can determine
+   the architecture of the compiler being used.  This is because
+   the compilers do not have flags that can change the architecture,
+   but rather depend on which compiler is being used
+*/
+#if defined(_WIN32) && defined(_MSC_VER)
+# if defined(_M_IA64)
+#  define ARCHITECTURE_ID "IA64"
+
+# elif defined(_M_ARM64EC)
+#  define ARCHITECTURE_ID "ARM64EC"
+
+# elif defined(_M_X64) || defined(_M_AMD64)
+#  define ARCHITECTURE_ID "x64"
+
+# elif defined(_M_IX86)
+#  define ARCHITECTURE_ID "X86"
+
+# elif defined(_M_ARM64)
+#  define ARCHITECTURE_ID "ARM64"
+
+# elif defined(_M_ARM)
+#  if _M_ARM == 4
+#   define ARCHITECTURE_ID "ARMV4I"
+#  elif _M_ARM == 5
+#   define ARCHITECTURE_ID "ARMV5I"
+#  else
+#   define ARCHITECTURE_ID "ARMV" STRINGIFY(_M_ARM)
+#  endif
+
+# elif defined(_M_MIPS)
+#  define ARCHITECTURE_ID "MIPS"
+
+# elif defined(_M_SH)
+#  define ARCHITECTURE_ID "SHx"
+
+# else /* unknown architecture */
+#  define ARCHITECTURE_ID ""
+# endif
+
+#elif defined(__WATCOMC__)
+# if defined(_M_I86)
+#  define ARCHITECTURE_ID "I86"
+
+# elif defined(_M_IX86)
+#  define ARCHITECTURE_ID "X86"
+
+# else /* unknown architecture */
+#  define ARCHITECTURE_ID ""
+# endif
+
+#elif defined(__IAR_SYSTEMS_ICC__) || defined(__IAR_SYSTEMS_ICC)
+# if defined(__ICCARM__)
+#  define ARCHITECTURE_ID "ARM"
+
+# elif defined(__ICCRX__)
+#  define ARCHITECTURE_ID "RX"
+
+# elif defined(__ICCRH850__)
+#  define ARCHITECTURE_ID "RH850"
+
+# elif defined(__ICCRL78__)
+#  define ARCHITECTURE_ID "RL78"
+
+# elif defined(__ICCRISCV__)
+#  define ARCHITECTURE_ID "RISCV"
+
+# elif defined(__ICCAVR__)
+#  define ARCHITECTURE_ID "AVR"
+
+# elif defined(__ICC430__)
+#  define ARCHITECTURE_ID "MSP430"
+
+# elif defined(__ICCV850__)
+#  define ARCHITECTURE_ID "V850"
+
+# elif defined(__ICC8051__)
+#  define ARCHITECTURE_ID "8051"
+
+# elif defined(__ICCSTM8__)
+#  define ARCHITECTURE_ID "STM8"
+
+# else /* unknown architecture */
+#  define ARCHITECTURE_ID ""
+# endif
+
+#elif defined(__ghs__)
+# if defined(__PPC64__)
+#  define ARCHITECTURE_ID "PPC64"
+
+# elif defined(__ppc__)
+#  define ARCHITECTURE_ID "PPC"
+
+# elif defined(__ARM__)
+#  define ARCHITECTURE_ID "ARM"
+
+# elif defined(__x86_64__)
+#  define ARCHITECTURE_ID "x64"
+
+# elif defined(__i386__)
+#  define ARCHITECTURE_ID "X86"
+
+# else /* unknown architecture */
+#  define ARCHITECTURE_ID ""
+# endif
+
+#elif defined(__TI_COMPILER_VERSION__)
+# if defined(__TI_ARM__)
+#  define ARCHITECTURE_ID "ARM"
+
+# elif defined(__MSP430__)
+#  define ARCHITECTURE_ID "MSP430"
+
+# elif defined(__TMS320C28XX__)
+#  define ARCHITECTURE_ID "TMS320C28x"
+
+# elif defined(__TMS320C6X__) || defined(_TMS320C6X)
+#  define ARCHITECTURE_ID "TMS320C6x"
+
+# else /* unknown architecture */
+#  define ARCHITECTURE_ID ""
+# endif
+
+# elif defined(__ADSPSHARC__)
+#  define ARCHITECTURE_ID "SHARC"
+
+# elif defined(__ADSPBLACKFIN__)
+#  define ARCHITECTURE_ID "Blackfin"
+
+#elif defined(__TASKING__)
+
+# if defined(__CTC__) || defined(__CPTC__)
+#  define ARCHITECTURE_ID "TriCore"
+
+# elif defined(__CMCS__)
+#  define ARCHITECTURE_ID "MCS"
+
+# elif defined(__CARM__)
+#  define ARCHITECTURE_ID "ARM"
+
+# elif defined(__CARC__)
+#  define ARCHITECTURE_ID "ARC"
+
+# elif defined(__C51__)
+#  define ARCHITECTURE_ID "8051"
+
+# elif defined(__CPCP__)
+#  define ARCHITECTURE_ID "PCP"
+
+# else
+#  define ARCHITECTURE_ID ""
+# endif
+
+#else
+#  define ARCHITECTURE_ID
+#endif
+
+/* Convert integer to decimal digit literals.  */
+#define DEC(n)                   \
+  ('0' + (((n) / 10000000)%10)), \
+  ('0' + (((n) / 1000000)%10)),  \
+  ('0' + (((n) / 100000)%10)),   \
+  ('0' + (((n) / 10000)%10)),    \
+  ('0' + (((n) / 1000)%10)),     \
+  ('0' + (((n) / 100)%10)),      \
+  ('0' + (((n) / 10)%10)),       \
+  ('0' +  ((n) % 10))
+
+/* Convert integer to hex digit literals.  */
+#define HEX(n)             \
+  ('0' + ((n)>>28 & 0xF)), \
+  ('0' + ((n)>>24 & 0xF)), \
+  ('0' + ((n)>>20 & 0xF)), \
+  ('0' + ((n)>>16 & 0xF)), \
+  ('0' + ((n)>>12 & 0xF)), \
+  ('0' + ((n)>>8  & 0xF)), \
+  ('0' + ((n)>>4  & 0xF)), \
+  ('0' + ((n)     & 0xF))
+
+/* Construct a string literal encoding the version number. */
+#ifdef COMPILER_VERSION
+char const* info_version = "INFO" ":" "compiler_version[" COMPILER_VERSION "]";
+
+/* Construct a string literal encoding the version number components. */
+#elif defined(COMPILER_VERSION_MAJOR)
+char const info_version[] = {
+  'I', 'N', 'F', 'O', ':',
+  'c','o','m','p','i','l','e','r','_','v','e','r','s','i','o','n','[',
+  COMPILER_VERSION_MAJOR,
+# ifdef COMPILER_VERSION_MINOR
+  '.', COMPILER_VERSION_MINOR,
+#  ifdef COMPILER_VERSION_PATCH
+   '.', COMPILER_VERSION_PATCH,
+#   ifdef COMPILER_VERSION_TWEAK
+    '.', COMPILER_VERSION_TWEAK,
+#   endif
+#  endif
+# endif
+  ']','\0'};
+#endif
+
+/* Construct a string literal encoding the internal version number. */
+#ifdef COMPILER_VERSION_INTERNAL
+char const info_version_internal[] = {
+  'I', 'N', 'F', 'O', ':',
+  'c','o','m','p','i','l','e','r','_','v','e','r','s','i','o','n','_',
+  'i','n','t','e','r','n','a','l','[',
+  COMPILER_VERSION_INTERNAL,']','\0'};
+#elif defined(COMPILER_VERSION_INTERNAL_STR)
+char const* info_version_internal = "INFO" ":" "compiler_version_internal[" COMPILER_VERSION_INTERNAL_STR "]";
+#endif
+
+/* Construct a string literal encoding the version number components. */
+#ifdef SIMULATE_VERSION_MAJOR
+char const info_simulate_version[] = {
+  'I', 'N', 'F', 'O', ':',
+  's','i','m','u','l','a','t','e','_','v','e','r','s','i','o','n','[',
+  SIMULATE_VERSION_MAJOR,
+# ifdef SIMULATE_VERSION_MINOR
+  '.', SIMULATE_VERSION_MINOR,
+#  ifdef SIMULATE_VERSION_PATCH
+   '.', SIMULATE_VERSION_PATCH,
+#   ifdef SIMULATE_VERSION_TWEAK
+    '.', SIMULATE_VERSION_TWEAK,
+#   endif
+#  endif
+# endif
+  ']','\0'};
+#endif
+
+/* Construct the string literal in pieces to prevent the source from
+   getting matched.  Store it in a pointer rather than an array
+   because some compilers will just produce instructions to fill the
+   array rather than assigning a pointer to a static array.  */
+char const* info_platform = "INFO" ":" "platform[" PLATFORM_ID "]";
+char const* info_arch = "INFO" ":" "arch[" ARCHITECTURE_ID "]";
+
+
+
+#if !defined(__STDC__) && !defined(__clang__)
+# if defined(_MSC_VER) || defined(__ibmxl__) || defined(__IBMC__)
+#  define C_VERSION "90"
+# else
+#  define C_VERSION
+# endif
+#elif __STDC_VERSION__ > 201710L
+# define C_VERSION "23"
+#elif __STDC_VERSION__ >= 201710L
+# define C_VERSION "17"
+#elif __STDC_VERSION__ >= 201000L
+# define C_VERSION "11"
+#elif __STDC_VERSION__ >= 199901L
+# define C_VERSION "99"
+#else
+# define C_VERSION "90"
+#endif
+const char* info_language_standard_default =
+  "INFO" ":" "standard_default[" C_VERSION "]";
+
+const char* info_language_extensions_default = "INFO" ":" "extensions_default["
+#if (defined(__clang__) || defined(__GNUC__) || defined(__xlC__) ||           \
+     defined(__TI_COMPILER_VERSION__)) &&                                     \
+  !defined(__STRICT_ANSI__)
+  "ON"
+#else
+  "OFF"
+#endif
+"]";
+
+/*--------------------------------------------------------------------------*/
+
+#ifdef ID_VOID_MAIN
+void main() {}
+#else
+# if defined(__CLASSIC_C__)
+int main(argc, argv) int argc; char *argv[];
+# else
+int main(int argc, char* argv[])
+# endif
+{
+  int require = 0;
+  require += info_compiler[argc];
+  require += info_platform[argc];
+  require += info_arch[argc];
+#ifdef COMPILER_VERSION_MAJOR
+  require += info_version[argc];
+#endif
+#ifdef COMPILER_VERSION_INTERNAL
+  require += info_version_internal[argc];
+#endif
+#ifdef SIMULATE_ID
+  require += info_simulate[argc];
+#endif
+#ifdef SIMULATE_VERSION_MAJOR
+  require += info_simulate_version[argc];
+#endif
+#if defined(__CRAYXT_COMPUTE_LINUX_TARGET)
+  require += info_cray[argc];
+#endif
+  require += info_language_standard_default[argc];
+  require += info_language_extensions_default[argc];
+  (void)argv;
+  return require;
+}
+#endif
diff --git a/b/CMakeFiles/3.28.3/CompilerIdC/a.out b/b/CMakeFiles/3.28.3/CompilerIdC/a.out
new file mode 100755
index 0000000000000000000000000000000000000000..f1ada888b26eb7e10c09f9d3c051a0bbc662377d
GIT binary patch
literal 16088
zcmeHOZ)_Y#6`#8#jYE^zaU1L=r8!E15?XI;$8p`DB$wFdtdX6B!~vl+tk%A@@5KEv
zcYDOHpai9qm^4xg2>Jn}szOx!i3AcVA|HyQR)Lm+8VRYPpHfIskV5MUs7#4+yf^cH
z>+^CB672^h_F3LH@Av-9?3>xW+1;5hrUv`tv6uoaQM(jN$tHs&Me)RaQXrO8J!%yl
zKcMbZw~)M4V@97ejI@R>#TW7h!Iuzczg8~P;ddICYA}QrGH1WVD8mgR0#|Y#?6-^+
zB8T~FQUN&hL465!CQ9gIz#kPq@LE4^%50mlpWV5T+me@q!r{lFJ_XCzQ+F5=J|p#k
zBcGfT{_l}|hIzY$0T26S#4pVI#1EY7U^@J|pZ;&^J1BlHC3F}S=Jy&{fup{Ulb>|0
zSlpbUn-58Si}gd3<R4tptG4E{Bi&tFbLqBRwosXDo9yXs>+Z73MXOU+%<W3hKaZ(>
z`;RCJGsBpqQN>Rf8Sz+myXe_|>#nos?s#qb)mKY@I)3u4mP;$IKYxX7xZUi-HcT83
zLxg26bDeBs^6@1q$=D`-(fe&)1B)Ekuepw{m#{<~+*t%KEP~%g_}z8lD953Ujyh%E
zE%{E~%@zn5ophbCY{AWCAM_NfIltX%-{8RBUZ>OQw6+K3ZC%P47#?!cUdbEJmVK`@
zJk*;j7QA71B<E4A@qDo$(H&!2*N`(9(|@L?VkC2WF<vU`vMV_2JpLH_>Eqv|G{@<V
zX9(9ZuAjsjgU`wJ4g9hMY)BeCaL7#|JdrSVts%T5cp`*<Mexlb{Of|Zhw!t4U)rrS
z@z~+90J>a*^B4nNt-&$2SvOmQ^SA}g)!_Pm3q{1E3`7}-G7x1T%0QHXC<9Rj{wFf<
z*T%cvu}@xWuum`h{Z^&yFVFb#>dW@Y=Nq2W?W=Bois0&|@6xexLsGGQb<?vXjWurQ
zQ(Er$%fR%-PutUfuuoo@Jvf}|nCW=IKC|;h3Q%2JCey!-S&bVW*6|2GPl$bH**RwS
z&-rVq>Q8W)s$NmO+_>Qc8$KtT>>t<m+rP?e%ME*a);|BnZu|V)5<7OmzIemGodRr<
z01eg4rd{yo_MX@|L~2#J=ZJlBXPk@n^y~gg`}EFRNVvMCTCHA9)8T>+6FWw}LH+Fi
z=i{X0!V&VD{=zkTx^nrKsq5TK`}Eou=}G-`>YDw89ecU)8P)jgOe}Ss@N<jcKd6VB
z0B6>oT}^3zW@%Fp<>7kP6y2|fpH5vrM%~6u)qNWDA~!XnC<9Rjq6|bCh%yjmAj&|L
zfhYq}2BHi^8TfzB0Du3w84c|3Kd@u8n4iezywXwnDtT<7^#Z-~Ij>aC77It)HFa#W
zOrbp}v>#L2V<PAJW5rVb=pcVx70@k>W{ygkz7rPGZYfP4{Kni$&Oh35pJ=>E-z#t}
z<v@2}ziw4*{gRJvrsnbYsNpxO)dz^DiSwHWpE$j)P{(Gg)o&B$Z?R0V2M?*(WK(SY
z%H<7@(FZZcdCkFQvi~p}^exw4@-|Yji~eWds8%(wx~YG4>&F^zJ>GCa?Ou2PN49O`
z&xqQe>%9a!28lSPPyausxZh_WwYuq%c<-uP;!je|3`7)VAj&|LfhYq}2BHi^8Hh3v
zWgyBxl!5m)16Z$!^@&&ms2^Uas+Fit)-SFS`FFC;@eYx(4syN7c!XIeGS)-#a}N{r
zf4@;JvixINOo%mt8GdLZ;&q8kmqh<QBdSxvZx!Aue64UWaZ@w04sp3C+NC12qeo7h
z7JF(!yt_n(-9M|Qy=1PT8zP&<<n)1iUavjr@lv1Ptenq3L`FOb|K2gI4}X^tu`V@{
zFoCe{6zfc}t`zG?_x1MfNNhebQYrYA1U=}}6MkEFMT?yeb#__pT~@~yQQWL)+zm_B
zTh*`)_e+d4k4lFo#DLcq*R$t-i>uXYLdLC_tAyZBhVX5I<2r!-02N}YRrMqd!tG<?
z)z~q5y2rTIARRtW|6DJwE8wT75L34)TqnSvrb4~;FLqw%bev{&>Vt?d&+EncmA0p=
zA~Y^8YPU7PdV55<qV3-wTra@ip+Yl+8s0()Nz}+F?$vmUQb{0&ZzH@(wFLQub_e0j
z@kWLF3h<=ZhvN+C_^_Ji4-md4-l8ymp~*5%HLHX{<Z@J#8gEgpNrU6Md_?f@y6LA0
zZ=&&#6no>PR6pU()bB|dSNdHMDSsq!n#3OQ&q*ANE5x}Vakj|)Rlge|<*zvoombfY
z6^Xw&6#s3)69`(vd0)fbH8P6#5Z)Z8yJ_gU=pdZ)mP{DSPI1_!@fMXx8UW{|4v&`n
z4y#Bj@ZFKD<GbUEfU;j18?#2${Azv2&pV^MUcXG1>7p~9D~`B1C+!zYWyh^dDt^b9
z^L#IDwb!@codQ|MEtT9U$1C`yDK%Dd^PZEg<nvSHQX@HJ=`S$t9dbY8_4dkp%z-qu
z&2jn<?HNirsr`Kp?HK6$)c!p~1HA;(OHL<ci`MQtq?~<&2lnn6bPn|QA5INB!+Z7)
zrpP0_p&^NV3;$`af|quESLySiC@h$b3nVPu#o(mNMJGcqLV1V7zyY#KXA4fH?4?z<
zFjjQ%7S%{Ow=iCD$35rY-;gTGnE2pbE>$*CE=$F-AA`13NIG=*AYk}q>`nGpEZo!)
zq=dI}=w2~RmG{I(;McxNS>>s`?~V}nONM7q$`)w5$Aq#9Mc=c=3l(dkRGjci{!|S#
zQpwU@oorg5J$nb*cr0r3j9bnqD?L@9Dh&5aMuT=}GZ7rpmAstG4$9(@q^yaYIauRG
zD)^LOW$|z%%cAZ~%ge|B%%sU5lJPeq(RiRt!QFgzl$yh1!J@8E7IjUYMz&mW?~d`j
zjBW|R+x_r9JIu>a3)|Mxhe+VL6J7S27TZrI>R^5cxtj{L{^5OP8(}CM_h-QTJ6!9J
zc>s6<hQh=CpCtTkntP%Bm~Voke#|$6`<cXZiSt|&{+N$~KPGnEM$R4lF^|j=##0yg
zV}1*MigdLU&i`jg$#YBiV?GIvc{<t;JMf3dpXaKOF<%95m&(KKN1M)2fpZFf%%8zA
ze@6Y`^Zyq4@;N~t{LaYl4W1jwL{qr`zC&oOe?t7gMHKJ(pE2N1h5Xw^0S-F^fDHb_
zkbhDX;9m=M82k|LCn0~#bHMRj1^e*%|4jUmf0YnR;V*~?CNM<x3o3CF;s25tfZrQf
znnJk#-w<5uKPUd+-w64m{{g>31zO7*?1#iW82d28_K?B<NWP6V{+M^qwGl`JJ0s1@
zz~3YVk3D&On4b^Rx>=?f=|3L-Oz=ZLevdFVfj^!nXSTAnQb~QBKfoV+j#Rb&fkV6T
z>6v%cCHMipK?TN8Kjwiw;vcq`(}BBMLI7i89^mkoGzK{QYdOYFU_^zC1jK!iuVa2r
vKznfiTR|AwPQ`$d{1KH1`=5<u+KMuBo(|XZKgB;RL@UuyBkFUNqGtaBd6-u2

literal 0
HcmV?d00001

diff --git a/b/CMakeFiles/3.28.3/CompilerIdCXX/CMakeCXXCompilerId.cpp b/b/CMakeFiles/3.28.3/CompilerIdCXX/CMakeCXXCompilerId.cpp
new file mode 100644
index 0000000..9c9c90e
--- /dev/null
+++ b/b/CMakeFiles/3.28.3/CompilerIdCXX/CMakeCXXCompilerId.cpp
@@ -0,0 +1,869 @@
+/* This source file must have a .cpp extension so that all C++ compilers
+   recognize the extension without flags.  Borland does not know .cxx for
+   example.  */
+#ifndef __cplusplus
+# error "A C compiler has been selected for C++."
+#endif
+
+#if !defined(__has_include)
+/* If the compiler does not have __has_include, pretend the answer is
+   always no.  */
+#  define __has_include(x) 0
+#endif
+
+
+/* Version number components: V=Version, R=Revision, P=Patch
+   Version date components:   YYYY=Year, MM=Month,   DD=Day  */
+
+#if defined(__COMO__)
+# define COMPILER_ID "Comeau"
+  /* __COMO_VERSION__ = VRR */
+# define COMPILER_VERSION_MAJOR DEC(__COMO_VERSION__ / 100)
+# define COMPILER_VERSION_MINOR DEC(__COMO_VERSION__ % 100)
+
+#elif defined(__INTEL_COMPILER) || defined(__ICC)
+# define COMPILER_ID "Intel"
+# if defined(_MSC_VER)
+#  define SIMULATE_ID "MSVC"
+# endif
+# if defined(__GNUC__)
+#  define SIMULATE_ID "GNU"
+# endif
+  /* __INTEL_COMPILER = VRP prior to 2021, and then VVVV for 2021 and later,
+     except that a few beta releases use the old format with V=2021.  */
+# if __INTEL_COMPILER < 2021 || __INTEL_COMPILER == 202110 || __INTEL_COMPILER == 202111
+#  define COMPILER_VERSION_MAJOR DEC(__INTEL_COMPILER/100)
+#  define COMPILER_VERSION_MINOR DEC(__INTEL_COMPILER/10 % 10)
+#  if defined(__INTEL_COMPILER_UPDATE)
+#   define COMPILER_VERSION_PATCH DEC(__INTEL_COMPILER_UPDATE)
+#  else
+#   define COMPILER_VERSION_PATCH DEC(__INTEL_COMPILER   % 10)
+#  endif
+# else
+#  define COMPILER_VERSION_MAJOR DEC(__INTEL_COMPILER)
+#  define COMPILER_VERSION_MINOR DEC(__INTEL_COMPILER_UPDATE)
+   /* The third version component from --version is an update index,
+      but no macro is provided for it.  */
+#  define COMPILER_VERSION_PATCH DEC(0)
+# endif
+# if defined(__INTEL_COMPILER_BUILD_DATE)
+   /* __INTEL_COMPILER_BUILD_DATE = YYYYMMDD */
+#  define COMPILER_VERSION_TWEAK DEC(__INTEL_COMPILER_BUILD_DATE)
+# endif
+# if defined(_MSC_VER)
+   /* _MSC_VER = VVRR */
+#  define SIMULATE_VERSION_MAJOR DEC(_MSC_VER / 100)
+#  define SIMULATE_VERSION_MINOR DEC(_MSC_VER % 100)
+# endif
+# if defined(__GNUC__)
+#  define SIMULATE_VERSION_MAJOR DEC(__GNUC__)
+# elif defined(__GNUG__)
+#  define SIMULATE_VERSION_MAJOR DEC(__GNUG__)
+# endif
+# if defined(__GNUC_MINOR__)
+#  define SIMULATE_VERSION_MINOR DEC(__GNUC_MINOR__)
+# endif
+# if defined(__GNUC_PATCHLEVEL__)
+#  define SIMULATE_VERSION_PATCH DEC(__GNUC_PATCHLEVEL__)
+# endif
+
+#elif (defined(__clang__) && defined(__INTEL_CLANG_COMPILER)) || defined(__INTEL_LLVM_COMPILER)
+# define COMPILER_ID "IntelLLVM"
+#if defined(_MSC_VER)
+# define SIMULATE_ID "MSVC"
+#endif
+#if defined(__GNUC__)
+# define SIMULATE_ID "GNU"
+#endif
+/* __INTEL_LLVM_COMPILER = VVVVRP prior to 2021.2.0, VVVVRRPP for 2021.2.0 and
+ * later.  Look for 6 digit vs. 8 digit version number to decide encoding.
+ * VVVV is no smaller than the current year when a version is released.
+ */
+#if __INTEL_LLVM_COMPILER < 1000000L
+# define COMPILER_VERSION_MAJOR DEC(__INTEL_LLVM_COMPILER/100)
+# define COMPILER_VERSION_MINOR DEC(__INTEL_LLVM_COMPILER/10 % 10)
+# define COMPILER_VERSION_PATCH DEC(__INTEL_LLVM_COMPILER    % 10)
+#else
+# define COMPILER_VERSION_MAJOR DEC(__INTEL_LLVM_COMPILER/10000)
+# define COMPILER_VERSION_MINOR DEC(__INTEL_LLVM_COMPILER/100 % 100)
+# define COMPILER_VERSION_PATCH DEC(__INTEL_LLVM_COMPILER     % 100)
+#endif
+#if defined(_MSC_VER)
+  /* _MSC_VER = VVRR */
+# define SIMULATE_VERSION_MAJOR DEC(_MSC_VER / 100)
+# define SIMULATE_VERSION_MINOR DEC(_MSC_VER % 100)
+#endif
+#if defined(__GNUC__)
+# define SIMULATE_VERSION_MAJOR DEC(__GNUC__)
+#elif defined(__GNUG__)
+# define SIMULATE_VERSION_MAJOR DEC(__GNUG__)
+#endif
+#if defined(__GNUC_MINOR__)
+# define SIMULATE_VERSION_MINOR DEC(__GNUC_MINOR__)
+#endif
+#if defined(__GNUC_PATCHLEVEL__)
+# define SIMULATE_VERSION_PATCH DEC(__GNUC_PATCHLEVEL__)
+#endif
+
+#elif defined(__PATHCC__)
+# define COMPILER_ID "PathScale"
+# define COMPILER_VERSION_MAJOR DEC(__PATHCC__)
+# define COMPILER_VERSION_MINOR DEC(__PATHCC_MINOR__)
+# if defined(__PATHCC_PATCHLEVEL__)
+#  define COMPILER_VERSION_PATCH DEC(__PATHCC_PATCHLEVEL__)
+# endif
+
+#elif defined(__BORLANDC__) && defined(__CODEGEARC_VERSION__)
+# define COMPILER_ID "Embarcadero"
+# define COMPILER_VERSION_MAJOR HEX(__CODEGEARC_VERSION__>>24 & 0x00FF)
+# define COMPILER_VERSION_MINOR HEX(__CODEGEARC_VERSION__>>16 & 0x00FF)
+# define COMPILER_VERSION_PATCH DEC(__CODEGEARC_VERSION__     & 0xFFFF)
+
+#elif defined(__BORLANDC__)
+# define COMPILER_ID "Borland"
+  /* __BORLANDC__ = 0xVRR */
+# define COMPILER_VERSION_MAJOR HEX(__BORLANDC__>>8)
+# define COMPILER_VERSION_MINOR HEX(__BORLANDC__ & 0xFF)
+
+#elif defined(__WATCOMC__) && __WATCOMC__ < 1200
+# define COMPILER_ID "Watcom"
+   /* __WATCOMC__ = VVRR */
+# define COMPILER_VERSION_MAJOR DEC(__WATCOMC__ / 100)
+# define COMPILER_VERSION_MINOR DEC((__WATCOMC__ / 10) % 10)
+# if (__WATCOMC__ % 10) > 0
+#  define COMPILER_VERSION_PATCH DEC(__WATCOMC__ % 10)
+# endif
+
+#elif defined(__WATCOMC__)
+# define COMPILER_ID "OpenWatcom"
+   /* __WATCOMC__ = VVRP + 1100 */
+# define COMPILER_VERSION_MAJOR DEC((__WATCOMC__ - 1100) / 100)
+# define COMPILER_VERSION_MINOR DEC((__WATCOMC__ / 10) % 10)
+# if (__WATCOMC__ % 10) > 0
+#  define COMPILER_VERSION_PATCH DEC(__WATCOMC__ % 10)
+# endif
+
+#elif defined(__SUNPRO_CC)
+# define COMPILER_ID "SunPro"
+# if __SUNPRO_CC >= 0x5100
+   /* __SUNPRO_CC = 0xVRRP */
+#  define COMPILER_VERSION_MAJOR HEX(__SUNPRO_CC>>12)
+#  define COMPILER_VERSION_MINOR HEX(__SUNPRO_CC>>4 & 0xFF)
+#  define COMPILER_VERSION_PATCH HEX(__SUNPRO_CC    & 0xF)
+# else
+   /* __SUNPRO_CC = 0xVRP */
+#  define COMPILER_VERSION_MAJOR HEX(__SUNPRO_CC>>8)
+#  define COMPILER_VERSION_MINOR HEX(__SUNPRO_CC>>4 & 0xF)
+#  define COMPILER_VERSION_PATCH HEX(__SUNPRO_CC    & 0xF)
+# endif
+
+#elif defined(__HP_aCC)
+# define COMPILER_ID "HP"
+  /* __HP_aCC = VVRRPP */
+# define COMPILER_VERSION_MAJOR DEC(__HP_aCC/10000)
+# define COMPILER_VERSION_MINOR DEC(__HP_aCC/100 % 100)
+# define COMPILER_VERSION_PATCH DEC(__HP_aCC     % 100)
+
+#elif defined(__DECCXX)
+# define COMPILER_ID "Compaq"
+  /* __DECCXX_VER = VVRRTPPPP */
+# define COMPILER_VERSION_MAJOR DEC(__DECCXX_VER/10000000)
+# define COMPILER_VERSION_MINOR DEC(__DECCXX_VER/100000  % 100)
+# define COMPILER_VERSION_PATCH DEC(__DECCXX_VER         % 10000)
+
+#elif defined(__IBMCPP__) && defined(__COMPILER_VER__)
+# define COMPILER_ID "zOS"
+  /* __IBMCPP__ = VRP */
+# define COMPILER_VERSION_MAJOR DEC(__IBMCPP__/100)
+# define COMPILER_VERSION_MINOR DEC(__IBMCPP__/10 % 10)
+# define COMPILER_VERSION_PATCH DEC(__IBMCPP__    % 10)
+
+#elif defined(__open_xl__) && defined(__clang__)
+# define COMPILER_ID "IBMClang"
+# define COMPILER_VERSION_MAJOR DEC(__open_xl_version__)
+# define COMPILER_VERSION_MINOR DEC(__open_xl_release__)
+# define COMPILER_VERSION_PATCH DEC(__open_xl_modification__)
+# define COMPILER_VERSION_TWEAK DEC(__open_xl_ptf_fix_level__)
+
+
+#elif defined(__ibmxl__) && defined(__clang__)
+# define COMPILER_ID "XLClang"
+# define COMPILER_VERSION_MAJOR DEC(__ibmxl_version__)
+# define COMPILER_VERSION_MINOR DEC(__ibmxl_release__)
+# define COMPILER_VERSION_PATCH DEC(__ibmxl_modification__)
+# define COMPILER_VERSION_TWEAK DEC(__ibmxl_ptf_fix_level__)
+
+
+#elif defined(__IBMCPP__) && !defined(__COMPILER_VER__) && __IBMCPP__ >= 800
+# define COMPILER_ID "XL"
+  /* __IBMCPP__ = VRP */
+# define COMPILER_VERSION_MAJOR DEC(__IBMCPP__/100)
+# define COMPILER_VERSION_MINOR DEC(__IBMCPP__/10 % 10)
+# define COMPILER_VERSION_PATCH DEC(__IBMCPP__    % 10)
+
+#elif defined(__IBMCPP__) && !defined(__COMPILER_VER__) && __IBMCPP__ < 800
+# define COMPILER_ID "VisualAge"
+  /* __IBMCPP__ = VRP */
+# define COMPILER_VERSION_MAJOR DEC(__IBMCPP__/100)
+# define COMPILER_VERSION_MINOR DEC(__IBMCPP__/10 % 10)
+# define COMPILER_VERSION_PATCH DEC(__IBMCPP__    % 10)
+
+#elif defined(__NVCOMPILER)
+# define COMPILER_ID "NVHPC"
+# define COMPILER_VERSION_MAJOR DEC(__NVCOMPILER_MAJOR__)
+# define COMPILER_VERSION_MINOR DEC(__NVCOMPILER_MINOR__)
+# if defined(__NVCOMPILER_PATCHLEVEL__)
+#  define COMPILER_VERSION_PATCH DEC(__NVCOMPILER_PATCHLEVEL__)
+# endif
+
+#elif defined(__PGI)
+# define COMPILER_ID "PGI"
+# define COMPILER_VERSION_MAJOR DEC(__PGIC__)
+# define COMPILER_VERSION_MINOR DEC(__PGIC_MINOR__)
+# if defined(__PGIC_PATCHLEVEL__)
+#  define COMPILER_VERSION_PATCH DEC(__PGIC_PATCHLEVEL__)
+# endif
+
+#elif defined(__clang__) && defined(__cray__)
+# define COMPILER_ID "CrayClang"
+# define COMPILER_VERSION_MAJOR DEC(__cray_major__)
+# define COMPILER_VERSION_MINOR DEC(__cray_minor__)
+# define COMPILER_VERSION_PATCH DEC(__cray_patchlevel__)
+# define COMPILER_VERSION_INTERNAL_STR __clang_version__
+
+
+#elif defined(_CRAYC)
+# define COMPILER_ID "Cray"
+# define COMPILER_VERSION_MAJOR DEC(_RELEASE_MAJOR)
+# define COMPILER_VERSION_MINOR DEC(_RELEASE_MINOR)
+
+#elif defined(__TI_COMPILER_VERSION__)
+# define COMPILER_ID "TI"
+  /* __TI_COMPILER_VERSION__ = VVVRRRPPP */
+# define COMPILER_VERSION_MAJOR DEC(__TI_COMPILER_VERSION__/1000000)
+# define COMPILER_VERSION_MINOR DEC(__TI_COMPILER_VERSION__/1000   % 1000)
+# define COMPILER_VERSION_PATCH DEC(__TI_COMPILER_VERSION__        % 1000)
+
+#elif defined(__CLANG_FUJITSU)
+# define COMPILER_ID "FujitsuClang"
+# define COMPILER_VERSION_MAJOR DEC(__FCC_major__)
+# define COMPILER_VERSION_MINOR DEC(__FCC_minor__)
+# define COMPILER_VERSION_PATCH DEC(__FCC_patchlevel__)
+# define COMPILER_VERSION_INTERNAL_STR __clang_version__
+
+
+#elif defined(__FUJITSU)
+# define COMPILER_ID "Fujitsu"
+# if defined(__FCC_version__)
+#   define COMPILER_VERSION __FCC_version__
+# elif defined(__FCC_major__)
+#   define COMPILER_VERSION_MAJOR DEC(__FCC_major__)
+#   define COMPILER_VERSION_MINOR DEC(__FCC_minor__)
+#   define COMPILER_VERSION_PATCH DEC(__FCC_patchlevel__)
+# endif
+# if defined(__fcc_version)
+#   define COMPILER_VERSION_INTERNAL DEC(__fcc_version)
+# elif defined(__FCC_VERSION)
+#   define COMPILER_VERSION_INTERNAL DEC(__FCC_VERSION)
+# endif
+
+
+#elif defined(__ghs__)
+# define COMPILER_ID "GHS"
+/* __GHS_VERSION_NUMBER = VVVVRP */
+# ifdef __GHS_VERSION_NUMBER
+# define COMPILER_VERSION_MAJOR DEC(__GHS_VERSION_NUMBER / 100)
+# define COMPILER_VERSION_MINOR DEC(__GHS_VERSION_NUMBER / 10 % 10)
+# define COMPILER_VERSION_PATCH DEC(__GHS_VERSION_NUMBER      % 10)
+# endif
+
+#elif defined(__TASKING__)
+# define COMPILER_ID "Tasking"
+  # define COMPILER_VERSION_MAJOR DEC(__VERSION__/1000)
+  # define COMPILER_VERSION_MINOR DEC(__VERSION__ % 100)
+# define COMPILER_VERSION_INTERNAL DEC(__VERSION__)
+
+#elif defined(__ORANGEC__)
+# define COMPILER_ID "OrangeC"
+# define COMPILER_VERSION_MAJOR DEC(__ORANGEC_MAJOR__)
+# define COMPILER_VERSION_MINOR DEC(__ORANGEC_MINOR__)
+# define COMPILER_VERSION_PATCH DEC(__ORANGEC_PATCHLEVEL__)
+
+#elif defined(__SCO_VERSION__)
+# define COMPILER_ID "SCO"
+
+#elif defined(__ARMCC_VERSION) && !defined(__clang__)
+# define COMPILER_ID "ARMCC"
+#if __ARMCC_VERSION >= 1000000
+  /* __ARMCC_VERSION = VRRPPPP */
+  # define COMPILER_VERSION_MAJOR DEC(__ARMCC_VERSION/1000000)
+  # define COMPILER_VERSION_MINOR DEC(__ARMCC_VERSION/10000 % 100)
+  # define COMPILER_VERSION_PATCH DEC(__ARMCC_VERSION     % 10000)
+#else
+  /* __ARMCC_VERSION = VRPPPP */
+  # define COMPILER_VERSION_MAJOR DEC(__ARMCC_VERSION/100000)
+  # define COMPILER_VERSION_MINOR DEC(__ARMCC_VERSION/10000 % 10)
+  # define COMPILER_VERSION_PATCH DEC(__ARMCC_VERSION    % 10000)
+#endif
+
+
+#elif defined(__clang__) && defined(__apple_build_version__)
+# define COMPILER_ID "AppleClang"
+# if defined(_MSC_VER)
+#  define SIMULATE_ID "MSVC"
+# endif
+# define COMPILER_VERSION_MAJOR DEC(__clang_major__)
+# define COMPILER_VERSION_MINOR DEC(__clang_minor__)
+# define COMPILER_VERSION_PATCH DEC(__clang_patchlevel__)
+# if defined(_MSC_VER)
+   /* _MSC_VER = VVRR */
+#  define SIMULATE_VERSION_MAJOR DEC(_MSC_VER / 100)
+#  define SIMULATE_VERSION_MINOR DEC(_MSC_VER % 100)
+# endif
+# define COMPILER_VERSION_TWEAK DEC(__apple_build_version__)
+
+#elif defined(__clang__) && defined(__ARMCOMPILER_VERSION)
+# define COMPILER_ID "ARMClang"
+  # define COMPILER_VERSION_MAJOR DEC(__ARMCOMPILER_VERSION/1000000)
+  # define COMPILER_VERSION_MINOR DEC(__ARMCOMPILER_VERSION/10000 % 100)
+  # define COMPILER_VERSION_PATCH DEC(__ARMCOMPILER_VERSION/100   % 100)
+# define COMPILER_VERSION_INTERNAL DEC(__ARMCOMPILER_VERSION)
+
+#elif defined(__clang__)
+# define COMPILER_ID "Clang"
+# if defined(_MSC_VER)
+#  define SIMULATE_ID "MSVC"
+# endif
+# define COMPILER_VERSION_MAJOR DEC(__clang_major__)
+# define COMPILER_VERSION_MINOR DEC(__clang_minor__)
+# define COMPILER_VERSION_PATCH DEC(__clang_patchlevel__)
+# if defined(_MSC_VER)
+   /* _MSC_VER = VVRR */
+#  define SIMULATE_VERSION_MAJOR DEC(_MSC_VER / 100)
+#  define SIMULATE_VERSION_MINOR DEC(_MSC_VER % 100)
+# endif
+
+#elif defined(__LCC__) && (defined(__GNUC__) || defined(__GNUG__) || defined(__MCST__))
+# define COMPILER_ID "LCC"
+# define COMPILER_VERSION_MAJOR DEC(__LCC__ / 100)
+# define COMPILER_VERSION_MINOR DEC(__LCC__ % 100)
+# if defined(__LCC_MINOR__)
+#  define COMPILER_VERSION_PATCH DEC(__LCC_MINOR__)
+# endif
+# if defined(__GNUC__) && defined(__GNUC_MINOR__)
+#  define SIMULATE_ID "GNU"
+#  define SIMULATE_VERSION_MAJOR DEC(__GNUC__)
+#  define SIMULATE_VERSION_MINOR DEC(__GNUC_MINOR__)
+#  if defined(__GNUC_PATCHLEVEL__)
+#   define SIMULATE_VERSION_PATCH DEC(__GNUC_PATCHLEVEL__)
+#  endif
+# endif
+
+#elif defined(__GNUC__) || defined(__GNUG__)
+# define COMPILER_ID "GNU"
+# if defined(__GNUC__)
+#  define COMPILER_VERSION_MAJOR DEC(__GNUC__)
+# else
+#  define COMPILER_VERSION_MAJOR DEC(__GNUG__)
+# endif
+# if defined(__GNUC_MINOR__)
+#  define COMPILER_VERSION_MINOR DEC(__GNUC_MINOR__)
+# endif
+# if defined(__GNUC_PATCHLEVEL__)
+#  define COMPILER_VERSION_PATCH DEC(__GNUC_PATCHLEVEL__)
+# endif
+
+#elif defined(_MSC_VER)
+# define COMPILER_ID "MSVC"
+  /* _MSC_VER = VVRR */
+# define COMPILER_VERSION_MAJOR DEC(_MSC_VER / 100)
+# define COMPILER_VERSION_MINOR DEC(_MSC_VER % 100)
+# if defined(_MSC_FULL_VER)
+#  if _MSC_VER >= 1400
+    /* _MSC_FULL_VER = VVRRPPPPP */
+#   define COMPILER_VERSION_PATCH DEC(_MSC_FULL_VER % 100000)
+#  else
+    /* _MSC_FULL_VER = VVRRPPPP */
+#   define COMPILER_VERSION_PATCH DEC(_MSC_FULL_VER % 10000)
+#  endif
+# endif
+# if defined(_MSC_BUILD)
+#  define COMPILER_VERSION_TWEAK DEC(_MSC_BUILD)
+# endif
+
+#elif defined(_ADI_COMPILER)
+# define COMPILER_ID "ADSP"
+#if defined(__VERSIONNUM__)
+  /* __VERSIONNUM__ = 0xVVRRPPTT */
+#  define COMPILER_VERSION_MAJOR DEC(__VERSIONNUM__ >> 24 & 0xFF)
+#  define COMPILER_VERSION_MINOR DEC(__VERSIONNUM__ >> 16 & 0xFF)
+#  define COMPILER_VERSION_PATCH DEC(__VERSIONNUM__ >> 8 & 0xFF)
+#  define COMPILER_VERSION_TWEAK DEC(__VERSIONNUM__ & 0xFF)
+#endif
+
+#elif defined(__IAR_SYSTEMS_ICC__) || defined(__IAR_SYSTEMS_ICC)
+# define COMPILER_ID "IAR"
+# if defined(__VER__) && defined(__ICCARM__)
+#  define COMPILER_VERSION_MAJOR DEC((__VER__) / 1000000)
+#  define COMPILER_VERSION_MINOR DEC(((__VER__) / 1000) % 1000)
+#  define COMPILER_VERSION_PATCH DEC((__VER__) % 1000)
+#  define COMPILER_VERSION_INTERNAL DEC(__IAR_SYSTEMS_ICC__)
+# elif defined(__VER__) && (defined(__ICCAVR__) || defined(__ICCRX__) || defined(__ICCRH850__) || defined(__ICCRL78__) || defined(__ICC430__) || defined(__ICCRISCV__) || defined(__ICCV850__) || defined(__ICC8051__) || defined(__ICCSTM8__))
+#  define COMPILER_VERSION_MAJOR DEC((__VER__) / 100)
+#  define COMPILER_VERSION_MINOR DEC((__VER__) - (((__VER__) / 100)*100))
+#  define COMPILER_VERSION_PATCH DEC(__SUBVERSION__)
+#  define COMPILER_VERSION_INTERNAL DEC(__IAR_SYSTEMS_ICC__)
+# endif
+
+
+/* These compilers are either not known or too old to define an
+  identification macro.  Try to identify the platform and guess that
+  it is the native compiler.  */
+#elif defined(__hpux) || defined(__hpua)
+# define COMPILER_ID "HP"
+
+#else /* unknown compiler */
+# define COMPILER_ID ""
+#endif
+
+/* Construct the string literal in pieces to prevent the source from
+   getting matched.  Store it in a pointer rather than an array
+   because some compilers will just produce instructions to fill the
+   array rather than assigning a pointer to a static array.  */
+char const* info_compiler = "INFO" ":" "compiler[" COMPILER_ID "]";
+#ifdef SIMULATE_ID
+char const* info_simulate = "INFO" ":" "simulate[" SIMULATE_ID "]";
+#endif
+
+#ifdef __QNXNTO__
+char const* qnxnto = "INFO" ":" "qnxnto[]";
+#endif
+
+#if defined(__CRAYXT_COMPUTE_LINUX_TARGET)
+char const *info_cray = "INFO" ":" "compiler_wrapper[CrayPrgEnv]";
+#endif
+
+#define STRINGIFY_HELPER(X) #X
+#define STRINGIFY(X) STRINGIFY_HELPER(X)
+
+/* Identify known platforms by name.  */
+#if defined(__linux) || defined(__linux__) || defined(linux)
+# define PLATFORM_ID "Linux"
+
+#elif defined(__MSYS__)
+# define PLATFORM_ID "MSYS"
+
+#elif defined(__CYGWIN__)
+# define PLATFORM_ID "Cygwin"
+
+#elif defined(__MINGW32__)
+# define PLATFORM_ID "MinGW"
+
+#elif defined(__APPLE__)
+# define PLATFORM_ID "Darwin"
+
+#elif defined(_WIN32) || defined(__WIN32__) || defined(WIN32)
+# define PLATFORM_ID "Windows"
+
+#elif defined(__FreeBSD__) || defined(__FreeBSD)
+# define PLATFORM_ID "FreeBSD"
+
+#elif defined(__NetBSD__) || defined(__NetBSD)
+# define PLATFORM_ID "NetBSD"
+
+#elif defined(__OpenBSD__) || defined(__OPENBSD)
+# define PLATFORM_ID "OpenBSD"
+
+#elif defined(__sun) || defined(sun)
+# define PLATFORM_ID "SunOS"
+
+#elif defined(_AIX) || defined(__AIX) || defined(__AIX__) || defined(__aix) || defined(__aix__)
+# define PLATFORM_ID "AIX"
+
+#elif defined(__hpux) || defined(__hpux__)
+# define PLATFORM_ID "HP-UX"
+
+#elif defined(__HAIKU__)
+# define PLATFORM_ID "Haiku"
+
+#elif defined(__BeOS) || defined(__BEOS__) || defined(_BEOS)
+# define PLATFORM_ID "BeOS"
+
+#elif defined(__QNX__) || defined(__QNXNTO__)
+# define PLATFORM_ID "QNX"
+
+#elif defined(__tru64) || defined(_tru64) || defined(__TRU64__)
+# define PLATFORM_ID "Tru64"
+
+#elif defined(__riscos) || defined(__riscos__)
+# define PLATFORM_ID "RISCos"
+
+#elif defined(__sinix) || defined(__sinix__) || defined(__SINIX__)
+# define PLATFORM_ID "SINIX"
+
+#elif defined(__UNIX_SV__)
+# define PLATFORM_ID "UNIX_SV"
+
+#elif defined(__bsdos__)
+# define PLATFORM_ID "BSDOS"
+
+#elif defined(_MPRAS) || defined(MPRAS)
+# define PLATFORM_ID "MP-RAS"
+
+#elif defined(__osf) || defined(__osf__)
+# define PLATFORM_ID "OSF1"
+
+#elif defined(_SCO_SV) || defined(SCO_SV) || defined(sco_sv)
+# define PLATFORM_ID "SCO_SV"
+
+#elif defined(__ultrix) || defined(__ultrix__) || defined(_ULTRIX)
+# define PLATFORM_ID "ULTRIX"
+
+#elif defined(__XENIX__) || defined(_XENIX) || defined(XENIX)
+# define PLATFORM_ID "Xenix"
+
+#elif defined(__WATCOMC__)
+# if defined(__LINUX__)
+#  define PLATFORM_ID "Linux"
+
+# elif defined(__DOS__)
+#  define PLATFORM_ID "DOS"
+
+# elif defined(__OS2__)
+#  define PLATFORM_ID "OS2"
+
+# elif defined(__WINDOWS__)
+#  define PLATFORM_ID "Windows3x"
+
+# elif defined(__VXWORKS__)
+#  define PLATFORM_ID "VxWorks"
+
+# else /* unknown platform */
+#  define PLATFORM_ID
+# endif
+
+#elif defined(__INTEGRITY)
+# if defined(INT_178B)
+#  define PLATFORM_ID "Integrity178"
+
+# else /* regular Integrity */
+#  define PLATFORM_ID "Integrity"
+# endif
+
+# elif defined(_ADI_COMPILER)
+#  define PLATFORM_ID "ADSP"
+
+#else /* unknown platform */
+# define PLATFORM_ID
+
+#endif
+
+/* For windows compilers MSVC and Intel we can determine
+   the architecture of the compiler being used.  This is because
+   the compilers do not have flags that can change the architecture,
+   but rather depend on which compiler is being used
+*/
+#if defined(_WIN32) && defined(_MSC_VER)
+# if defined(_M_IA64)
+#  define ARCHITECTURE_ID "IA64"
+
+# elif defined(_M_ARM64EC)
+#  define ARCHITECTURE_ID "ARM64EC"
+
+# elif defined(_M_X64) || defined(_M_AMD64)
+#  define ARCHITECTURE_ID "x64"
+
+# elif defined(_M_IX86)
+#  define ARCHITECTURE_ID "X86"
+
+# elif defined(_M_ARM64)
+#  define ARCHITECTURE_ID "ARM64"
+
+# elif defined(_M_ARM)
+#  if _M_ARM == 4
+#   define ARCHITECTURE_ID "ARMV4I"
+#  elif _M_ARM == 5
+#   define ARCHITECTURE_ID "ARMV5I"
+#  else
+#   define ARCHITECTURE_ID "ARMV" STRINGIFY(_M_ARM)
+#  endif
+
+# elif defined(_M_MIPS)
+#  define ARCHITECTURE_ID "MIPS"
+
+# elif defined(_M_SH)
+#  define ARCHITECTURE_ID "SHx"
+
+# else /* unknown architecture */
+#  define ARCHITECTURE_ID ""
+# endif
+
+#elif defined(__WATCOMC__)
+# if defined(_M_I86)
+#  define ARCHITECTURE_ID "I86"
+
+# elif defined(_M_IX86)
+#  define ARCHITECTURE_ID "X86"
+
+# else /* unknown architecture */
+#  define ARCHITECTURE_ID ""
+# endif
+
+#elif defined(__IAR_SYSTEMS_ICC__) || defined(__IAR_SYSTEMS_ICC)
+# if defined(__ICCARM__)
+#  define ARCHITECTURE_ID "ARM"
+
+# elif defined(__ICCRX__)
+#  define ARCHITECTURE_ID "RX"
+
+# elif defined(__ICCRH850__)
+#  define ARCHITECTURE_ID "RH850"
+
+# elif defined(__ICCRL78__)
+#  define ARCHITECTURE_ID "RL78"
+
+# elif defined(__ICCRISCV__)
+#  define ARCHITECTURE_ID "RISCV"
+
+# elif defined(__ICCAVR__)
+#  define ARCHITECTURE_ID "AVR"
+
+# elif defined(__ICC430__)
+#  define ARCHITECTURE_ID "MSP430"
+
+# elif defined(__ICCV850__)
+#  define ARCHITECTURE_ID "V850"
+
+# elif defined(__ICC8051__)
+#  define ARCHITECTURE_ID "8051"
+
+# elif defined(__ICCSTM8__)
+#  define ARCHITECTURE_ID "STM8"
+
+# else /* unknown architecture */
+#  define ARCHITECTURE_ID ""
+# endif
+
+#elif defined(__ghs__)
+# if defined(__PPC64__)
+#  define ARCHITECTURE_ID "PPC64"
+
+# elif defined(__ppc__)
+#  define ARCHITECTURE_ID "PPC"
+
+# elif defined(__ARM__)
+#  define ARCHITECTURE_ID "ARM"
+
+# elif defined(__x86_64__)
+#  define ARCHITECTURE_ID "x64"
+
+# elif defined(__i386__)
+#  define ARCHITECTURE_ID "X86"
+
+# else /* unknown architecture */
+#  define ARCHITECTURE_ID ""
+# endif
+
+#elif defined(__TI_COMPILER_VERSION__)
+# if defined(__TI_ARM__)
+#  define ARCHITECTURE_ID "ARM"
+
+# elif defined(__MSP430__)
+#  define ARCHITECTURE_ID "MSP430"
+
+# elif defined(__TMS320C28XX__)
+#  define ARCHITECTURE_ID "TMS320C28x"
+
+# elif defined(__TMS320C6X__) || defined(_TMS320C6X)
+#  define ARCHITECTURE_ID "TMS320C6x"
+
+# else /* unknown architecture */
+#  define ARCHITECTURE_ID ""
+# endif
+
+# elif defined(__ADSPSHARC__)
+#  define ARCHITECTURE_ID "SHARC"
+
+# elif defined(__ADSPBLACKFIN__)
+#  define ARCHITECTURE_ID "Blackfin"
+
+#elif defined(__TASKING__)
+
+# if defined(__CTC__) || defined(__CPTC__)
+#  define ARCHITECTURE_ID "TriCore"
+
+# elif defined(__CMCS__)
+#  define ARCHITECTURE_ID "MCS"
+
+# elif defined(__CARM__)
+#  define ARCHITECTURE_ID "ARM"
+
+# elif defined(__CARC__)
+#  define ARCHITECTURE_ID "ARC"
+
+# elif defined(__C51__)
+#  define ARCHITECTURE_ID "8051"
+
+# elif defined(__CPCP__)
+#  define ARCHITECTURE_ID "PCP"
+
+# else
+#  define ARCHITECTURE_ID ""
+# endif
+
+#else
+#  define ARCHITECTURE_ID
+#endif
+
+/* Convert integer to decimal digit literals.  */
+#define DEC(n)                   \
+  ('0' + (((n) / 10000000)%10)), \
+  ('0' + (((n) / 1000000)%10)),  \
+  ('0' + (((n) / 100000)%10)),   \
+  ('0' + (((n) / 10000)%10)),    \
+  ('0' + (((n) / 1000)%10)),     \
+  ('0' + (((n) / 100)%10)),      \
+  ('0' + (((n) / 10)%10)),       \
+  ('0' +  ((n) % 10))
+
+/* Convert integer to hex digit literals.  */
+#define HEX(n)             \
+  ('0' + ((n)>>28 & 0xF)), \
+  ('0' + ((n)>>24 & 0xF)), \
+  ('0' + ((n)>>20 & 0xF)), \
+  ('0' + ((n)>>16 & 0xF)), \
+  ('0' + ((n)>>12 & 0xF)), \
+  ('0' + ((n)>>8  & 0xF)), \
+  ('0' + ((n)>>4  & 0xF)), \
+  ('0' + ((n)     & 0xF))
+
+/* Construct a string literal encoding the version number. */
+#ifdef COMPILER_VERSION
+char const* info_version = "INFO" ":" "compiler_version[" COMPILER_VERSION "]";
+
+/* Construct a string literal encoding the version number components. */
+#elif defined(COMPILER_VERSION_MAJOR)
+char const info_version[] = {
+  'I', 'N', 'F', 'O', ':',
+  'c','o','m','p','i','l','e','r','_','v','e','r','s','i','o','n','[',
+  COMPILER_VERSION_MAJOR,
+# ifdef COMPILER_VERSION_MINOR
+  '.', COMPILER_VERSION_MINOR,
+#  ifdef COMPILER_VERSION_PATCH
+   '.', COMPILER_VERSION_PATCH,
+#   ifdef COMPILER_VERSION_TWEAK
+    '.', COMPILER_VERSION_TWEAK,
+#   endif
+#  endif
+# endif
+  ']','\0'};
+#endif
+
+/* Construct a string literal encoding the internal version number. */
+#ifdef COMPILER_VERSION_INTERNAL
+char const info_version_internal[] = {
+  'I', 'N', 'F', 'O', ':',
+  'c','o','m','p','i','l','e','r','_','v','e','r','s','i','o','n','_',
+  'i','n','t','e','r','n','a','l','[',
+  COMPILER_VERSION_INTERNAL,']','\0'};
+#elif defined(COMPILER_VERSION_INTERNAL_STR)
+char const* info_version_internal = "INFO" ":" "compiler_version_internal[" COMPILER_VERSION_INTERNAL_STR "]";
+#endif
+
+/* Construct a string literal encoding the version number components. */
+#ifdef SIMULATE_VERSION_MAJOR
+char const info_simulate_version[] = {
+  'I', 'N', 'F', 'O', ':',
+  's','i','m','u','l','a','t','e','_','v','e','r','s','i','o','n','[',
+  SIMULATE_VERSION_MAJOR,
+# ifdef SIMULATE_VERSION_MINOR
+  '.', SIMULATE_VERSION_MINOR,
+#  ifdef SIMULATE_VERSION_PATCH
+   '.', SIMULATE_VERSION_PATCH,
+#   ifdef SIMULATE_VERSION_TWEAK
+    '.', SIMULATE_VERSION_TWEAK,
+#   endif
+#  endif
+# endif
+  ']','\0'};
+#endif
+
+/* Construct the string literal in pieces to prevent the source from
+   getting matched.  Store it in a pointer rather than an array
+   because some compilers will just produce instructions to fill the
+   array rather than assigning a pointer to a static array.  */
+char const* info_platform = "INFO" ":" "platform[" PLATFORM_ID "]";
+char const* info_arch = "INFO" ":" "arch[" ARCHITECTURE_ID "]";
+
+
+
+#if defined(__INTEL_COMPILER) && defined(_MSVC_LANG) && _MSVC_LANG < 201403L
+#  if defined(__INTEL_CXX11_MODE__)
+#    if defined(__cpp_aggregate_nsdmi)
+#      define CXX_STD 201402L
+#    else
+#      define CXX_STD 201103L
+#    endif
+#  else
+#    define CXX_STD 199711L
+#  endif
+#elif defined(_MSC_VER) && defined(_MSVC_LANG)
+#  define CXX_STD _MSVC_LANG
+#else
+#  define CXX_STD __cplusplus
+#endif
+
+const char* info_language_standard_default = "INFO" ":" "standard_default["
+#if CXX_STD > 202002L
+  "23"
+#elif CXX_STD > 201703L
+  "20"
+#elif CXX_STD >= 201703L
+  "17"
+#elif CXX_STD >= 201402L
+  "14"
+#elif CXX_STD >= 201103L
+  "11"
+#else
+  "98"
+#endif
+"]";
+
+const char* info_language_extensions_default = "INFO" ":" "extensions_default["
+#if (defined(__clang__) || defined(__GNUC__) || defined(__xlC__) ||           \
+     defined(__TI_COMPILER_VERSION__)) &&                                     \
+  !defined(__STRICT_ANSI__)
+  "ON"
+#else
+  "OFF"
+#endif
+"]";
+
+/*--------------------------------------------------------------------------*/
+
+int main(int argc, char* argv[])
+{
+  int require = 0;
+  require += info_compiler[argc];
+  require += info_platform[argc];
+  require += info_arch[argc];
+#ifdef COMPILER_VERSION_MAJOR
+  require += info_version[argc];
+#endif
+#ifdef COMPILER_VERSION_INTERNAL
+  require += info_version_internal[argc];
+#endif
+#ifdef SIMULATE_ID
+  require += info_simulate[argc];
+#endif
+#ifdef SIMULATE_VERSION_MAJOR
+  require += info_simulate_version[argc];
+#endif
+#if defined(__CRAYXT_COMPUTE_LINUX_TARGET)
+  require += info_cray[argc];
+#endif
+  require += info_language_standard_default[argc];
+  require += info_language_extensions_default[argc];
+  (void)argv;
+  return require;
+}
diff --git a/b/CMakeFiles/3.28.3/CompilerIdCXX/a.out b/b/CMakeFiles/3.28.3/CompilerIdCXX/a.out
new file mode 100755
index 0000000000000000000000000000000000000000..e926ed95aca95fa7a394ccb140ffe97fb42360fe
GIT binary patch
literal 16096
zcmeHOeQX>@6`#9&IW&ncX+zwkG)HNwq|_VRaa_05<Q)5)GqRI3aoRu{R%_qdcj7+G
z-5#|gXoFH9CJAb21^iK@s6rq<DuINGT8ZFLRMe`VL_#7+2!)S|Af>GlU#5+6yf^cH
z>+^CB0{RCM`z-I9_j?~R`(}1;c6a8{<Un6E5>cQ<>ivqPM9d%wQJlG33d9nsQ>~=q
zyVNaeDang9X7mZeNNea~bUtqod=YW>YvMv3ev5&r2195ebM{+^GTa~{a3$x#eoI&(
za*+R8DgcMxuP@HdL~(ue`AP8uul3`m%rqPOnXdUfC3)E^9DXe7Q?QIZb%!D0(^4Ne
z^2s^j|4zwgkhe$}@StBt{DQn!{J^;mrv0ya>Hnm@z2f&uT!&FXewTq2IO@Bf{G@Be
z;`$8Tyie*|s2^gIe{e~!+M3G_ceHQKrJHlvLS>?PqO+s9qunYOtu|dTw<}KnJf?Q-
zKA<SfG-HxR6+LQX#ADq}qG$WI=bn7xZx0@MtE=hcx2EsAS)IGH<36_GcC!!LFmXH#
z5tg~kb+V1g$0w;IW1IK|_osOcEO21IHFb17gvION_5yfe0sKb7Z>tkW**0Z##4dYI
z$+PoLwm`_pgkz6p3r;S3#8s^3{C22a1N}RD>^7^-+U}RPwJW=SXwXi(C3h@a_T19Y
zU{9`CaEF}XoJ+CB^2LHgw~c9CL(X7C|CyeOkj(AHc&V(<F6XTC_+#w5r@ugHj?x{^
z5UyifKk?NDpOxzy_$3M0kT81SkYfQn9yfMP0lXx5Jb-^j@XZ1I3Bg+e_%niE+@Un_
z*x|7Nx>SSn7z16d!7;X3H&cW2xCPDD;QD?GMaaVpgc%4k5N06EK$w9r17QaKCo=G-
z##`S^9lO$yI<e#zTa`+EYTAod&!>+4sNn_OzUua;39fGX3LP6aCKTIOH=QMEv~gpv
z(sJu-{Zkh{oSOPg>e%mQ_6{Xmr(0i2o$7j-0#w(Q$@I^oR^!IUbUeb(5t2H!<auWI
z%zA67>Ib+?RWGkzYTS5~4POvW_NTS|_RligaxFDAlREeMj?}r?MXAV(sSDS<n<&60
z3D8izWZDIPZtu~qK~k&Adk>_Jbw#<DntIh+kvh?}l!VJ$s@3Y{G#y^lVIqgg*RP-b
z|L`y=xp08|rao~cHC4Iv<K$ItX6nS+m+49UMDj}NOR32D#%ERI+385~D&fyBfPbSN
zZUUTI`^+jz^RtU%ew4@RSyObc9)2Qu^)PiCH&yqk-;3PTkirav83;2FW+2Q!n1L_@
zVFtnsgc%4k5N6>2IRpIt>w46`yKm3EBgOo9Hs_WO(O1dC^R4IU?T@*oa<*7F)S{_%
zn`H_uexc>C(jMbE#~Uq{@`nca>#BfGX(V$<%JiMEkakLG`rtR}RC3;-*1JXHPIzvC
zYbpD>J-c<QA{!RHZ!<NIzef$dQLR2iJWZV6Jb1+Eb%i=SQ>{KloWI2~MUL!Kk%?Gj
z!-{1MkJAS+#(B-bX0pG74SJX9FL}39v7P>BUawX)uqxKKs_6rbH$2>MRP9)Q&z;+D
z=g)}RpX<E{I|hk3rbqwJQQWUHkX#k}bhKyX(&!ngnSqeP41^g7GZ1DV%s`ldFau!*
z!VH8N2s7~ZW&rCIu|5%N0QJKQRkZ@u$@;~WBL7U*Io>QX)<JF%8ILgQMaFtae(qs{
z{x8?6MV7xUiwUttFvAaRM7%DM>7wZ0VMKLY_zl9Fgs&A2CT?n4)*&tvMT=B~c67>#
z(_&9eh<B^VuzRa&+Dqmdx+bz&OimxT=k(f>9xwIz&B*!uU1Y?Q@NXZ(`tbiUBG#qG
z<0cT+onoCS)|Fx%>8_rhd*hoA3|9(XB~B0e^n~BsQPE=CBW>+gOS{#&MHJU-8h68D
z^~Y+^hWjN#nv>F@aWUZa#r5pD-=b=j8kcb^<|;1unE<{`a9jtl@25gUHL1>oLAZTP
zyc#<~Pxlzt8l=O=>7VPxbp`x56(Z_Jh3f?P*Qijh{b#j(OeNyRvdu7xP~ZMM;SpNN
zef-^GSi|bY|CP3<t0gdAey{yj`|I!#=1pz?PX9Ur9;1Y;fl$Mn36IyvC?3@KI;9do
z4DTmArq=m+hITLEYod(`_Z#33h<z~5h>j1dIbI@sb#$G=xQ6CY#;Il%H;7!O>T?=j
zr-JLRpAtN{p8ETQ$7q}+5{PX0LxiuP@sN=5rr#lv>W301Cib`=oR>HlZ;19wiL*uS
zyZW6GDS3YipI6ZSHHp7D5PwC~KUIX*{0_ozn}-;ooA5PJy2}QxmtBOfrv8d2j2+sq
z_K%djR;x%W@SWkT?KxwLfU;K^9koW(+-iN>%iANoUcXG1>7qTBD-Jt3JM9%qW!tGt
zD1OJ7b3He0wbZxZodQ|gDV3Z_+bwvdNi|w>@~)k(<nxo{QX|=9>CH3k8FW74_8dIe
zBX2VM)7HrNxUxSq(At(Qj27|clH&C3>mE$n$=$s+?IY;@;O_3h{vLwq)u)|Ii8j@{
zPuaT$_U!B)u=n)!?N1KbL)|+ElH?KG=8(W{hJUq#!A(1!qx4x)6c)^O1`_7)ZLrhj
zqMf1FqrC5-e-Bxuvjw|ScGF6q3f`?6Dd!Z%D$bZ||MPoOMR^n-yy2zFhRbECSaxa9
zMhi)Y4(|sHzM{R(u8a9wJ^YmL1`pj=rm6h?S1GGJnfIJw;$F${3`*Go?fV#4R-x#*
z)>xrpjhBk!ZpoXhfrcwt+O(5R3)H={znKT6HqSWajIz>`1**buuVggx;(DH7ldk0E
z9ClC^4=H7h=gh$xD^kIuoGOdQC0Q1A|5<KEMq(yS{*a8n8Ir~WWeV=(vm?|T?tY81
zuPo|~JPq+Wm*>9?@%)T#4gOpH;C?&I&k&exYw0~C@EnRRe@zSRD-*Rp&x71Sg<AjM
z{xW{AUQ4(i1LNQ0T7S$3z~e9!9`t{Z@W0X=4DH9f6CCwp-s#`hB%VW@=bZ4zycGO#
zvEw#!?%<F4WR@_V!oVN%T=3(htEFK6KT1lTW5OTvN^s2A(SF#0KSKUIXN8P;D|m}k
z9&A6_bcza`Q}|;Z4UTy<>JOg(7s;2;33~r`MSfrK{6Hp}g8lbpLTmlw;s-9Gc+dT8
z0e?E+-y#Zd*dYL9@NWkE6QThBe4xYNhj`x!_+wrJj^``b2haa|;*b2RxL68*NklM#
zA*vrxiJJ)jSHuAPF5l7=g7yD|;9CD#@dtl0;E(<X{BtVMnpS^bB<91|j~TRw4E|g4
zZLIOf{Cl>UKqA-~X-)?I1}S*#$z#Oa{Fm0xGEGbW@%U$gANujDgs}<y@mx8*m93RZ
z=;Pc0{@}Bus`d9BT8vNUoU1Ou5AZcAFoyau@9Px*puL<9+|?oi7!z|JhrguJ$KhYg
zF?M_-Dr6)e?t^?C^Ro)tgZtld!q9dq`jp_0sYLe&f}>ue<vC}4|I_@#LbM{_5D?Wr
E0G?`BlmGw#

literal 0
HcmV?d00001

diff --git a/b/CMakeFiles/CMakeConfigureLog.yaml b/b/CMakeFiles/CMakeConfigureLog.yaml
new file mode 100644
index 0000000..d9dff7d
--- /dev/null
+++ b/b/CMakeFiles/CMakeConfigureLog.yaml
@@ -0,0 +1,507 @@
+
+---
+events:
+  -
+    kind: "message-v1"
+    backtrace:
+      - "/usr/share/cmake-3.28/Modules/CMakeDetermineSystem.cmake:233 (message)"
+      - "CMakeLists.txt:1 (PROJECT)"
+    message: |
+      The system is: Linux - 6.18.44-fc-v657 - x86_64
+  -
+    kind: "message-v1"
+    backtrace:
+      - "/usr/share/cmake-3.28/Modules/CMakeDetermineCompilerId.cmake:17 (message)"
+      - "/usr/share/cmake-3.28/Modules/CMakeDetermineCompilerId.cmake:64 (__determine_compiler_id_test)"
+      - "/usr/share/cmake-3.28/Modules/CMakeDetermineCCompiler.cmake:123 (CMAKE_DETERMINE_COMPILER_ID)"
+      - "CMakeLists.txt:1 (PROJECT)"
+    message: |
+      Compiling the C compiler identification source file "CMakeCCompilerId.c" succeeded.
+      Compiler: /usr/bin/cc 
+      Build flags: 
+      Id flags:  
+      
+      The output was:
+      0
+      
+      
+      Compilation of the C compiler identification source "CMakeCCompilerId.c" produced "a.out"
+      
+      The C compiler identification is GNU, found in:
+        /tmp/w/fx/b/CMakeFiles/3.28.3/CompilerIdC/a.out
+      
+  -
+    kind: "message-v1"
+    backtrace:
+      - "/usr/share/cmake-3.28/Modules/CMakeDetermineCompilerId.cmake:17 (message)"
+      - "/usr/share/cmake-3.28/Modules/CMakeDetermineCompilerId.cmake:64 (__determine_compiler_id_test)"
+      - "/usr/share/cmake-3.28/Modules/CMakeDetermineCXXCompiler.cmake:126 (CMAKE_DETERMINE_COMPILER_ID)"
+      - "CMakeLists.txt:1 (PROJECT)"
+    message: |
+      Compiling the CXX compiler identification source file "CMakeCXXCompilerId.cpp" succeeded.
+      Compiler: /usr/bin/c++ 
+      Build flags: 
+      Id flags:  
+      
+      The output was:
+      0
+      
+      
+      Compilation of the CXX compiler identification source "CMakeCXXCompilerId.cpp" produced "a.out"
+      
+      The CXX compiler identification is GNU, found in:
+        /tmp/w/fx/b/CMakeFiles/3.28.3/CompilerIdCXX/a.out
+      
+  -
+    kind: "try_compile-v1"
+    backtrace:
+      - "/usr/share/cmake-3.28/Modules/CMakeDetermineCompilerABI.cmake:57 (try_compile)"
+      - "/usr/share/cmake-3.28/Modules/CMakeTestCCompiler.cmake:26 (CMAKE_DETERMINE_COMPILER_ABI)"
+      - "CMakeLists.txt:1 (PROJECT)"
+    checks:
+      - "Detecting C compiler ABI info"
+    directories:
+      source: "/tmp/w/fx/b/CMakeFiles/CMakeScratch/TryCompile-pAttk2"
+      binary: "/tmp/w/fx/b/CMakeFiles/CMakeScratch/TryCompile-pAttk2"
+    cmakeVariables:
+      CMAKE_C_FLAGS: ""
+    buildResult:
+      variable: "CMAKE_C_ABI_COMPILED"
+      cached: true
+      stdout: |
+        Change Dir: '/tmp/w/fx/b/CMakeFiles/CMakeScratch/TryCompile-pAttk2'
+        
+        Run Build Command(s): /usr/bin/ninja -v cmTC_2cd5c
+        [1/2] /usr/bin/cc   -v -o CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.o -c /usr/share/cmake-3.28/Modules/CMakeCCompilerABI.c
+        Using built-in specs.
+        COLLECT_GCC=/usr/bin/cc
+        OFFLOAD_TARGET_NAMES=nvptx-none:amdgcn-amdhsa
+        OFFLOAD_TARGET_DEFAULT=1
+        Target: x86_64-linux-gnu
+        Configured with: ../src/configure -v --with-pkgversion='Ubuntu 13.3.0-6ubuntu2~24.04.1' --with-bugurl=file:///usr/share/doc/gcc-13/README.Bugs --enable-languages=c,ada,c++,go,d,fortran,objc,obj-c++,m2 --prefix=/usr --with-gcc-major-version-only --program-suffix=-13 --program-prefix=x86_64-linux-gnu- --enable-shared --enable-linker-build-id --libexecdir=/usr/libexec --without-included-gettext --enable-threads=posix --libdir=/usr/lib --enable-nls --enable-bootstrap --enable-clocale=gnu --enable-libstdcxx-debug --enable-libstdcxx-time=yes --with-default-libstdcxx-abi=new --enable-libstdcxx-backtrace --enable-gnu-unique-object --disable-vtable-verify --enable-plugin --enable-default-pie --with-system-zlib --enable-libphobos-checking=release --with-target-system-zlib=auto --enable-objc-gc=auto --enable-multiarch --disable-werror --enable-cet --with-arch-32=i686 --with-abi=m64 --with-multilib-list=m32,m64,mx32 --enable-multilib --with-tune=generic --enable-offload-targets=nvptx-none=/build/gcc-13-EldibY/gcc-13-13.3.0/debian/tmp-nvptx/usr,amdgcn-amdhsa=/build/gcc-13-EldibY/gcc-13-13.3.0/debian/tmp-gcn/usr --enable-offload-defaulted --without-cuda-driver --enable-checking=release --build=x86_64-linux-gnu --host=x86_64-linux-gnu --target=x86_64-linux-gnu --with-build-config=bootstrap-lto-lean --enable-link-serialization=2
+        Thread model: posix
+        Supported LTO compression algorithms: zlib zstd
+        gcc version 13.3.0 (Ubuntu 13.3.0-6ubuntu2~24.04.1) 
+        COLLECT_GCC_OPTIONS='-v' '-o' 'CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.o' '-c' '-mtune=generic' '-march=x86-64' '-dumpdir' 'CMakeFiles/cmTC_2cd5c.dir/'
+         /usr/libexec/gcc/x86_64-linux-gnu/13/cc1 -quiet -v -imultiarch x86_64-linux-gnu /usr/share/cmake-3.28/Modules/CMakeCCompilerABI.c -quiet -dumpdir CMakeFiles/cmTC_2cd5c.dir/ -dumpbase CMakeCCompilerABI.c.c -dumpbase-ext .c -mtune=generic -march=x86-64 -version -fasynchronous-unwind-tables -fstack-protector-strong -Wformat -Wformat-security -fstack-clash-protection -fcf-protection -o /tmp/ccyY1TzD.s
+        GNU C17 (Ubuntu 13.3.0-6ubuntu2~24.04.1) version 13.3.0 (x86_64-linux-gnu)
+        	compiled by GNU C version 13.3.0, GMP version 6.3.0, MPFR version 4.2.1, MPC version 1.3.1, isl version isl-0.26-GMP
+        
+        GGC heuristics: --param ggc-min-expand=100 --param ggc-min-heapsize=131072
+        ignoring nonexistent directory "/usr/local/include/x86_64-linux-gnu"
+        ignoring nonexistent directory "/usr/lib/gcc/x86_64-linux-gnu/13/include-fixed/x86_64-linux-gnu"
+        ignoring nonexistent directory "/usr/lib/gcc/x86_64-linux-gnu/13/include-fixed"
+        ignoring nonexistent directory "/usr/lib/gcc/x86_64-linux-gnu/13/../../../../x86_64-linux-gnu/include"
+        #include "..." search starts here:
+        #include <...> search starts here:
+         /usr/lib/gcc/x86_64-linux-gnu/13/include
+         /usr/local/include
+         /usr/include/x86_64-linux-gnu
+         /usr/include
+        End of search list.
+        Compiler executable checksum: b220a7f1a1f69970d969d254ad9ec166
+        COLLECT_GCC_OPTIONS='-v' '-o' 'CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.o' '-c' '-mtune=generic' '-march=x86-64' '-dumpdir' 'CMakeFiles/cmTC_2cd5c.dir/'
+         as -v --64 -o CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.o /tmp/ccyY1TzD.s
+        GNU assembler version 2.42 (x86_64-linux-gnu) using BFD version (GNU Binutils for Ubuntu) 2.42
+        COMPILER_PATH=/usr/libexec/gcc/x86_64-linux-gnu/13/:/usr/libexec/gcc/x86_64-linux-gnu/13/:/usr/libexec/gcc/x86_64-linux-gnu/:/usr/lib/gcc/x86_64-linux-gnu/13/:/usr/lib/gcc/x86_64-linux-gnu/
+        LIBRARY_PATH=/usr/lib/gcc/x86_64-linux-gnu/13/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib/:/lib/x86_64-linux-gnu/:/lib/../lib/:/usr/lib/x86_64-linux-gnu/:/usr/lib/../lib/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../:/lib/:/usr/lib/
+        COLLECT_GCC_OPTIONS='-v' '-o' 'CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.o' '-c' '-mtune=generic' '-march=x86-64' '-dumpdir' 'CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.'
+        [2/2] : && /usr/bin/cc  -v  -rdynamic CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.o -o cmTC_2cd5c   && :
+        Using built-in specs.
+        COLLECT_GCC=/usr/bin/cc
+        COLLECT_LTO_WRAPPER=/usr/libexec/gcc/x86_64-linux-gnu/13/lto-wrapper
+        OFFLOAD_TARGET_NAMES=nvptx-none:amdgcn-amdhsa
+        OFFLOAD_TARGET_DEFAULT=1
+        Target: x86_64-linux-gnu
+        Configured with: ../src/configure -v --with-pkgversion='Ubuntu 13.3.0-6ubuntu2~24.04.1' --with-bugurl=file:///usr/share/doc/gcc-13/README.Bugs --enable-languages=c,ada,c++,go,d,fortran,objc,obj-c++,m2 --prefix=/usr --with-gcc-major-version-only --program-suffix=-13 --program-prefix=x86_64-linux-gnu- --enable-shared --enable-linker-build-id --libexecdir=/usr/libexec --without-included-gettext --enable-threads=posix --libdir=/usr/lib --enable-nls --enable-bootstrap --enable-clocale=gnu --enable-libstdcxx-debug --enable-libstdcxx-time=yes --with-default-libstdcxx-abi=new --enable-libstdcxx-backtrace --enable-gnu-unique-object --disable-vtable-verify --enable-plugin --enable-default-pie --with-system-zlib --enable-libphobos-checking=release --with-target-system-zlib=auto --enable-objc-gc=auto --enable-multiarch --disable-werror --enable-cet --with-arch-32=i686 --with-abi=m64 --with-multilib-list=m32,m64,mx32 --enable-multilib --with-tune=generic --enable-offload-targets=nvptx-none=/build/gcc-13-EldibY/gcc-13-13.3.0/debian/tmp-nvptx/usr,amdgcn-amdhsa=/build/gcc-13-EldibY/gcc-13-13.3.0/debian/tmp-gcn/usr --enable-offload-defaulted --without-cuda-driver --enable-checking=release --build=x86_64-linux-gnu --host=x86_64-linux-gnu --target=x86_64-linux-gnu --with-build-config=bootstrap-lto-lean --enable-link-serialization=2
+        Thread model: posix
+        Supported LTO compression algorithms: zlib zstd
+        gcc version 13.3.0 (Ubuntu 13.3.0-6ubuntu2~24.04.1) 
+        COMPILER_PATH=/usr/libexec/gcc/x86_64-linux-gnu/13/:/usr/libexec/gcc/x86_64-linux-gnu/13/:/usr/libexec/gcc/x86_64-linux-gnu/:/usr/lib/gcc/x86_64-linux-gnu/13/:/usr/lib/gcc/x86_64-linux-gnu/
+        LIBRARY_PATH=/usr/lib/gcc/x86_64-linux-gnu/13/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib/:/lib/x86_64-linux-gnu/:/lib/../lib/:/usr/lib/x86_64-linux-gnu/:/usr/lib/../lib/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../:/lib/:/usr/lib/
+        COLLECT_GCC_OPTIONS='-v' '-rdynamic' '-o' 'cmTC_2cd5c' '-mtune=generic' '-march=x86-64' '-dumpdir' 'cmTC_2cd5c.'
+         /usr/libexec/gcc/x86_64-linux-gnu/13/collect2 -plugin /usr/libexec/gcc/x86_64-linux-gnu/13/liblto_plugin.so -plugin-opt=/usr/libexec/gcc/x86_64-linux-gnu/13/lto-wrapper -plugin-opt=-fresolution=/tmp/ccqbQjUI.res -plugin-opt=-pass-through=-lgcc -plugin-opt=-pass-through=-lgcc_s -plugin-opt=-pass-through=-lc -plugin-opt=-pass-through=-lgcc -plugin-opt=-pass-through=-lgcc_s --build-id --eh-frame-hdr -m elf_x86_64 --hash-style=gnu --as-needed -export-dynamic -dynamic-linker /lib64/ld-linux-x86-64.so.2 -pie -z now -z relro -o cmTC_2cd5c /usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/Scrt1.o /usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crti.o /usr/lib/gcc/x86_64-linux-gnu/13/crtbeginS.o -L/usr/lib/gcc/x86_64-linux-gnu/13 -L/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu -L/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib -L/lib/x86_64-linux-gnu -L/lib/../lib -L/usr/lib/x86_64-linux-gnu -L/usr/lib/../lib -L/usr/lib/gcc/x86_64-linux-gnu/13/../../.. CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.o -lgcc --push-state --as-needed -lgcc_s --pop-state -lc -lgcc --push-state --as-needed -lgcc_s --pop-state /usr/lib/gcc/x86_64-linux-gnu/13/crtendS.o /usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crtn.o
+        COLLECT_GCC_OPTIONS='-v' '-rdynamic' '-o' 'cmTC_2cd5c' '-mtune=generic' '-march=x86-64' '-dumpdir' 'cmTC_2cd5c.'
+        
+      exitCode: 0
+  -
+    kind: "message-v1"
+    backtrace:
+      - "/usr/share/cmake-3.28/Modules/CMakeDetermineCompilerABI.cmake:127 (message)"
+      - "/usr/share/cmake-3.28/Modules/CMakeTestCCompiler.cmake:26 (CMAKE_DETERMINE_COMPILER_ABI)"
+      - "CMakeLists.txt:1 (PROJECT)"
+    message: |
+      Parsed C implicit include dir info: rv=done
+        found start of include info
+        found start of implicit include info
+          add: [/usr/lib/gcc/x86_64-linux-gnu/13/include]
+          add: [/usr/local/include]
+          add: [/usr/include/x86_64-linux-gnu]
+          add: [/usr/include]
+        end of search list found
+        collapse include dir [/usr/lib/gcc/x86_64-linux-gnu/13/include] ==> [/usr/lib/gcc/x86_64-linux-gnu/13/include]
+        collapse include dir [/usr/local/include] ==> [/usr/local/include]
+        collapse include dir [/usr/include/x86_64-linux-gnu] ==> [/usr/include/x86_64-linux-gnu]
+        collapse include dir [/usr/include] ==> [/usr/include]
+        implicit include dirs: [/usr/lib/gcc/x86_64-linux-gnu/13/include;/usr/local/include;/usr/include/x86_64-linux-gnu;/usr/include]
+      
+      
+  -
+    kind: "message-v1"
+    backtrace:
+      - "/usr/share/cmake-3.28/Modules/CMakeDetermineCompilerABI.cmake:159 (message)"
+      - "/usr/share/cmake-3.28/Modules/CMakeTestCCompiler.cmake:26 (CMAKE_DETERMINE_COMPILER_ABI)"
+      - "CMakeLists.txt:1 (PROJECT)"
+    message: |
+      Parsed C implicit link information:
+        link line regex: [^( *|.*[/\\])(ld|CMAKE_LINK_STARTFILE-NOTFOUND|([^/\\]+-)?ld|collect2)[^/\\]*( |$)]
+        ignore line: [Change Dir: '/tmp/w/fx/b/CMakeFiles/CMakeScratch/TryCompile-pAttk2']
+        ignore line: []
+        ignore line: [Run Build Command(s): /usr/bin/ninja -v cmTC_2cd5c]
+        ignore line: [[1/2] /usr/bin/cc   -v -o CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.o -c /usr/share/cmake-3.28/Modules/CMakeCCompilerABI.c]
+        ignore line: [Using built-in specs.]
+        ignore line: [COLLECT_GCC=/usr/bin/cc]
+        ignore line: [OFFLOAD_TARGET_NAMES=nvptx-none:amdgcn-amdhsa]
+        ignore line: [OFFLOAD_TARGET_DEFAULT=1]
+        ignore line: [Target: x86_64-linux-gnu]
+        ignore line: [Configured with: ../src/configure -v --with-pkgversion='Ubuntu 13.3.0-6ubuntu2~24.04.1' --with-bugurl=file:///usr/share/doc/gcc-13/README.Bugs --enable-languages=c ada c++ go d fortran objc obj-c++ m2 --prefix=/usr --with-gcc-major-version-only --program-suffix=-13 --program-prefix=x86_64-linux-gnu- --enable-shared --enable-linker-build-id --libexecdir=/usr/libexec --without-included-gettext --enable-threads=posix --libdir=/usr/lib --enable-nls --enable-bootstrap --enable-clocale=gnu --enable-libstdcxx-debug --enable-libstdcxx-time=yes --with-default-libstdcxx-abi=new --enable-libstdcxx-backtrace --enable-gnu-unique-object --disable-vtable-verify --enable-plugin --enable-default-pie --with-system-zlib --enable-libphobos-checking=release --with-target-system-zlib=auto --enable-objc-gc=auto --enable-multiarch --disable-werror --enable-cet --with-arch-32=i686 --with-abi=m64 --with-multilib-list=m32 m64 mx32 --enable-multilib --with-tune=generic --enable-offload-targets=nvptx-none=/build/gcc-13-EldibY/gcc-13-13.3.0/debian/tmp-nvptx/usr amdgcn-amdhsa=/build/gcc-13-EldibY/gcc-13-13.3.0/debian/tmp-gcn/usr --enable-offload-defaulted --without-cuda-driver --enable-checking=release --build=x86_64-linux-gnu --host=x86_64-linux-gnu --target=x86_64-linux-gnu --with-build-config=bootstrap-lto-lean --enable-link-serialization=2]
+        ignore line: [Thread model: posix]
+        ignore line: [Supported LTO compression algorithms: zlib zstd]
+        ignore line: [gcc version 13.3.0 (Ubuntu 13.3.0-6ubuntu2~24.04.1) ]
+        ignore line: [COLLECT_GCC_OPTIONS='-v' '-o' 'CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.o' '-c' '-mtune=generic' '-march=x86-64' '-dumpdir' 'CMakeFiles/cmTC_2cd5c.dir/']
+        ignore line: [ /usr/libexec/gcc/x86_64-linux-gnu/13/cc1 -quiet -v -imultiarch x86_64-linux-gnu /usr/share/cmake-3.28/Modules/CMakeCCompilerABI.c -quiet -dumpdir CMakeFiles/cmTC_2cd5c.dir/ -dumpbase CMakeCCompilerABI.c.c -dumpbase-ext .c -mtune=generic -march=x86-64 -version -fasynchronous-unwind-tables -fstack-protector-strong -Wformat -Wformat-security -fstack-clash-protection -fcf-protection -o /tmp/ccyY1TzD.s]
+        ignore line: [GNU C17 (Ubuntu 13.3.0-6ubuntu2~24.04.1) version 13.3.0 (x86_64-linux-gnu)]
+        ignore line: [	compiled by GNU C version 13.3.0  GMP version 6.3.0  MPFR version 4.2.1  MPC version 1.3.1  isl version isl-0.26-GMP]
+        ignore line: []
+        ignore line: [GGC heuristics: --param ggc-min-expand=100 --param ggc-min-heapsize=131072]
+        ignore line: [ignoring nonexistent directory "/usr/local/include/x86_64-linux-gnu"]
+        ignore line: [ignoring nonexistent directory "/usr/lib/gcc/x86_64-linux-gnu/13/include-fixed/x86_64-linux-gnu"]
+        ignore line: [ignoring nonexistent directory "/usr/lib/gcc/x86_64-linux-gnu/13/include-fixed"]
+        ignore line: [ignoring nonexistent directory "/usr/lib/gcc/x86_64-linux-gnu/13/../../../../x86_64-linux-gnu/include"]
+        ignore line: [#include "..." search starts here:]
+        ignore line: [#include <...> search starts here:]
+        ignore line: [ /usr/lib/gcc/x86_64-linux-gnu/13/include]
+        ignore line: [ /usr/local/include]
+        ignore line: [ /usr/include/x86_64-linux-gnu]
+        ignore line: [ /usr/include]
+        ignore line: [End of search list.]
+        ignore line: [Compiler executable checksum: b220a7f1a1f69970d969d254ad9ec166]
+        ignore line: [COLLECT_GCC_OPTIONS='-v' '-o' 'CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.o' '-c' '-mtune=generic' '-march=x86-64' '-dumpdir' 'CMakeFiles/cmTC_2cd5c.dir/']
+        ignore line: [ as -v --64 -o CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.o /tmp/ccyY1TzD.s]
+        ignore line: [GNU assembler version 2.42 (x86_64-linux-gnu) using BFD version (GNU Binutils for Ubuntu) 2.42]
+        ignore line: [COMPILER_PATH=/usr/libexec/gcc/x86_64-linux-gnu/13/:/usr/libexec/gcc/x86_64-linux-gnu/13/:/usr/libexec/gcc/x86_64-linux-gnu/:/usr/lib/gcc/x86_64-linux-gnu/13/:/usr/lib/gcc/x86_64-linux-gnu/]
+        ignore line: [LIBRARY_PATH=/usr/lib/gcc/x86_64-linux-gnu/13/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib/:/lib/x86_64-linux-gnu/:/lib/../lib/:/usr/lib/x86_64-linux-gnu/:/usr/lib/../lib/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../:/lib/:/usr/lib/]
+        ignore line: [COLLECT_GCC_OPTIONS='-v' '-o' 'CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.o' '-c' '-mtune=generic' '-march=x86-64' '-dumpdir' 'CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.']
+        ignore line: [[2/2] : && /usr/bin/cc  -v  -rdynamic CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.o -o cmTC_2cd5c   && :]
+        ignore line: [Using built-in specs.]
+        ignore line: [COLLECT_GCC=/usr/bin/cc]
+        ignore line: [COLLECT_LTO_WRAPPER=/usr/libexec/gcc/x86_64-linux-gnu/13/lto-wrapper]
+        ignore line: [OFFLOAD_TARGET_NAMES=nvptx-none:amdgcn-amdhsa]
+        ignore line: [OFFLOAD_TARGET_DEFAULT=1]
+        ignore line: [Target: x86_64-linux-gnu]
+        ignore line: [Configured with: ../src/configure -v --with-pkgversion='Ubuntu 13.3.0-6ubuntu2~24.04.1' --with-bugurl=file:///usr/share/doc/gcc-13/README.Bugs --enable-languages=c ada c++ go d fortran objc obj-c++ m2 --prefix=/usr --with-gcc-major-version-only --program-suffix=-13 --program-prefix=x86_64-linux-gnu- --enable-shared --enable-linker-build-id --libexecdir=/usr/libexec --without-included-gettext --enable-threads=posix --libdir=/usr/lib --enable-nls --enable-bootstrap --enable-clocale=gnu --enable-libstdcxx-debug --enable-libstdcxx-time=yes --with-default-libstdcxx-abi=new --enable-libstdcxx-backtrace --enable-gnu-unique-object --disable-vtable-verify --enable-plugin --enable-default-pie --with-system-zlib --enable-libphobos-checking=release --with-target-system-zlib=auto --enable-objc-gc=auto --enable-multiarch --disable-werror --enable-cet --with-arch-32=i686 --with-abi=m64 --with-multilib-list=m32 m64 mx32 --enable-multilib --with-tune=generic --enable-offload-targets=nvptx-none=/build/gcc-13-EldibY/gcc-13-13.3.0/debian/tmp-nvptx/usr amdgcn-amdhsa=/build/gcc-13-EldibY/gcc-13-13.3.0/debian/tmp-gcn/usr --enable-offload-defaulted --without-cuda-driver --enable-checking=release --build=x86_64-linux-gnu --host=x86_64-linux-gnu --target=x86_64-linux-gnu --with-build-config=bootstrap-lto-lean --enable-link-serialization=2]
+        ignore line: [Thread model: posix]
+        ignore line: [Supported LTO compression algorithms: zlib zstd]
+        ignore line: [gcc version 13.3.0 (Ubuntu 13.3.0-6ubuntu2~24.04.1) ]
+        ignore line: [COMPILER_PATH=/usr/libexec/gcc/x86_64-linux-gnu/13/:/usr/libexec/gcc/x86_64-linux-gnu/13/:/usr/libexec/gcc/x86_64-linux-gnu/:/usr/lib/gcc/x86_64-linux-gnu/13/:/usr/lib/gcc/x86_64-linux-gnu/]
+        ignore line: [LIBRARY_PATH=/usr/lib/gcc/x86_64-linux-gnu/13/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib/:/lib/x86_64-linux-gnu/:/lib/../lib/:/usr/lib/x86_64-linux-gnu/:/usr/lib/../lib/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../:/lib/:/usr/lib/]
+        ignore line: [COLLECT_GCC_OPTIONS='-v' '-rdynamic' '-o' 'cmTC_2cd5c' '-mtune=generic' '-march=x86-64' '-dumpdir' 'cmTC_2cd5c.']
+        link line: [ /usr/libexec/gcc/x86_64-linux-gnu/13/collect2 -plugin /usr/libexec/gcc/x86_64-linux-gnu/13/liblto_plugin.so -plugin-opt=/usr/libexec/gcc/x86_64-linux-gnu/13/lto-wrapper -plugin-opt=-fresolution=/tmp/ccqbQjUI.res -plugin-opt=-pass-through=-lgcc -plugin-opt=-pass-through=-lgcc_s -plugin-opt=-pass-through=-lc -plugin-opt=-pass-through=-lgcc -plugin-opt=-pass-through=-lgcc_s --build-id --eh-frame-hdr -m elf_x86_64 --hash-style=gnu --as-needed -export-dynamic -dynamic-linker /lib64/ld-linux-x86-64.so.2 -pie -z now -z relro -o cmTC_2cd5c /usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/Scrt1.o /usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crti.o /usr/lib/gcc/x86_64-linux-gnu/13/crtbeginS.o -L/usr/lib/gcc/x86_64-linux-gnu/13 -L/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu -L/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib -L/lib/x86_64-linux-gnu -L/lib/../lib -L/usr/lib/x86_64-linux-gnu -L/usr/lib/../lib -L/usr/lib/gcc/x86_64-linux-gnu/13/../../.. CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.o -lgcc --push-state --as-needed -lgcc_s --pop-state -lc -lgcc --push-state --as-needed -lgcc_s --pop-state /usr/lib/gcc/x86_64-linux-gnu/13/crtendS.o /usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crtn.o]
+          arg [/usr/libexec/gcc/x86_64-linux-gnu/13/collect2] ==> ignore
+          arg [-plugin] ==> ignore
+          arg [/usr/libexec/gcc/x86_64-linux-gnu/13/liblto_plugin.so] ==> ignore
+          arg [-plugin-opt=/usr/libexec/gcc/x86_64-linux-gnu/13/lto-wrapper] ==> ignore
+          arg [-plugin-opt=-fresolution=/tmp/ccqbQjUI.res] ==> ignore
+          arg [-plugin-opt=-pass-through=-lgcc] ==> ignore
+          arg [-plugin-opt=-pass-through=-lgcc_s] ==> ignore
+          arg [-plugin-opt=-pass-through=-lc] ==> ignore
+          arg [-plugin-opt=-pass-through=-lgcc] ==> ignore
+          arg [-plugin-opt=-pass-through=-lgcc_s] ==> ignore
+          arg [--build-id] ==> ignore
+          arg [--eh-frame-hdr] ==> ignore
+          arg [-m] ==> ignore
+          arg [elf_x86_64] ==> ignore
+          arg [--hash-style=gnu] ==> ignore
+          arg [--as-needed] ==> ignore
+          arg [-export-dynamic] ==> ignore
+          arg [-dynamic-linker] ==> ignore
+          arg [/lib64/ld-linux-x86-64.so.2] ==> ignore
+          arg [-pie] ==> ignore
+          arg [-znow] ==> ignore
+          arg [-zrelro] ==> ignore
+          arg [-o] ==> ignore
+          arg [cmTC_2cd5c] ==> ignore
+          arg [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/Scrt1.o] ==> obj [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/Scrt1.o]
+          arg [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crti.o] ==> obj [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crti.o]
+          arg [/usr/lib/gcc/x86_64-linux-gnu/13/crtbeginS.o] ==> obj [/usr/lib/gcc/x86_64-linux-gnu/13/crtbeginS.o]
+          arg [-L/usr/lib/gcc/x86_64-linux-gnu/13] ==> dir [/usr/lib/gcc/x86_64-linux-gnu/13]
+          arg [-L/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu] ==> dir [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu]
+          arg [-L/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib] ==> dir [/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib]
+          arg [-L/lib/x86_64-linux-gnu] ==> dir [/lib/x86_64-linux-gnu]
+          arg [-L/lib/../lib] ==> dir [/lib/../lib]
+          arg [-L/usr/lib/x86_64-linux-gnu] ==> dir [/usr/lib/x86_64-linux-gnu]
+          arg [-L/usr/lib/../lib] ==> dir [/usr/lib/../lib]
+          arg [-L/usr/lib/gcc/x86_64-linux-gnu/13/../../..] ==> dir [/usr/lib/gcc/x86_64-linux-gnu/13/../../..]
+          arg [CMakeFiles/cmTC_2cd5c.dir/CMakeCCompilerABI.c.o] ==> ignore
+          arg [-lgcc] ==> lib [gcc]
+          arg [--push-state] ==> ignore
+          arg [--as-needed] ==> ignore
+          arg [-lgcc_s] ==> lib [gcc_s]
+          arg [--pop-state] ==> ignore
+          arg [-lc] ==> lib [c]
+          arg [-lgcc] ==> lib [gcc]
+          arg [--push-state] ==> ignore
+          arg [--as-needed] ==> ignore
+          arg [-lgcc_s] ==> lib [gcc_s]
+          arg [--pop-state] ==> ignore
+          arg [/usr/lib/gcc/x86_64-linux-gnu/13/crtendS.o] ==> obj [/usr/lib/gcc/x86_64-linux-gnu/13/crtendS.o]
+          arg [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crtn.o] ==> obj [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crtn.o]
+        collapse obj [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/Scrt1.o] ==> [/usr/lib/x86_64-linux-gnu/Scrt1.o]
+        collapse obj [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crti.o] ==> [/usr/lib/x86_64-linux-gnu/crti.o]
+        collapse obj [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crtn.o] ==> [/usr/lib/x86_64-linux-gnu/crtn.o]
+        collapse library dir [/usr/lib/gcc/x86_64-linux-gnu/13] ==> [/usr/lib/gcc/x86_64-linux-gnu/13]
+        collapse library dir [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu] ==> [/usr/lib/x86_64-linux-gnu]
+        collapse library dir [/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib] ==> [/usr/lib]
+        collapse library dir [/lib/x86_64-linux-gnu] ==> [/lib/x86_64-linux-gnu]
+        collapse library dir [/lib/../lib] ==> [/lib]
+        collapse library dir [/usr/lib/x86_64-linux-gnu] ==> [/usr/lib/x86_64-linux-gnu]
+        collapse library dir [/usr/lib/../lib] ==> [/usr/lib]
+        collapse library dir [/usr/lib/gcc/x86_64-linux-gnu/13/../../..] ==> [/usr/lib]
+        implicit libs: [gcc;gcc_s;c;gcc;gcc_s]
+        implicit objs: [/usr/lib/x86_64-linux-gnu/Scrt1.o;/usr/lib/x86_64-linux-gnu/crti.o;/usr/lib/gcc/x86_64-linux-gnu/13/crtbeginS.o;/usr/lib/gcc/x86_64-linux-gnu/13/crtendS.o;/usr/lib/x86_64-linux-gnu/crtn.o]
+        implicit dirs: [/usr/lib/gcc/x86_64-linux-gnu/13;/usr/lib/x86_64-linux-gnu;/usr/lib;/lib/x86_64-linux-gnu;/lib]
+        implicit fwks: []
+      
+      
+  -
+    kind: "try_compile-v1"
+    backtrace:
+      - "/usr/share/cmake-3.28/Modules/CMakeDetermineCompilerABI.cmake:57 (try_compile)"
+      - "/usr/share/cmake-3.28/Modules/CMakeTestCXXCompiler.cmake:26 (CMAKE_DETERMINE_COMPILER_ABI)"
+      - "CMakeLists.txt:1 (PROJECT)"
+    checks:
+      - "Detecting CXX compiler ABI info"
+    directories:
+      source: "/tmp/w/fx/b/CMakeFiles/CMakeScratch/TryCompile-QefZpr"
+      binary: "/tmp/w/fx/b/CMakeFiles/CMakeScratch/TryCompile-QefZpr"
+    cmakeVariables:
+      CMAKE_CXX_FLAGS: ""
+    buildResult:
+      variable: "CMAKE_CXX_ABI_COMPILED"
+      cached: true
+      stdout: |
+        Change Dir: '/tmp/w/fx/b/CMakeFiles/CMakeScratch/TryCompile-QefZpr'
+        
+        Run Build Command(s): /usr/bin/ninja -v cmTC_474ca
+        [1/2] /usr/bin/c++   -v -o CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.o -c /usr/share/cmake-3.28/Modules/CMakeCXXCompilerABI.cpp
+        Using built-in specs.
+        COLLECT_GCC=/usr/bin/c++
+        OFFLOAD_TARGET_NAMES=nvptx-none:amdgcn-amdhsa
+        OFFLOAD_TARGET_DEFAULT=1
+        Target: x86_64-linux-gnu
+        Configured with: ../src/configure -v --with-pkgversion='Ubuntu 13.3.0-6ubuntu2~24.04.1' --with-bugurl=file:///usr/share/doc/gcc-13/README.Bugs --enable-languages=c,ada,c++,go,d,fortran,objc,obj-c++,m2 --prefix=/usr --with-gcc-major-version-only --program-suffix=-13 --program-prefix=x86_64-linux-gnu- --enable-shared --enable-linker-build-id --libexecdir=/usr/libexec --without-included-gettext --enable-threads=posix --libdir=/usr/lib --enable-nls --enable-bootstrap --enable-clocale=gnu --enable-libstdcxx-debug --enable-libstdcxx-time=yes --with-default-libstdcxx-abi=new --enable-libstdcxx-backtrace --enable-gnu-unique-object --disable-vtable-verify --enable-plugin --enable-default-pie --with-system-zlib --enable-libphobos-checking=release --with-target-system-zlib=auto --enable-objc-gc=auto --enable-multiarch --disable-werror --enable-cet --with-arch-32=i686 --with-abi=m64 --with-multilib-list=m32,m64,mx32 --enable-multilib --with-tune=generic --enable-offload-targets=nvptx-none=/build/gcc-13-EldibY/gcc-13-13.3.0/debian/tmp-nvptx/usr,amdgcn-amdhsa=/build/gcc-13-EldibY/gcc-13-13.3.0/debian/tmp-gcn/usr --enable-offload-defaulted --without-cuda-driver --enable-checking=release --build=x86_64-linux-gnu --host=x86_64-linux-gnu --target=x86_64-linux-gnu --with-build-config=bootstrap-lto-lean --enable-link-serialization=2
+        Thread model: posix
+        Supported LTO compression algorithms: zlib zstd
+        gcc version 13.3.0 (Ubuntu 13.3.0-6ubuntu2~24.04.1) 
+        COLLECT_GCC_OPTIONS='-v' '-o' 'CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.o' '-c' '-shared-libgcc' '-mtune=generic' '-march=x86-64' '-dumpdir' 'CMakeFiles/cmTC_474ca.dir/'
+         /usr/libexec/gcc/x86_64-linux-gnu/13/cc1plus -quiet -v -imultiarch x86_64-linux-gnu -D_GNU_SOURCE /usr/share/cmake-3.28/Modules/CMakeCXXCompilerABI.cpp -quiet -dumpdir CMakeFiles/cmTC_474ca.dir/ -dumpbase CMakeCXXCompilerABI.cpp.cpp -dumpbase-ext .cpp -mtune=generic -march=x86-64 -version -fasynchronous-unwind-tables -fstack-protector-strong -Wformat -Wformat-security -fstack-clash-protection -fcf-protection -o /tmp/ccwUnHwv.s
+        GNU C++17 (Ubuntu 13.3.0-6ubuntu2~24.04.1) version 13.3.0 (x86_64-linux-gnu)
+        	compiled by GNU C version 13.3.0, GMP version 6.3.0, MPFR version 4.2.1, MPC version 1.3.1, isl version isl-0.26-GMP
+        
+        GGC heuristics: --param ggc-min-expand=100 --param ggc-min-heapsize=131072
+        ignoring duplicate directory "/usr/include/x86_64-linux-gnu/c++/13"
+        ignoring nonexistent directory "/usr/local/include/x86_64-linux-gnu"
+        ignoring nonexistent directory "/usr/lib/gcc/x86_64-linux-gnu/13/include-fixed/x86_64-linux-gnu"
+        ignoring nonexistent directory "/usr/lib/gcc/x86_64-linux-gnu/13/include-fixed"
+        ignoring nonexistent directory "/usr/lib/gcc/x86_64-linux-gnu/13/../../../../x86_64-linux-gnu/include"
+        #include "..." search starts here:
+        #include <...> search starts here:
+         /usr/include/c++/13
+         /usr/include/x86_64-linux-gnu/c++/13
+         /usr/include/c++/13/backward
+         /usr/lib/gcc/x86_64-linux-gnu/13/include
+         /usr/local/include
+         /usr/include/x86_64-linux-gnu
+         /usr/include
+        End of search list.
+        Compiler executable checksum: 7896445e4990772fdae9dc0659a99266
+        COLLECT_GCC_OPTIONS='-v' '-o' 'CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.o' '-c' '-shared-libgcc' '-mtune=generic' '-march=x86-64' '-dumpdir' 'CMakeFiles/cmTC_474ca.dir/'
+         as -v --64 -o CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.o /tmp/ccwUnHwv.s
+        GNU assembler version 2.42 (x86_64-linux-gnu) using BFD version (GNU Binutils for Ubuntu) 2.42
+        COMPILER_PATH=/usr/libexec/gcc/x86_64-linux-gnu/13/:/usr/libexec/gcc/x86_64-linux-gnu/13/:/usr/libexec/gcc/x86_64-linux-gnu/:/usr/lib/gcc/x86_64-linux-gnu/13/:/usr/lib/gcc/x86_64-linux-gnu/
+        LIBRARY_PATH=/usr/lib/gcc/x86_64-linux-gnu/13/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib/:/lib/x86_64-linux-gnu/:/lib/../lib/:/usr/lib/x86_64-linux-gnu/:/usr/lib/../lib/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../:/lib/:/usr/lib/
+        COLLECT_GCC_OPTIONS='-v' '-o' 'CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.o' '-c' '-shared-libgcc' '-mtune=generic' '-march=x86-64' '-dumpdir' 'CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.'
+        [2/2] : && /usr/bin/c++  -v  -rdynamic CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.o -o cmTC_474ca   && :
+        Using built-in specs.
+        COLLECT_GCC=/usr/bin/c++
+        COLLECT_LTO_WRAPPER=/usr/libexec/gcc/x86_64-linux-gnu/13/lto-wrapper
+        OFFLOAD_TARGET_NAMES=nvptx-none:amdgcn-amdhsa
+        OFFLOAD_TARGET_DEFAULT=1
+        Target: x86_64-linux-gnu
+        Configured with: ../src/configure -v --with-pkgversion='Ubuntu 13.3.0-6ubuntu2~24.04.1' --with-bugurl=file:///usr/share/doc/gcc-13/README.Bugs --enable-languages=c,ada,c++,go,d,fortran,objc,obj-c++,m2 --prefix=/usr --with-gcc-major-version-only --program-suffix=-13 --program-prefix=x86_64-linux-gnu- --enable-shared --enable-linker-build-id --libexecdir=/usr/libexec --without-included-gettext --enable-threads=posix --libdir=/usr/lib --enable-nls --enable-bootstrap --enable-clocale=gnu --enable-libstdcxx-debug --enable-libstdcxx-time=yes --with-default-libstdcxx-abi=new --enable-libstdcxx-backtrace --enable-gnu-unique-object --disable-vtable-verify --enable-plugin --enable-default-pie --with-system-zlib --enable-libphobos-checking=release --with-target-system-zlib=auto --enable-objc-gc=auto --enable-multiarch --disable-werror --enable-cet --with-arch-32=i686 --with-abi=m64 --with-multilib-list=m32,m64,mx32 --enable-multilib --with-tune=generic --enable-offload-targets=nvptx-none=/build/gcc-13-EldibY/gcc-13-13.3.0/debian/tmp-nvptx/usr,amdgcn-amdhsa=/build/gcc-13-EldibY/gcc-13-13.3.0/debian/tmp-gcn/usr --enable-offload-defaulted --without-cuda-driver --enable-checking=release --build=x86_64-linux-gnu --host=x86_64-linux-gnu --target=x86_64-linux-gnu --with-build-config=bootstrap-lto-lean --enable-link-serialization=2
+        Thread model: posix
+        Supported LTO compression algorithms: zlib zstd
+        gcc version 13.3.0 (Ubuntu 13.3.0-6ubuntu2~24.04.1) 
+        COMPILER_PATH=/usr/libexec/gcc/x86_64-linux-gnu/13/:/usr/libexec/gcc/x86_64-linux-gnu/13/:/usr/libexec/gcc/x86_64-linux-gnu/:/usr/lib/gcc/x86_64-linux-gnu/13/:/usr/lib/gcc/x86_64-linux-gnu/
+        LIBRARY_PATH=/usr/lib/gcc/x86_64-linux-gnu/13/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib/:/lib/x86_64-linux-gnu/:/lib/../lib/:/usr/lib/x86_64-linux-gnu/:/usr/lib/../lib/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../:/lib/:/usr/lib/
+        COLLECT_GCC_OPTIONS='-v' '-rdynamic' '-o' 'cmTC_474ca' '-shared-libgcc' '-mtune=generic' '-march=x86-64' '-dumpdir' 'cmTC_474ca.'
+         /usr/libexec/gcc/x86_64-linux-gnu/13/collect2 -plugin /usr/libexec/gcc/x86_64-linux-gnu/13/liblto_plugin.so -plugin-opt=/usr/libexec/gcc/x86_64-linux-gnu/13/lto-wrapper -plugin-opt=-fresolution=/tmp/cc2851lC.res -plugin-opt=-pass-through=-lgcc_s -plugin-opt=-pass-through=-lgcc -plugin-opt=-pass-through=-lc -plugin-opt=-pass-through=-lgcc_s -plugin-opt=-pass-through=-lgcc --build-id --eh-frame-hdr -m elf_x86_64 --hash-style=gnu --as-needed -export-dynamic -dynamic-linker /lib64/ld-linux-x86-64.so.2 -pie -z now -z relro -o cmTC_474ca /usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/Scrt1.o /usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crti.o /usr/lib/gcc/x86_64-linux-gnu/13/crtbeginS.o -L/usr/lib/gcc/x86_64-linux-gnu/13 -L/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu -L/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib -L/lib/x86_64-linux-gnu -L/lib/../lib -L/usr/lib/x86_64-linux-gnu -L/usr/lib/../lib -L/usr/lib/gcc/x86_64-linux-gnu/13/../../.. CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.o -lstdc++ -lm -lgcc_s -lgcc -lc -lgcc_s -lgcc /usr/lib/gcc/x86_64-linux-gnu/13/crtendS.o /usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crtn.o
+        COLLECT_GCC_OPTIONS='-v' '-rdynamic' '-o' 'cmTC_474ca' '-shared-libgcc' '-mtune=generic' '-march=x86-64' '-dumpdir' 'cmTC_474ca.'
+        
+      exitCode: 0
+  -
+    kind: "message-v1"
+    backtrace:
+      - "/usr/share/cmake-3.28/Modules/CMakeDetermineCompilerABI.cmake:127 (message)"
+      - "/usr/share/cmake-3.28/Modules/CMakeTestCXXCompiler.cmake:26 (CMAKE_DETERMINE_COMPILER_ABI)"
+      - "CMakeLists.txt:1 (PROJECT)"
+    message: |
+      Parsed CXX implicit include dir info: rv=done
+        found start of include info
+        found start of implicit include info
+          add: [/usr/include/c++/13]
+          add: [/usr/include/x86_64-linux-gnu/c++/13]
+          add: [/usr/include/c++/13/backward]
+          add: [/usr/lib/gcc/x86_64-linux-gnu/13/include]
+          add: [/usr/local/include]
+          add: [/usr/include/x86_64-linux-gnu]
+          add: [/usr/include]
+        end of search list found
+        collapse include dir [/usr/include/c++/13] ==> [/usr/include/c++/13]
+        collapse include dir [/usr/include/x86_64-linux-gnu/c++/13] ==> [/usr/include/x86_64-linux-gnu/c++/13]
+        collapse include dir [/usr/include/c++/13/backward] ==> [/usr/include/c++/13/backward]
+        collapse include dir [/usr/lib/gcc/x86_64-linux-gnu/13/include] ==> [/usr/lib/gcc/x86_64-linux-gnu/13/include]
+        collapse include dir [/usr/local/include] ==> [/usr/local/include]
+        collapse include dir [/usr/include/x86_64-linux-gnu] ==> [/usr/include/x86_64-linux-gnu]
+        collapse include dir [/usr/include] ==> [/usr/include]
+        implicit include dirs: [/usr/include/c++/13;/usr/include/x86_64-linux-gnu/c++/13;/usr/include/c++/13/backward;/usr/lib/gcc/x86_64-linux-gnu/13/include;/usr/local/include;/usr/include/x86_64-linux-gnu;/usr/include]
+      
+      
+  -
+    kind: "message-v1"
+    backtrace:
+      - "/usr/share/cmake-3.28/Modules/CMakeDetermineCompilerABI.cmake:159 (message)"
+      - "/usr/share/cmake-3.28/Modules/CMakeTestCXXCompiler.cmake:26 (CMAKE_DETERMINE_COMPILER_ABI)"
+      - "CMakeLists.txt:1 (PROJECT)"
+    message: |
+      Parsed CXX implicit link information:
+        link line regex: [^( *|.*[/\\])(ld|CMAKE_LINK_STARTFILE-NOTFOUND|([^/\\]+-)?ld|collect2)[^/\\]*( |$)]
+        ignore line: [Change Dir: '/tmp/w/fx/b/CMakeFiles/CMakeScratch/TryCompile-QefZpr']
+        ignore line: []
+        ignore line: [Run Build Command(s): /usr/bin/ninja -v cmTC_474ca]
+        ignore line: [[1/2] /usr/bin/c++   -v -o CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.o -c /usr/share/cmake-3.28/Modules/CMakeCXXCompilerABI.cpp]
+        ignore line: [Using built-in specs.]
+        ignore line: [COLLECT_GCC=/usr/bin/c++]
+        ignore line: [OFFLOAD_TARGET_NAMES=nvptx-none:amdgcn-amdhsa]
+        ignore line: [OFFLOAD_TARGET_DEFAULT=1]
+        ignore line: [Target: x86_64-linux-gnu]
+        ignore line: [Configured with: ../src/configure -v --with-pkgversion='Ubuntu 13.3.0-6ubuntu2~24.04.1' --with-bugurl=file:///usr/share/doc/gcc-13/README.Bugs --enable-languages=c ada c++ go d fortran objc obj-c++ m2 --prefix=/usr --with-gcc-major-version-only --program-suffix=-13 --program-prefix=x86_64-linux-gnu- --enable-shared --enable-linker-build-id --libexecdir=/usr/libexec --without-included-gettext --enable-threads=posix --libdir=/usr/lib --enable-nls --enable-bootstrap --enable-clocale=gnu --enable-libstdcxx-debug --enable-libstdcxx-time=yes --with-default-libstdcxx-abi=new --enable-libstdcxx-backtrace --enable-gnu-unique-object --disable-vtable-verify --enable-plugin --enable-default-pie --with-system-zlib --enable-libphobos-checking=release --with-target-system-zlib=auto --enable-objc-gc=auto --enable-multiarch --disable-werror --enable-cet --with-arch-32=i686 --with-abi=m64 --with-multilib-list=m32 m64 mx32 --enable-multilib --with-tune=generic --enable-offload-targets=nvptx-none=/build/gcc-13-EldibY/gcc-13-13.3.0/debian/tmp-nvptx/usr amdgcn-amdhsa=/build/gcc-13-EldibY/gcc-13-13.3.0/debian/tmp-gcn/usr --enable-offload-defaulted --without-cuda-driver --enable-checking=release --build=x86_64-linux-gnu --host=x86_64-linux-gnu --target=x86_64-linux-gnu --with-build-config=bootstrap-lto-lean --enable-link-serialization=2]
+        ignore line: [Thread model: posix]
+        ignore line: [Supported LTO compression algorithms: zlib zstd]
+        ignore line: [gcc version 13.3.0 (Ubuntu 13.3.0-6ubuntu2~24.04.1) ]
+        ignore line: [COLLECT_GCC_OPTIONS='-v' '-o' 'CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.o' '-c' '-shared-libgcc' '-mtune=generic' '-march=x86-64' '-dumpdir' 'CMakeFiles/cmTC_474ca.dir/']
+        ignore line: [ /usr/libexec/gcc/x86_64-linux-gnu/13/cc1plus -quiet -v -imultiarch x86_64-linux-gnu -D_GNU_SOURCE /usr/share/cmake-3.28/Modules/CMakeCXXCompilerABI.cpp -quiet -dumpdir CMakeFiles/cmTC_474ca.dir/ -dumpbase CMakeCXXCompilerABI.cpp.cpp -dumpbase-ext .cpp -mtune=generic -march=x86-64 -version -fasynchronous-unwind-tables -fstack-protector-strong -Wformat -Wformat-security -fstack-clash-protection -fcf-protection -o /tmp/ccwUnHwv.s]
+        ignore line: [GNU C++17 (Ubuntu 13.3.0-6ubuntu2~24.04.1) version 13.3.0 (x86_64-linux-gnu)]
+        ignore line: [	compiled by GNU C version 13.3.0  GMP version 6.3.0  MPFR version 4.2.1  MPC version 1.3.1  isl version isl-0.26-GMP]
+        ignore line: []
+        ignore line: [GGC heuristics: --param ggc-min-expand=100 --param ggc-min-heapsize=131072]
+        ignore line: [ignoring duplicate directory "/usr/include/x86_64-linux-gnu/c++/13"]
+        ignore line: [ignoring nonexistent directory "/usr/local/include/x86_64-linux-gnu"]
+        ignore line: [ignoring nonexistent directory "/usr/lib/gcc/x86_64-linux-gnu/13/include-fixed/x86_64-linux-gnu"]
+        ignore line: [ignoring nonexistent directory "/usr/lib/gcc/x86_64-linux-gnu/13/include-fixed"]
+        ignore line: [ignoring nonexistent directory "/usr/lib/gcc/x86_64-linux-gnu/13/../../../../x86_64-linux-gnu/include"]
+        ignore line: [#include "..." search starts here:]
+        ignore line: [#include <...> search starts here:]
+        ignore line: [ /usr/include/c++/13]
+        ignore line: [ /usr/include/x86_64-linux-gnu/c++/13]
+        ignore line: [ /usr/include/c++/13/backward]
+        ignore line: [ /usr/lib/gcc/x86_64-linux-gnu/13/include]
+        ignore line: [ /usr/local/include]
+        ignore line: [ /usr/include/x86_64-linux-gnu]
+        ignore line: [ /usr/include]
+        ignore line: [End of search list.]
+        ignore line: [Compiler executable checksum: 7896445e4990772fdae9dc0659a99266]
+        ignore line: [COLLECT_GCC_OPTIONS='-v' '-o' 'CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.o' '-c' '-shared-libgcc' '-mtune=generic' '-march=x86-64' '-dumpdir' 'CMakeFiles/cmTC_474ca.dir/']
+        ignore line: [ as -v --64 -o CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.o /tmp/ccwUnHwv.s]
+        ignore line: [GNU assembler version 2.42 (x86_64-linux-gnu) using BFD version (GNU Binutils for Ubuntu) 2.42]
+        ignore line: [COMPILER_PATH=/usr/libexec/gcc/x86_64-linux-gnu/13/:/usr/libexec/gcc/x86_64-linux-gnu/13/:/usr/libexec/gcc/x86_64-linux-gnu/:/usr/lib/gcc/x86_64-linux-gnu/13/:/usr/lib/gcc/x86_64-linux-gnu/]
+        ignore line: [LIBRARY_PATH=/usr/lib/gcc/x86_64-linux-gnu/13/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib/:/lib/x86_64-linux-gnu/:/lib/../lib/:/usr/lib/x86_64-linux-gnu/:/usr/lib/../lib/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../:/lib/:/usr/lib/]
+        ignore line: [COLLECT_GCC_OPTIONS='-v' '-o' 'CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.o' '-c' '-shared-libgcc' '-mtune=generic' '-march=x86-64' '-dumpdir' 'CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.']
+        ignore line: [[2/2] : && /usr/bin/c++  -v  -rdynamic CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.o -o cmTC_474ca   && :]
+        ignore line: [Using built-in specs.]
+        ignore line: [COLLECT_GCC=/usr/bin/c++]
+        ignore line: [COLLECT_LTO_WRAPPER=/usr/libexec/gcc/x86_64-linux-gnu/13/lto-wrapper]
+        ignore line: [OFFLOAD_TARGET_NAMES=nvptx-none:amdgcn-amdhsa]
+        ignore line: [OFFLOAD_TARGET_DEFAULT=1]
+        ignore line: [Target: x86_64-linux-gnu]
+        ignore line: [Configured with: ../src/configure -v --with-pkgversion='Ubuntu 13.3.0-6ubuntu2~24.04.1' --with-bugurl=file:///usr/share/doc/gcc-13/README.Bugs --enable-languages=c ada c++ go d fortran objc obj-c++ m2 --prefix=/usr --with-gcc-major-version-only --program-suffix=-13 --program-prefix=x86_64-linux-gnu- --enable-shared --enable-linker-build-id --libexecdir=/usr/libexec --without-included-gettext --enable-threads=posix --libdir=/usr/lib --enable-nls --enable-bootstrap --enable-clocale=gnu --enable-libstdcxx-debug --enable-libstdcxx-time=yes --with-default-libstdcxx-abi=new --enable-libstdcxx-backtrace --enable-gnu-unique-object --disable-vtable-verify --enable-plugin --enable-default-pie --with-system-zlib --enable-libphobos-checking=release --with-target-system-zlib=auto --enable-objc-gc=auto --enable-multiarch --disable-werror --enable-cet --with-arch-32=i686 --with-abi=m64 --with-multilib-list=m32 m64 mx32 --enable-multilib --with-tune=generic --enable-offload-targets=nvptx-none=/build/gcc-13-EldibY/gcc-13-13.3.0/debian/tmp-nvptx/usr amdgcn-amdhsa=/build/gcc-13-EldibY/gcc-13-13.3.0/debian/tmp-gcn/usr --enable-offload-defaulted --without-cuda-driver --enable-checking=release --build=x86_64-linux-gnu --host=x86_64-linux-gnu --target=x86_64-linux-gnu --with-build-config=bootstrap-lto-lean --enable-link-serialization=2]
+        ignore line: [Thread model: posix]
+        ignore line: [Supported LTO compression algorithms: zlib zstd]
+        ignore line: [gcc version 13.3.0 (Ubuntu 13.3.0-6ubuntu2~24.04.1) ]
+        ignore line: [COMPILER_PATH=/usr/libexec/gcc/x86_64-linux-gnu/13/:/usr/libexec/gcc/x86_64-linux-gnu/13/:/usr/libexec/gcc/x86_64-linux-gnu/:/usr/lib/gcc/x86_64-linux-gnu/13/:/usr/lib/gcc/x86_64-linux-gnu/]
+        ignore line: [LIBRARY_PATH=/usr/lib/gcc/x86_64-linux-gnu/13/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib/:/lib/x86_64-linux-gnu/:/lib/../lib/:/usr/lib/x86_64-linux-gnu/:/usr/lib/../lib/:/usr/lib/gcc/x86_64-linux-gnu/13/../../../:/lib/:/usr/lib/]
+        ignore line: [COLLECT_GCC_OPTIONS='-v' '-rdynamic' '-o' 'cmTC_474ca' '-shared-libgcc' '-mtune=generic' '-march=x86-64' '-dumpdir' 'cmTC_474ca.']
+        link line: [ /usr/libexec/gcc/x86_64-linux-gnu/13/collect2 -plugin /usr/libexec/gcc/x86_64-linux-gnu/13/liblto_plugin.so -plugin-opt=/usr/libexec/gcc/x86_64-linux-gnu/13/lto-wrapper -plugin-opt=-fresolution=/tmp/cc2851lC.res -plugin-opt=-pass-through=-lgcc_s -plugin-opt=-pass-through=-lgcc -plugin-opt=-pass-through=-lc -plugin-opt=-pass-through=-lgcc_s -plugin-opt=-pass-through=-lgcc --build-id --eh-frame-hdr -m elf_x86_64 --hash-style=gnu --as-needed -export-dynamic -dynamic-linker /lib64/ld-linux-x86-64.so.2 -pie -z now -z relro -o cmTC_474ca /usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/Scrt1.o /usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crti.o /usr/lib/gcc/x86_64-linux-gnu/13/crtbeginS.o -L/usr/lib/gcc/x86_64-linux-gnu/13 -L/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu -L/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib -L/lib/x86_64-linux-gnu -L/lib/../lib -L/usr/lib/x86_64-linux-gnu -L/usr/lib/../lib -L/usr/lib/gcc/x86_64-linux-gnu/13/../../.. CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.o -lstdc++ -lm -lgcc_s -lgcc -lc -lgcc_s -lgcc /usr/lib/gcc/x86_64-linux-gnu/13/crtendS.o /usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crtn.o]
+          arg [/usr/libexec/gcc/x86_64-linux-gnu/13/collect2] ==> ignore
+          arg [-plugin] ==> ignore
+          arg [/usr/libexec/gcc/x86_64-linux-gnu/13/liblto_plugin.so] ==> ignore
+          arg [-plugin-opt=/usr/libexec/gcc/x86_64-linux-gnu/13/lto-wrapper] ==> ignore
+          arg [-plugin-opt=-fresolution=/tmp/cc2851lC.res] ==> ignore
+          arg [-plugin-opt=-pass-through=-lgcc_s] ==> ignore
+          arg [-plugin-opt=-pass-through=-lgcc] ==> ignore
+          arg [-plugin-opt=-pass-through=-lc] ==> ignore
+          arg [-plugin-opt=-pass-through=-lgcc_s] ==> ignore
+          arg [-plugin-opt=-pass-through=-lgcc] ==> ignore
+          arg [--build-id] ==> ignore
+          arg [--eh-frame-hdr] ==> ignore
+          arg [-m] ==> ignore
+          arg [elf_x86_64] ==> ignore
+          arg [--hash-style=gnu] ==> ignore
+          arg [--as-needed] ==> ignore
+          arg [-export-dynamic] ==> ignore
+          arg [-dynamic-linker] ==> ignore
+          arg [/lib64/ld-linux-x86-64.so.2] ==> ignore
+          arg [-pie] ==> ignore
+          arg [-znow] ==> ignore
+          arg [-zrelro] ==> ignore
+          arg [-o] ==> ignore
+          arg [cmTC_474ca] ==> ignore
+          arg [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/Scrt1.o] ==> obj [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/Scrt1.o]
+          arg [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crti.o] ==> obj [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crti.o]
+          arg [/usr/lib/gcc/x86_64-linux-gnu/13/crtbeginS.o] ==> obj [/usr/lib/gcc/x86_64-linux-gnu/13/crtbeginS.o]
+          arg [-L/usr/lib/gcc/x86_64-linux-gnu/13] ==> dir [/usr/lib/gcc/x86_64-linux-gnu/13]
+          arg [-L/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu] ==> dir [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu]
+          arg [-L/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib] ==> dir [/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib]
+          arg [-L/lib/x86_64-linux-gnu] ==> dir [/lib/x86_64-linux-gnu]
+          arg [-L/lib/../lib] ==> dir [/lib/../lib]
+          arg [-L/usr/lib/x86_64-linux-gnu] ==> dir [/usr/lib/x86_64-linux-gnu]
+          arg [-L/usr/lib/../lib] ==> dir [/usr/lib/../lib]
+          arg [-L/usr/lib/gcc/x86_64-linux-gnu/13/../../..] ==> dir [/usr/lib/gcc/x86_64-linux-gnu/13/../../..]
+          arg [CMakeFiles/cmTC_474ca.dir/CMakeCXXCompilerABI.cpp.o] ==> ignore
+          arg [-lstdc++] ==> lib [stdc++]
+          arg [-lm] ==> lib [m]
+          arg [-lgcc_s] ==> lib [gcc_s]
+          arg [-lgcc] ==> lib [gcc]
+          arg [-lc] ==> lib [c]
+          arg [-lgcc_s] ==> lib [gcc_s]
+          arg [-lgcc] ==> lib [gcc]
+          arg [/usr/lib/gcc/x86_64-linux-gnu/13/crtendS.o] ==> obj [/usr/lib/gcc/x86_64-linux-gnu/13/crtendS.o]
+          arg [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crtn.o] ==> obj [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crtn.o]
+        collapse obj [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/Scrt1.o] ==> [/usr/lib/x86_64-linux-gnu/Scrt1.o]
+        collapse obj [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crti.o] ==> [/usr/lib/x86_64-linux-gnu/crti.o]
+        collapse obj [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu/crtn.o] ==> [/usr/lib/x86_64-linux-gnu/crtn.o]
+        collapse library dir [/usr/lib/gcc/x86_64-linux-gnu/13] ==> [/usr/lib/gcc/x86_64-linux-gnu/13]
+        collapse library dir [/usr/lib/gcc/x86_64-linux-gnu/13/../../../x86_64-linux-gnu] ==> [/usr/lib/x86_64-linux-gnu]
+        collapse library dir [/usr/lib/gcc/x86_64-linux-gnu/13/../../../../lib] ==> [/usr/lib]
+        collapse library dir [/lib/x86_64-linux-gnu] ==> [/lib/x86_64-linux-gnu]
+        collapse library dir [/lib/../lib] ==> [/lib]
+        collapse library dir [/usr/lib/x86_64-linux-gnu] ==> [/usr/lib/x86_64-linux-gnu]
+        collapse library dir [/usr/lib/../lib] ==> [/usr/lib]
+        collapse library dir [/usr/lib/gcc/x86_64-linux-gnu/13/../../..] ==> [/usr/lib]
+        implicit libs: [stdc++;m;gcc_s;gcc;c;gcc_s;gcc]
+        implicit objs: [/usr/lib/x86_64-linux-gnu/Scrt1.o;/usr/lib/x86_64-linux-gnu/crti.o;/usr/lib/gcc/x86_64-linux-gnu/13/crtbeginS.o;/usr/lib/gcc/x86_64-linux-gnu/13/crtendS.o;/usr/lib/x86_64-linux-gnu/crtn.o]
+        implicit dirs: [/usr/lib/gcc/x86_64-linux-gnu/13;/usr/lib/x86_64-linux-gnu;/usr/lib;/lib/x86_64-linux-gnu;/lib]
+        implicit fwks: []
+      
+      
+...
diff --git a/b/CMakeFiles/Export/90cc544b2e67d50154fb73ad0acebfde/trax-component-core-noconfig.cmake b/b/CMakeFiles/Export/90cc544b2e67d50154fb73ad0acebfde/trax-component-core-noconfig.cmake
new file mode 100644
index 0000000..3f4099f
--- /dev/null
+++ b/b/CMakeFiles/Export/90cc544b2e67d50154fb73ad0acebfde/trax-component-core-noconfig.cmake
@@ -0,0 +1,19 @@
+#----------------------------------------------------------------
+# Generated CMake target import file.
+#----------------------------------------------------------------
+
+# Commands may need to know the format version.
+set(CMAKE_IMPORT_FILE_VERSION 1)
+
+# Import target "trax" for configuration ""
+set_property(TARGET trax APPEND PROPERTY IMPORTED_CONFIGURATIONS NOCONFIG)
+set_target_properties(trax PROPERTIES
+  IMPORTED_LOCATION_NOCONFIG "${_IMPORT_PREFIX}/lib/libtrax.so.4.0.2"
+  IMPORTED_SONAME_NOCONFIG "libtrax.so.4"
+  )
+
+list(APPEND _cmake_import_check_targets trax )
+list(APPEND _cmake_import_check_files_for_trax "${_IMPORT_PREFIX}/lib/libtrax.so.4.0.2" )
+
+# Commands beyond this point should not need to know the version.
+set(CMAKE_IMPORT_FILE_VERSION)
diff --git a/b/CMakeFiles/Export/90cc544b2e67d50154fb73ad0acebfde/trax-component-core.cmake b/b/CMakeFiles/Export/90cc544b2e67d50154fb73ad0acebfde/trax-component-core.cmake
new file mode 100644
index 0000000..6c72603
--- /dev/null
+++ b/b/CMakeFiles/Export/90cc544b2e67d50154fb73ad0acebfde/trax-component-core.cmake
@@ -0,0 +1,106 @@
+# Generated by CMake
+
+if("${CMAKE_MAJOR_VERSION}.${CMAKE_MINOR_VERSION}" LESS 2.8)
+   message(FATAL_ERROR "CMake >= 2.8.0 required")
+endif()
+if(CMAKE_VERSION VERSION_LESS "2.8.3")
+   message(FATAL_ERROR "CMake >= 2.8.3 required")
+endif()
+cmake_policy(PUSH)
+cmake_policy(VERSION 2.8.3...3.26)
+#----------------------------------------------------------------
+# Generated CMake target import file.
+#----------------------------------------------------------------
+
+# Commands may need to know the format version.
+set(CMAKE_IMPORT_FILE_VERSION 1)
+
+# Protect against multiple inclusion, which would fail when already imported targets are added once more.
+set(_cmake_targets_defined "")
+set(_cmake_targets_not_defined "")
+set(_cmake_expected_targets "")
+foreach(_cmake_expected_target IN ITEMS trax)
+  list(APPEND _cmake_expected_targets "${_cmake_expected_target}")
+  if(TARGET "${_cmake_expected_target}")
+    list(APPEND _cmake_targets_defined "${_cmake_expected_target}")
+  else()
+    list(APPEND _cmake_targets_not_defined "${_cmake_expected_target}")
+  endif()
+endforeach()
+unset(_cmake_expected_target)
+if(_cmake_targets_defined STREQUAL _cmake_expected_targets)
+  unset(_cmake_targets_defined)
+  unset(_cmake_targets_not_defined)
+  unset(_cmake_expected_targets)
+  unset(CMAKE_IMPORT_FILE_VERSION)
+  cmake_policy(POP)
+  return()
+endif()
+if(NOT _cmake_targets_defined STREQUAL "")
+  string(REPLACE ";" ", " _cmake_targets_defined_text "${_cmake_targets_defined}")
+  string(REPLACE ";" ", " _cmake_targets_not_defined_text "${_cmake_targets_not_defined}")
+  message(FATAL_ERROR "Some (but not all) targets in this export set were already defined.\nTargets Defined: ${_cmake_targets_defined_text}\nTargets not yet defined: ${_cmake_targets_not_defined_text}\n")
+endif()
+unset(_cmake_targets_defined)
+unset(_cmake_targets_not_defined)
+unset(_cmake_expected_targets)
+
+
+# Compute the installation prefix relative to this file.
+get_filename_component(_IMPORT_PREFIX "${CMAKE_CURRENT_LIST_FILE}" PATH)
+get_filename_component(_IMPORT_PREFIX "${_IMPORT_PREFIX}" PATH)
+get_filename_component(_IMPORT_PREFIX "${_IMPORT_PREFIX}" PATH)
+get_filename_component(_IMPORT_PREFIX "${_IMPORT_PREFIX}" PATH)
+if(_IMPORT_PREFIX STREQUAL "/")
+  set(_IMPORT_PREFIX "")
+endif()
+
+# Create imported target trax
+add_library(trax SHARED IMPORTED)
+
+set_target_properties(trax PROPERTIES
+  INTERFACE_LINK_LIBRARIES "m"
+)
+
+if(CMAKE_VERSION VERSION_LESS 2.8.12)
+  message(FATAL_ERROR "This file relies on consumers using CMake 2.8.12 or greater.")
+endif()
+
+# Load information for each installed configuration.
+file(GLOB _cmake_config_files "${CMAKE_CURRENT_LIST_DIR}/trax-component-core-*.cmake")
+foreach(_cmake_config_file IN LISTS _cmake_config_files)
+  include("${_cmake_config_file}")
+endforeach()
+unset(_cmake_config_file)
+unset(_cmake_config_files)
+
+# Cleanup temporary variables.
+set(_IMPORT_PREFIX)
+
+# Loop over all imported files and verify that they actually exist
+foreach(_cmake_target IN LISTS _cmake_import_check_targets)
+  foreach(_cmake_file IN LISTS "_cmake_import_check_files_for_${_cmake_target}")
+    if(NOT EXISTS "${_cmake_file}")
+      message(FATAL_ERROR "The imported target \"${_cmake_target}\" references the file
+   \"${_cmake_file}\"
+but this file does not exist.  Possible reasons include:
+* The file was deleted, renamed, or moved to another location.
+* An install or uninstall procedure did not complete successfully.
+* The installation package was faulty and contained
+   \"${CMAKE_CURRENT_LIST_FILE}\"
+but not all the files it references.
+")
+    endif()
+  endforeach()
+  unset(_cmake_file)
+  unset("_cmake_import_check_files_for_${_cmake_target}")
+endforeach()
+unset(_cmake_target)
+unset(_cmake_import_check_targets)
+
+# This file does not depend on other imported targets which have
+# been exported from the same project but in a separate export set.
+
+# Commands beyond this point should not need to know the version.
+set(CMAKE_IMPORT_FILE_VERSION)
+cmake_policy(POP)
diff --git a/b/CMakeFiles/TargetDirectories.txt b/b/CMakeFiles/TargetDirectories.txt
new file mode 100644
index 0000000..94a5066
--- /dev/null
+++ b/b/CMakeFiles/TargetDirectories.txt
@@ -0,0 +1,10 @@
+/tmp/w/fx/b/CMakeFiles/trax.dir
+/tmp/w/fx/b/CMakeFiles/traxstatic.dir
+/tmp/w/fx/b/CMakeFiles/package.dir
+/tmp/w/fx/b/CMakeFiles/package_source.dir
+/tmp/w/fx/b/CMakeFiles/edit_cache.dir
+/tmp/w/fx/b/CMakeFiles/rebuild_cache.dir
+/tmp/w/fx/b/CMakeFiles/list_install_components.dir
+/tmp/w/fx/b/CMakeFiles/install.dir
+/tmp/w/fx/b/CMakeFiles/install/local.dir
+/tmp/w/fx/b/CMakeFiles/install/strip.dir
diff --git a/b/CMakeFiles/cmake.check_cache b/b/CMakeFiles/cmake.check_cache
new file mode 100644
index 0000000..3dccd73
--- /dev/null
+++ b/b/CMakeFiles/cmake.check_cache
@@ -0,0 +1 @@
+# This file is generated by cmake for dependency checking of the CMakeCache.txt file
diff --git a/b/CMakeFiles/rules.ninja b/b/CMakeFiles/rules.ninja
new file mode 100644
index 0000000..c697b9f
--- /dev/null
+++ b/b/CMakeFiles/rules.ninja
@@ -0,0 +1,111 @@
+# CMAKE generated file: DO NOT EDIT!
+# Generated by "Ninja" Generator, CMake Version 3.28
+
+# This file contains all the rules used to get the outputs files
+# built from the input files.
+# It is included in the main 'build.ninja'.
+
+# =============================================================================
+# Project: trax
+# Configurations: 
+# =============================================================================
+# =============================================================================
+
+#############################################
+# Rule for compiling C files.
+
+rule C_COMPILER__trax_unscanned_
+  depfile = $DEP_FILE
+  deps = gcc
+  command = ${LAUNCHER}${CODE_CHECK}/usr/bin/cc $DEFINES $INCLUDES $FLAGS -MD -MT $out -MF $DEP_FILE -o $out -c $in
+  description = Building C object $out
+
+
+#############################################
+# Rule for compiling CXX files.
+
+rule CXX_COMPILER__trax_unscanned_
+  depfile = $DEP_FILE
+  deps = gcc
+  command = ${LAUNCHER}${CODE_CHECK}/usr/bin/c++ $DEFINES $INCLUDES $FLAGS -MD -MT $out -MF $DEP_FILE -o $out -c $in
+  description = Building CXX object $out
+
+
+#############################################
+# Rule for linking CXX shared library.
+
+rule CXX_SHARED_LIBRARY_LINKER__trax_
+  command = $PRE_LINK && /usr/bin/c++ -fPIC $LANGUAGE_COMPILE_FLAGS $ARCH_FLAGS $LINK_FLAGS -shared $SONAME_FLAG$SONAME -o $TARGET_FILE $in $LINK_PATH $LINK_LIBRARIES && $POST_BUILD
+  description = Linking CXX shared library $TARGET_FILE
+  restat = $RESTAT
+
+
+#############################################
+# Rule for creating library symlink.
+
+rule CMAKE_SYMLINK_LIBRARY
+  command = /usr/bin/cmake -E cmake_symlink_library $in $SONAME $out && $POST_BUILD
+  description = Creating library symlink $out
+
+
+#############################################
+# Rule for compiling C files.
+
+rule C_COMPILER__traxstatic_unscanned_
+  depfile = $DEP_FILE
+  deps = gcc
+  command = ${LAUNCHER}${CODE_CHECK}/usr/bin/cc $DEFINES $INCLUDES $FLAGS -MD -MT $out -MF $DEP_FILE -o $out -c $in
+  description = Building C object $out
+
+
+#############################################
+# Rule for compiling CXX files.
+
+rule CXX_COMPILER__traxstatic_unscanned_
+  depfile = $DEP_FILE
+  deps = gcc
+  command = ${LAUNCHER}${CODE_CHECK}/usr/bin/c++ $DEFINES $INCLUDES $FLAGS -MD -MT $out -MF $DEP_FILE -o $out -c $in
+  description = Building CXX object $out
+
+
+#############################################
+# Rule for linking CXX static library.
+
+rule CXX_STATIC_LIBRARY_LINKER__traxstatic_
+  command = $PRE_LINK && /usr/bin/cmake -E rm -f $TARGET_FILE && /usr/bin/ar qc $TARGET_FILE $LINK_FLAGS $in && /usr/bin/ranlib $TARGET_FILE && $POST_BUILD
+  description = Linking CXX static library $TARGET_FILE
+  restat = $RESTAT
+
+
+#############################################
+# Rule for running custom commands.
+
+rule CUSTOM_COMMAND
+  command = $COMMAND
+  description = $DESC
+
+
+#############################################
+# Rule for re-running cmake.
+
+rule RERUN_CMAKE
+  command = /usr/bin/cmake --regenerate-during-build -S/tmp/w/fx -B/tmp/w/fx/b
+  description = Re-running CMake...
+  generator = 1
+
+
+#############################################
+# Rule for cleaning all built files.
+
+rule CLEAN
+  command = /usr/bin/ninja $FILE_ARG -t clean $TARGETS
+  description = Cleaning all built files...
+
+
+#############################################
+# Rule for printing all primary targets available.
+
+rule HELP
+  command = /usr/bin/ninja -t targets
+  description = All primary targets available:
+
diff --git a/b/CPackConfig.cmake b/b/CPackConfig.cmake
new file mode 100644
index 0000000..04e1599
--- /dev/null
+++ b/b/CPackConfig.cmake
@@ -0,0 +1,73 @@
+# This file will be configured to contain variables for CPack. These variables
+# should be set in the CMake list file of the project before CPack module is
+# included. The list of available CPACK_xxx variables and their associated
+# documentation may be obtained using
+#  cpack --help-variable-list
+#
+# Some variables are common to all generators (e.g. CPACK_PACKAGE_NAME)
+# and some are specific to a generator
+# (e.g. CPACK_NSIS_EXTRA_INSTALL_COMMANDS). The generator specific variables
+# usually begin with CPACK_<GENNAME>_xxxx.
+
+
+set(CPACK_BUILD_SOURCE_DIRS "/tmp/w/fx;/tmp/w/fx/b")
+set(CPACK_CMAKE_GENERATOR "Ninja")
+set(CPACK_COMPONENT_UNSPECIFIED_HIDDEN "TRUE")
+set(CPACK_COMPONENT_UNSPECIFIED_REQUIRED "TRUE")
+set(CPACK_DEBIAN_PACKAGE_DEPENDS "")
+set(CPACK_DEBIAN_PACKAGE_MAINTAINER "Luka Cehovin Zajc <luka.cehovin@fri.uni-lj.si>")
+set(CPACK_DEFAULT_PACKAGE_DESCRIPTION_FILE "/usr/share/cmake-3.28/Templates/CPack.GenericDescription.txt")
+set(CPACK_DEFAULT_PACKAGE_DESCRIPTION_SUMMARY "trax built using CMake")
+set(CPACK_GENERATOR "ZIP")
+set(CPACK_INNOSETUP_ARCHITECTURE "x64")
+set(CPACK_INSTALL_CMAKE_PROJECTS "/tmp/w/fx/b;trax;ALL;/")
+set(CPACK_INSTALL_PREFIX "")
+set(CPACK_MODULE_PATH "")
+set(CPACK_NSIS_DISPLAY_NAME "trax 4.0.2")
+set(CPACK_NSIS_INSTALLER_ICON_CODE "")
+set(CPACK_NSIS_INSTALLER_MUI_ICON_CODE "")
+set(CPACK_NSIS_INSTALL_ROOT "$PROGRAMFILES")
+set(CPACK_NSIS_PACKAGE_NAME "trax 4.0.2")
+set(CPACK_NSIS_UNINSTALL_NAME "Uninstall")
+set(CPACK_OBJCOPY_EXECUTABLE "/usr/bin/objcopy")
+set(CPACK_OBJDUMP_EXECUTABLE "/usr/bin/objdump")
+set(CPACK_OUTPUT_CONFIG_FILE "/tmp/w/fx/b/CPackConfig.cmake")
+set(CPACK_PACKAGE_CONTACT "Luka Cehovin Zajc <luka.cehovin@fri.uni-lj.si>")
+set(CPACK_PACKAGE_DEFAULT_LOCATION "/")
+set(CPACK_PACKAGE_DESCRIPTION_FILE "/usr/share/cmake-3.28/Templates/CPack.GenericDescription.txt")
+set(CPACK_PACKAGE_DESCRIPTION_SUMMARY "trax built using CMake")
+set(CPACK_PACKAGE_FILE_NAME "trax-4.0.2")
+set(CPACK_PACKAGE_INSTALL_DIRECTORY "trax 4.0.2")
+set(CPACK_PACKAGE_INSTALL_REGISTRY_KEY "trax 4.0.2")
+set(CPACK_PACKAGE_NAME "trax")
+set(CPACK_PACKAGE_RELOCATABLE "true")
+set(CPACK_PACKAGE_VENDOR "Luka Cehovin Zajc and VOT Innitiative")
+set(CPACK_PACKAGE_VERSION "4.0.2")
+set(CPACK_PACKAGE_VERSION_MAJOR "4")
+set(CPACK_PACKAGE_VERSION_MINOR "0")
+set(CPACK_PACKAGE_VERSION_PATCH "2")
+set(CPACK_READELF_EXECUTABLE "/usr/bin/readelf")
+set(CPACK_RESOURCE_FILE_LICENSE "/usr/share/cmake-3.28/Templates/CPack.GenericLicense.txt")
+set(CPACK_RESOURCE_FILE_README "/tmp/w/fx/README.md")
+set(CPACK_RESOURCE_FILE_WELCOME "/usr/share/cmake-3.28/Templates/CPack.GenericWelcome.txt")
+set(CPACK_SET_DESTDIR "1")
+set(CPACK_SOURCE_GENERATOR "TBZ2;TGZ;TXZ;TZ")
+set(CPACK_SOURCE_OUTPUT_CONFIG_FILE "/tmp/w/fx/b/CPackSourceConfig.cmake")
+set(CPACK_SOURCE_RPM "OFF")
+set(CPACK_SOURCE_TBZ2 "ON")
+set(CPACK_SOURCE_TGZ "ON")
+set(CPACK_SOURCE_TXZ "ON")
+set(CPACK_SOURCE_TZ "ON")
+set(CPACK_SOURCE_ZIP "OFF")
+set(CPACK_SYSTEM_NAME "Linux")
+set(CPACK_THREADS "1")
+set(CPACK_TOPLEVEL_TAG "Linux")
+set(CPACK_WIX_SIZEOF_VOID_P "8")
+
+if(NOT CPACK_PROPERTIES_FILE)
+  set(CPACK_PROPERTIES_FILE "/tmp/w/fx/b/CPackProperties.cmake")
+endif()
+
+if(EXISTS ${CPACK_PROPERTIES_FILE})
+  include(${CPACK_PROPERTIES_FILE})
+endif()
diff --git a/b/CPackSourceConfig.cmake b/b/CPackSourceConfig.cmake
new file mode 100644
index 0000000..771fd53
--- /dev/null
+++ b/b/CPackSourceConfig.cmake
@@ -0,0 +1,81 @@
+# This file will be configured to contain variables for CPack. These variables
+# should be set in the CMake list file of the project before CPack module is
+# included. The list of available CPACK_xxx variables and their associated
+# documentation may be obtained using
+#  cpack --help-variable-list
+#
+# Some variables are common to all generators (e.g. CPACK_PACKAGE_NAME)
+# and some are specific to a generator
+# (e.g. CPACK_NSIS_EXTRA_INSTALL_COMMANDS). The generator specific variables
+# usually begin with CPACK_<GENNAME>_xxxx.
+
+
+set(CPACK_BUILD_SOURCE_DIRS "/tmp/w/fx;/tmp/w/fx/b")
+set(CPACK_CMAKE_GENERATOR "Ninja")
+set(CPACK_COMPONENT_UNSPECIFIED_HIDDEN "TRUE")
+set(CPACK_COMPONENT_UNSPECIFIED_REQUIRED "TRUE")
+set(CPACK_DEBIAN_PACKAGE_DEPENDS "")
+set(CPACK_DEBIAN_PACKAGE_MAINTAINER "Luka Cehovin Zajc <luka.cehovin@fri.uni-lj.si>")
+set(CPACK_DEFAULT_PACKAGE_DESCRIPTION_FILE "/usr/share/cmake-3.28/Templates/CPack.GenericDescription.txt")
+set(CPACK_DEFAULT_PACKAGE_DESCRIPTION_SUMMARY "trax built using CMake")
+set(CPACK_GENERATOR "TBZ2;TGZ;TXZ;TZ")
+set(CPACK_IGNORE_FILES "/CVS/;/\\.svn/;/\\.bzr/;/\\.hg/;/\\.git/;\\.swp\$;\\.#;/#")
+set(CPACK_INNOSETUP_ARCHITECTURE "x64")
+set(CPACK_INSTALLED_DIRECTORIES "/tmp/w/fx;/")
+set(CPACK_INSTALL_CMAKE_PROJECTS "")
+set(CPACK_INSTALL_PREFIX "")
+set(CPACK_MODULE_PATH "")
+set(CPACK_NSIS_DISPLAY_NAME "trax 4.0.2")
+set(CPACK_NSIS_INSTALLER_ICON_CODE "")
+set(CPACK_NSIS_INSTALLER_MUI_ICON_CODE "")
+set(CPACK_NSIS_INSTALL_ROOT "$PROGRAMFILES")
+set(CPACK_NSIS_PACKAGE_NAME "trax 4.0.2")
+set(CPACK_NSIS_UNINSTALL_NAME "Uninstall")
+set(CPACK_OBJCOPY_EXECUTABLE "/usr/bin/objcopy")
+set(CPACK_OBJDUMP_EXECUTABLE "/usr/bin/objdump")
+set(CPACK_OUTPUT_CONFIG_FILE "/tmp/w/fx/b/CPackConfig.cmake")
+set(CPACK_PACKAGE_CONTACT "Luka Cehovin Zajc <luka.cehovin@fri.uni-lj.si>")
+set(CPACK_PACKAGE_DEFAULT_LOCATION "/")
+set(CPACK_PACKAGE_DESCRIPTION_FILE "/usr/share/cmake-3.28/Templates/CPack.GenericDescription.txt")
+set(CPACK_PACKAGE_DESCRIPTION_SUMMARY "trax built using CMake")
+set(CPACK_PACKAGE_FILE_NAME "trax-4.0.2-Source")
+set(CPACK_PACKAGE_INSTALL_DIRECTORY "trax 4.0.2")
+set(CPACK_PACKAGE_INSTALL_REGISTRY_KEY "trax 4.0.2")
+set(CPACK_PACKAGE_NAME "trax")
+set(CPACK_PACKAGE_RELOCATABLE "true")
+set(CPACK_PACKAGE_VENDOR "Luka Cehovin Zajc and VOT Innitiative")
+set(CPACK_PACKAGE_VERSION "4.0.2")
+set(CPACK_PACKAGE_VERSION_MAJOR "4")
+set(CPACK_PACKAGE_VERSION_MINOR "0")
+set(CPACK_PACKAGE_VERSION_PATCH "2")
+set(CPACK_READELF_EXECUTABLE "/usr/bin/readelf")
+set(CPACK_RESOURCE_FILE_LICENSE "/usr/share/cmake-3.28/Templates/CPack.GenericLicense.txt")
+set(CPACK_RESOURCE_FILE_README "/tmp/w/fx/README.md")
+set(CPACK_RESOURCE_FILE_WELCOME "/usr/share/cmake-3.28/Templates/CPack.GenericWelcome.txt")
+set(CPACK_RPM_PACKAGE_SOURCES "ON")
+set(CPACK_SET_DESTDIR "1")
+set(CPACK_SOURCE_GENERATOR "TBZ2;TGZ;TXZ;TZ")
+set(CPACK_SOURCE_IGNORE_FILES "/CVS/;/\\.svn/;/\\.bzr/;/\\.hg/;/\\.git/;\\.swp\$;\\.#;/#")
+set(CPACK_SOURCE_INSTALLED_DIRECTORIES "/tmp/w/fx;/")
+set(CPACK_SOURCE_OUTPUT_CONFIG_FILE "/tmp/w/fx/b/CPackSourceConfig.cmake")
+set(CPACK_SOURCE_PACKAGE_FILE_NAME "trax-4.0.2-Source")
+set(CPACK_SOURCE_RPM "OFF")
+set(CPACK_SOURCE_TBZ2 "ON")
+set(CPACK_SOURCE_TGZ "ON")
+set(CPACK_SOURCE_TOPLEVEL_TAG "Linux-Source")
+set(CPACK_SOURCE_TXZ "ON")
+set(CPACK_SOURCE_TZ "ON")
+set(CPACK_SOURCE_ZIP "OFF")
+set(CPACK_STRIP_FILES "")
+set(CPACK_SYSTEM_NAME "Linux")
+set(CPACK_THREADS "1")
+set(CPACK_TOPLEVEL_TAG "Linux-Source")
+set(CPACK_WIX_SIZEOF_VOID_P "8")
+
+if(NOT CPACK_PROPERTIES_FILE)
+  set(CPACK_PROPERTIES_FILE "/tmp/w/fx/b/CPackProperties.cmake")
+endif()
+
+if(EXISTS ${CPACK_PROPERTIES_FILE})
+  include(${CPACK_PROPERTIES_FILE})
+endif()
diff --git a/b/build.ninja b/b/build.ninja
new file mode 100644
index 0000000..9ffd666
--- /dev/null
+++ b/b/build.ninja
@@ -0,0 +1,384 @@
+# CMAKE generated file: DO NOT EDIT!
+# Generated by "Ninja" Generator, CMake Version 3.28
+
+# This file contains all the build statements describing the
+# compilation DAG.
+
+# =============================================================================
+# Write statements declared in CMakeLists.txt:
+# 
+# Which is the root file.
+# =============================================================================
+
+# =============================================================================
+# Project: trax
+# Configurations: 
+# =============================================================================
+
+#############################################
+# Minimal version of Ninja required by this file
+
+ninja_required_version = 1.5
+
+# =============================================================================
+# Include auxiliary files.
+
+
+#############################################
+# Include rules file.
+
+include CMakeFiles/rules.ninja
+
+# =============================================================================
+
+#############################################
+# Logical path to working directory; prefix for absolute paths.
+
+cmake_ninja_workdir = /tmp/w/fx/b/
+# =============================================================================
+# Object build statements for SHARED_LIBRARY target trax
+
+
+#############################################
+# Order-only phony target for trax
+
+build cmake_object_order_depends_target_trax: phony || CMakeFiles/trax.dir
+
+build CMakeFiles/trax.dir/src/trax.c.o: C_COMPILER__trax_unscanned_ /tmp/w/fx/src/trax.c || cmake_object_order_depends_target_trax
+  DEFINES = -DTRAX_BUILD_DATE=\"2026-11-20\" -DTRAX_BUILD_VERSION=\"4.0.2\" -Dtrax_EXPORTS
+  DEP_FILE = CMakeFiles/trax.dir/src/trax.c.o.d
+  FLAGS = -fPIC
+  INCLUDES = -I/tmp/w/fx/include -I/tmp/w/fx/src
+  OBJECT_DIR = CMakeFiles/trax.dir
+  OBJECT_FILE_DIR = CMakeFiles/trax.dir/src
+  TARGET_COMPILE_PDB = CMakeFiles/trax.dir/
+  TARGET_PDB = libtrax.pdb
+
+build CMakeFiles/trax.dir/src/region.c.o: C_COMPILER__trax_unscanned_ /tmp/w/fx/src/region.c || cmake_object_order_depends_target_trax
+  DEFINES = -DTRAX_BUILD_DATE=\"2026-11-20\" -DTRAX_BUILD_VERSION=\"4.0.2\" -Dtrax_EXPORTS
+  DEP_FILE = CMakeFiles/trax.dir/src/region.c.o.d
+  FLAGS = -fPIC
+  INCLUDES = -I/tmp/w/fx/include -I/tmp/w/fx/src
+  OBJECT_DIR = CMakeFiles/trax.dir
+  OBJECT_FILE_DIR = CMakeFiles/trax.dir/src
+  TARGET_COMPILE_PDB = CMakeFiles/trax.dir/
+  TARGET_PDB = libtrax.pdb
+
+build CMakeFiles/trax.dir/src/strmap.c.o: C_COMPILER__trax_unscanned_ /tmp/w/fx/src/strmap.c || cmake_object_order_depends_target_trax
+  DEFINES = -DTRAX_BUILD_DATE=\"2026-11-20\" -DTRAX_BUILD_VERSION=\"4.0.2\" -Dtrax_EXPORTS
+  DEP_FILE = CMakeFiles/trax.dir/src/strmap.c.o.d
+  FLAGS = -fPIC
+  INCLUDES = -I/tmp/w/fx/include -I/tmp/w/fx/src
+  OBJECT_DIR = CMakeFiles/trax.dir
+  OBJECT_FILE_DIR = CMakeFiles/trax.dir/src
+  TARGET_COMPILE_PDB = CMakeFiles/trax.dir/
+  TARGET_PDB = libtrax.pdb
+
+build CMakeFiles/trax.dir/src/message.c.o: C_COMPILER__trax_unscanned_ /tmp/w/fx/src/message.c || cmake_object_order_depends_target_trax
+  DEFINES = -DTRAX_BUILD_DATE=\"2026-11-20\" -DTRAX_BUILD_VERSION=\"4.0.2\" -Dtrax_EXPORTS
+  DEP_FILE = CMakeFiles/trax.dir/src/message.c.o.d
+  FLAGS = -fPIC
+  INCLUDES = -I/tmp/w/fx/include -I/tmp/w/fx/src
+  OBJECT_DIR = CMakeFiles/trax.dir
+  OBJECT_FILE_DIR = CMakeFiles/trax.dir/src
+  TARGET_COMPILE_PDB = CMakeFiles/trax.dir/
+  TARGET_PDB = libtrax.pdb
+
+build CMakeFiles/trax.dir/src/base64.c.o: C_COMPILER__trax_unscanned_ /tmp/w/fx/src/base64.c || cmake_object_order_depends_target_trax
+  DEFINES = -DTRAX_BUILD_DATE=\"2026-11-20\" -DTRAX_BUILD_VERSION=\"4.0.2\" -Dtrax_EXPORTS
+  DEP_FILE = CMakeFiles/trax.dir/src/base64.c.o.d
+  FLAGS = -fPIC
+  INCLUDES = -I/tmp/w/fx/include -I/tmp/w/fx/src
+  OBJECT_DIR = CMakeFiles/trax.dir
+  OBJECT_FILE_DIR = CMakeFiles/trax.dir/src
+  TARGET_COMPILE_PDB = CMakeFiles/trax.dir/
+  TARGET_PDB = libtrax.pdb
+
+build CMakeFiles/trax.dir/src/traxpp.cpp.o: CXX_COMPILER__trax_unscanned_ /tmp/w/fx/src/traxpp.cpp || cmake_object_order_depends_target_trax
+  DEFINES = -DTRAX_BUILD_DATE=\"2026-11-20\" -DTRAX_BUILD_VERSION=\"4.0.2\" -Dtrax_EXPORTS
+  DEP_FILE = CMakeFiles/trax.dir/src/traxpp.cpp.o.d
+  FLAGS = -Wall -Wno-long-long -pedantic -fPIC
+  INCLUDES = -I/tmp/w/fx/include -I/tmp/w/fx/src
+  OBJECT_DIR = CMakeFiles/trax.dir
+  OBJECT_FILE_DIR = CMakeFiles/trax.dir/src
+  TARGET_COMPILE_PDB = CMakeFiles/trax.dir/
+  TARGET_PDB = libtrax.pdb
+
+build CMakeFiles/trax.dir/src/debug.c.o: C_COMPILER__trax_unscanned_ /tmp/w/fx/src/debug.c || cmake_object_order_depends_target_trax
+  DEFINES = -DTRAX_BUILD_DATE=\"2026-11-20\" -DTRAX_BUILD_VERSION=\"4.0.2\" -Dtrax_EXPORTS
+  DEP_FILE = CMakeFiles/trax.dir/src/debug.c.o.d
+  FLAGS = -fPIC
+  INCLUDES = -I/tmp/w/fx/include -I/tmp/w/fx/src
+  OBJECT_DIR = CMakeFiles/trax.dir
+  OBJECT_FILE_DIR = CMakeFiles/trax.dir/src
+  TARGET_COMPILE_PDB = CMakeFiles/trax.dir/
+  TARGET_PDB = libtrax.pdb
+
+
+# =============================================================================
+# Link build statements for SHARED_LIBRARY target trax
+
+
+#############################################
+# Link the shared library libtrax.so.4.0.2
+
+build libtrax.so.4.0.2: CXX_SHARED_LIBRARY_LINKER__trax_ CMakeFiles/trax.dir/src/trax.c.o CMakeFiles/trax.dir/src/region.c.o CMakeFiles/trax.dir/src/strmap.c.o CMakeFiles/trax.dir/src/message.c.o CMakeFiles/trax.dir/src/base64.c.o CMakeFiles/trax.dir/src/traxpp.cpp.o CMakeFiles/trax.dir/src/debug.c.o
+  LANGUAGE_COMPILE_FLAGS = -Wall -Wno-long-long -pedantic
+  LINK_LIBRARIES = -lm
+  OBJECT_DIR = CMakeFiles/trax.dir
+  POST_BUILD = :
+  PRE_LINK = :
+  SONAME = libtrax.so.4
+  SONAME_FLAG = -Wl,-soname,
+  TARGET_COMPILE_PDB = CMakeFiles/trax.dir/
+  TARGET_FILE = libtrax.so.4.0.2
+  TARGET_IMPLIB = /tmp/w/fx/b/
+  TARGET_PDB = libtrax.pdb
+
+
+#############################################
+# Create library symlink libtrax.so
+
+build libtrax.so.4 libtrax.so: CMAKE_SYMLINK_LIBRARY libtrax.so.4.0.2
+  POST_BUILD = :
+
+# =============================================================================
+# Object build statements for STATIC_LIBRARY target traxstatic
+
+
+#############################################
+# Order-only phony target for traxstatic
+
+build cmake_object_order_depends_target_traxstatic: phony || CMakeFiles/traxstatic.dir
+
+build CMakeFiles/traxstatic.dir/src/trax.c.o: C_COMPILER__traxstatic_unscanned_ /tmp/w/fx/src/trax.c || cmake_object_order_depends_target_traxstatic
+  DEFINES = -DTRAX_BUILD_DATE=\"2026-11-20\" -DTRAX_BUILD_VERSION=\"4.0.2\"
+  DEP_FILE = CMakeFiles/traxstatic.dir/src/trax.c.o.d
+  FLAGS = -fPIC -DTRAX_STATIC_DEFINE
+  INCLUDES = -I/tmp/w/fx/include -I/tmp/w/fx/src
+  OBJECT_DIR = CMakeFiles/traxstatic.dir
+  OBJECT_FILE_DIR = CMakeFiles/traxstatic.dir/src
+  TARGET_COMPILE_PDB = CMakeFiles/traxstatic.dir/traxstatic.pdb
+  TARGET_PDB = libtraxstatic.pdb
+
+build CMakeFiles/traxstatic.dir/src/region.c.o: C_COMPILER__traxstatic_unscanned_ /tmp/w/fx/src/region.c || cmake_object_order_depends_target_traxstatic
+  DEFINES = -DTRAX_BUILD_DATE=\"2026-11-20\" -DTRAX_BUILD_VERSION=\"4.0.2\"
+  DEP_FILE = CMakeFiles/traxstatic.dir/src/region.c.o.d
+  FLAGS = -fPIC -DTRAX_STATIC_DEFINE
+  INCLUDES = -I/tmp/w/fx/include -I/tmp/w/fx/src
+  OBJECT_DIR = CMakeFiles/traxstatic.dir
+  OBJECT_FILE_DIR = CMakeFiles/traxstatic.dir/src
+  TARGET_COMPILE_PDB = CMakeFiles/traxstatic.dir/traxstatic.pdb
+  TARGET_PDB = libtraxstatic.pdb
+
+build CMakeFiles/traxstatic.dir/src/strmap.c.o: C_COMPILER__traxstatic_unscanned_ /tmp/w/fx/src/strmap.c || cmake_object_order_depends_target_traxstatic
+  DEFINES = -DTRAX_BUILD_DATE=\"2026-11-20\" -DTRAX_BUILD_VERSION=\"4.0.2\"
+  DEP_FILE = CMakeFiles/traxstatic.dir/src/strmap.c.o.d
+  FLAGS = -fPIC -DTRAX_STATIC_DEFINE
+  INCLUDES = -I/tmp/w/fx/include -I/tmp/w/fx/src
+  OBJECT_DIR = CMakeFiles/traxstatic.dir
+  OBJECT_FILE_DIR = CMakeFiles/traxstatic.dir/src
+  TARGET_COMPILE_PDB = CMakeFiles/traxstatic.dir/traxstatic.pdb
+  TARGET_PDB = libtraxstatic.pdb
+
+build CMakeFiles/traxstatic.dir/src/message.c.o: C_COMPILER__traxstatic_unscanned_ /tmp/w/fx/src/message.c || cmake_object_order_depends_target_traxstatic
+  DEFINES = -DTRAX_BUILD_DATE=\"2026-11-20\" -DTRAX_BUILD_VERSION=\"4.0.2\"
+  DEP_FILE = CMakeFiles/traxstatic.dir/src/message.c.o.d
+  FLAGS = -fPIC -DTRAX_STATIC_DEFINE
+  INCLUDES = -I/tmp/w/fx/include -I/tmp/w/fx/src
+  OBJECT_DIR = CMakeFiles/traxstatic.dir
+  OBJECT_FILE_DIR = CMakeFiles/traxstatic.dir/src
+  TARGET_COMPILE_PDB = CMakeFiles/traxstatic.dir/traxstatic.pdb
+  TARGET_PDB = libtraxstatic.pdb
+
+build CMakeFiles/traxstatic.dir/src/base64.c.o: C_COMPILER__traxstatic_unscanned_ /tmp/w/fx/src/base64.c || cmake_object_order_depends_target_traxstatic
+  DEFINES = -DTRAX_BUILD_DATE=\"2026-11-20\" -DTRAX_BUILD_VERSION=\"4.0.2\"
+  DEP_FILE = CMakeFiles/traxstatic.dir/src/base64.c.o.d
+  FLAGS = -fPIC -DTRAX_STATIC_DEFINE
+  INCLUDES = -I/tmp/w/fx/include -I/tmp/w/fx/src
+  OBJECT_DIR = CMakeFiles/traxstatic.dir
+  OBJECT_FILE_DIR = CMakeFiles/traxstatic.dir/src
+  TARGET_COMPILE_PDB = CMakeFiles/traxstatic.dir/traxstatic.pdb
+  TARGET_PDB = libtraxstatic.pdb
+
+build CMakeFiles/traxstatic.dir/src/traxpp.cpp.o: CXX_COMPILER__traxstatic_unscanned_ /tmp/w/fx/src/traxpp.cpp || cmake_object_order_depends_target_traxstatic
+  DEFINES = -DTRAX_BUILD_DATE=\"2026-11-20\" -DTRAX_BUILD_VERSION=\"4.0.2\"
+  DEP_FILE = CMakeFiles/traxstatic.dir/src/traxpp.cpp.o.d
+  FLAGS = -Wall -Wno-long-long -pedantic -fPIC -DTRAX_STATIC_DEFINE
+  INCLUDES = -I/tmp/w/fx/include -I/tmp/w/fx/src
+  OBJECT_DIR = CMakeFiles/traxstatic.dir
+  OBJECT_FILE_DIR = CMakeFiles/traxstatic.dir/src
+  TARGET_COMPILE_PDB = CMakeFiles/traxstatic.dir/traxstatic.pdb
+  TARGET_PDB = libtraxstatic.pdb
+
+build CMakeFiles/traxstatic.dir/src/debug.c.o: C_COMPILER__traxstatic_unscanned_ /tmp/w/fx/src/debug.c || cmake_object_order_depends_target_traxstatic
+  DEFINES = -DTRAX_BUILD_DATE=\"2026-11-20\" -DTRAX_BUILD_VERSION=\"4.0.2\"
+  DEP_FILE = CMakeFiles/traxstatic.dir/src/debug.c.o.d
+  FLAGS = -fPIC -DTRAX_STATIC_DEFINE
+  INCLUDES = -I/tmp/w/fx/include -I/tmp/w/fx/src
+  OBJECT_DIR = CMakeFiles/traxstatic.dir
+  OBJECT_FILE_DIR = CMakeFiles/traxstatic.dir/src
+  TARGET_COMPILE_PDB = CMakeFiles/traxstatic.dir/traxstatic.pdb
+  TARGET_PDB = libtraxstatic.pdb
+
+
+# =============================================================================
+# Link build statements for STATIC_LIBRARY target traxstatic
+
+
+#############################################
+# Link the static library libtraxstatic.a
+
+build libtraxstatic.a: CXX_STATIC_LIBRARY_LINKER__traxstatic_ CMakeFiles/traxstatic.dir/src/trax.c.o CMakeFiles/traxstatic.dir/src/region.c.o CMakeFiles/traxstatic.dir/src/strmap.c.o CMakeFiles/traxstatic.dir/src/message.c.o CMakeFiles/traxstatic.dir/src/base64.c.o CMakeFiles/traxstatic.dir/src/traxpp.cpp.o CMakeFiles/traxstatic.dir/src/debug.c.o
+  LANGUAGE_COMPILE_FLAGS = -Wall -Wno-long-long -pedantic
+  OBJECT_DIR = CMakeFiles/traxstatic.dir
+  POST_BUILD = :
+  PRE_LINK = :
+  TARGET_COMPILE_PDB = CMakeFiles/traxstatic.dir/traxstatic.pdb
+  TARGET_FILE = libtraxstatic.a
+  TARGET_PDB = libtraxstatic.pdb
+
+
+#############################################
+# Utility command for package
+
+build CMakeFiles/package.util: CUSTOM_COMMAND all
+  COMMAND = cd /tmp/w/fx/b && /usr/bin/cpack --config ./CPackConfig.cmake
+  DESC = Run CPack packaging tool...
+  pool = console
+  restat = 1
+
+build package: phony CMakeFiles/package.util
+
+
+#############################################
+# Utility command for package_source
+
+build CMakeFiles/package_source.util: CUSTOM_COMMAND
+  COMMAND = cd /tmp/w/fx/b && /usr/bin/cpack --config ./CPackSourceConfig.cmake /tmp/w/fx/b/CPackSourceConfig.cmake
+  DESC = Run CPack packaging tool for source...
+  pool = console
+  restat = 1
+
+build package_source: phony CMakeFiles/package_source.util
+
+
+#############################################
+# Utility command for edit_cache
+
+build CMakeFiles/edit_cache.util: CUSTOM_COMMAND
+  COMMAND = cd /tmp/w/fx/b && /usr/bin/cmake -E echo No\ interactive\ CMake\ dialog\ available.
+  DESC = No interactive CMake dialog available...
+  restat = 1
+
+build edit_cache: phony CMakeFiles/edit_cache.util
+
+
+#############################################
+# Utility command for rebuild_cache
+
+build CMakeFiles/rebuild_cache.util: CUSTOM_COMMAND
+  COMMAND = cd /tmp/w/fx/b && /usr/bin/cmake --regenerate-during-build -S/tmp/w/fx -B/tmp/w/fx/b
+  DESC = Running CMake to regenerate build system...
+  pool = console
+  restat = 1
+
+build rebuild_cache: phony CMakeFiles/rebuild_cache.util
+
+
+#############################################
+# Utility command for list_install_components
+
+build list_install_components: phony
+
+
+#############################################
+# Utility command for install
+
+build CMakeFiles/install.util: CUSTOM_COMMAND all
+  COMMAND = cd /tmp/w/fx/b && /usr/bin/cmake -P cmake_install.cmake
+  DESC = Install the project...
+  pool = console
+  restat = 1
+
+build install: phony CMakeFiles/install.util
+
+
+#############################################
+# Utility command for install/local
+
+build CMakeFiles/install/local.util: CUSTOM_COMMAND all
+  COMMAND = cd /tmp/w/fx/b && /usr/bin/cmake -DCMAKE_INSTALL_LOCAL_ONLY=1 -P cmake_install.cmake
+  DESC = Installing only the local directory...
+  pool = console
+  restat = 1
+
+build install/local: phony CMakeFiles/install/local.util
+
+
+#############################################
+# Utility command for install/strip
+
+build CMakeFiles/install/strip.util: CUSTOM_COMMAND all
+  COMMAND = cd /tmp/w/fx/b && /usr/bin/cmake -DCMAKE_INSTALL_DO_STRIP=1 -P cmake_install.cmake
+  DESC = Installing the project stripped...
+  pool = console
+  restat = 1
+
+build install/strip: phony CMakeFiles/install/strip.util
+
+# =============================================================================
+# Target aliases.
+
+build trax: phony libtrax.so
+
+build traxstatic: phony libtraxstatic.a
+
+# =============================================================================
+# Folder targets.
+
+# =============================================================================
+
+#############################################
+# Folder: /tmp/w/fx/b
+
+build all: phony libtrax.so libtraxstatic.a
+
+# =============================================================================
+# Unknown Build Time Dependencies.
+# Tell Ninja that they may appear as side effects of build rules
+# otherwise ordered by order-only dependencies.
+
+# =============================================================================
+# Built-in targets
+
+
+#############################################
+# Re-run CMake if any of its inputs changed.
+
+build build.ninja: RERUN_CMAKE | /tmp/w/fx/CMakeLists.txt /tmp/w/fx/trax-config.cmake.in /usr/share/cmake-3.28/Modules/BasicConfigVersion-SameMajorVersion.cmake.in /usr/share/cmake-3.28/Modules/CMakeCCompiler.cmake.in /usr/share/cmake-3.28/Modules/CMakeCCompilerABI.c /usr/share/cmake-3.28/Modules/CMakeCInformation.cmake /usr/share/cmake-3.28/Modules/CMakeCXXCompiler.cmake.in /usr/share/cmake-3.28/Modules/CMakeCXXCompilerABI.cpp /usr/share/cmake-3.28/Modules/CMakeCXXInformation.cmake /usr/share/cmake-3.28/Modules/CMakeCommonLanguageInclude.cmake /usr/share/cmake-3.28/Modules/CMakeCompilerIdDetection.cmake /usr/share/cmake-3.28/Modules/CMakeDetermineCCompiler.cmake /usr/share/cmake-3.28/Modules/CMakeDetermineCXXCompiler.cmake /usr/share/cmake-3.28/Modules/CMakeDetermineCompileFeatures.cmake /usr/share/cmake-3.28/Modules/CMakeDetermineCompiler.cmake /usr/share/cmake-3.28/Modules/CMakeDetermineCompilerABI.cmake /usr/share/cmake-3.28/Modules/CMakeDetermineCompilerId.cmake /usr/share/cmake-3.28/Modules/CMakeDetermineSystem.cmake /usr/share/cmake-3.28/Modules/CMakeFindBinUtils.cmake /usr/share/cmake-3.28/Modules/CMakeGenericSystem.cmake /usr/share/cmake-3.28/Modules/CMakeInitializeConfigs.cmake /usr/share/cmake-3.28/Modules/CMakeLanguageInformation.cmake /usr/share/cmake-3.28/Modules/CMakeNinjaFindMake.cmake /usr/share/cmake-3.28/Modules/CMakePackageConfigHelpers.cmake /usr/share/cmake-3.28/Modules/CMakeParseImplicitIncludeInfo.cmake /usr/share/cmake-3.28/Modules/CMakeParseImplicitLinkInfo.cmake /usr/share/cmake-3.28/Modules/CMakeParseLibraryArchitecture.cmake /usr/share/cmake-3.28/Modules/CMakeSystem.cmake.in /usr/share/cmake-3.28/Modules/CMakeSystemSpecificInformation.cmake /usr/share/cmake-3.28/Modules/CMakeSystemSpecificInitialize.cmake /usr/share/cmake-3.28/Modules/CMakeTestCCompiler.cmake /usr/share/cmake-3.28/Modules/CMakeTestCXXCompiler.cmake /usr/share/cmake-3.28/Modules/CMakeTestCompilerCommon.cmake /usr/share/cmake-3.28/Modules/CPack.cmake /usr/share/cmake-3.28/Modules/CPackComponent.cmake /usr/share/cmake-3.28/Modules/Compiler/ADSP-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/ARMCC-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/ARMClang-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/AppleClang-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Borland-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Bruce-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/CMakeCommonCompilerMacros.cmake /usr/share/cmake-3.28/Modules/Compiler/Clang-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Clang-DetermineCompilerInternal.cmake /usr/share/cmake-3.28/Modules/Compiler/Comeau-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Compaq-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Compaq-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Cray-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/CrayClang-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Embarcadero-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Fujitsu-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/FujitsuClang-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/GHS-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/GNU-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/GNU-C.cmake /usr/share/cmake-3.28/Modules/Compiler/GNU-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/GNU-CXX.cmake /usr/share/cmake-3.28/Modules/Compiler/GNU-FindBinUtils.cmake /usr/share/cmake-3.28/Modules/Compiler/GNU.cmake /usr/share/cmake-3.28/Modules/Compiler/HP-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/HP-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/IAR-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/IBMCPP-C-DetermineVersionInternal.cmake /usr/share/cmake-3.28/Modules/Compiler/IBMCPP-CXX-DetermineVersionInternal.cmake /usr/share/cmake-3.28/Modules/Compiler/IBMClang-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/IBMClang-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Intel-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/IntelLLVM-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/LCC-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/LCC-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/MSVC-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/NVHPC-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/NVIDIA-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/OpenWatcom-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/OrangeC-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/PGI-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/PathScale-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/SCO-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/SDCC-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/SunPro-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/SunPro-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/TI-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Tasking-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/TinyCC-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/VisualAge-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/VisualAge-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Watcom-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/XL-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/XL-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/XLClang-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/XLClang-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/zOS-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/zOS-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/GNUInstallDirs.cmake /usr/share/cmake-3.28/Modules/Internal/FeatureTesting.cmake /usr/share/cmake-3.28/Modules/Platform/Linux-Determine-CXX.cmake /usr/share/cmake-3.28/Modules/Platform/Linux-GNU-C.cmake /usr/share/cmake-3.28/Modules/Platform/Linux-GNU-CXX.cmake /usr/share/cmake-3.28/Modules/Platform/Linux-GNU.cmake /usr/share/cmake-3.28/Modules/Platform/Linux-Initialize.cmake /usr/share/cmake-3.28/Modules/Platform/Linux.cmake /usr/share/cmake-3.28/Modules/Platform/UnixPaths.cmake /usr/share/cmake-3.28/Modules/WriteBasicConfigVersionFile.cmake /usr/share/cmake-3.28/Templates/CPackConfig.cmake.in CMakeCache.txt CMakeFiles/3.28.3/CMakeCCompiler.cmake CMakeFiles/3.28.3/CMakeCXXCompiler.cmake CMakeFiles/3.28.3/CMakeSystem.cmake
+  pool = console
+
+
+#############################################
+# A missing CMake input file is not an error.
+
+build /tmp/w/fx/CMakeLists.txt /tmp/w/fx/trax-config.cmake.in /usr/share/cmake-3.28/Modules/BasicConfigVersion-SameMajorVersion.cmake.in /usr/share/cmake-3.28/Modules/CMakeCCompiler.cmake.in /usr/share/cmake-3.28/Modules/CMakeCCompilerABI.c /usr/share/cmake-3.28/Modules/CMakeCInformation.cmake /usr/share/cmake-3.28/Modules/CMakeCXXCompiler.cmake.in /usr/share/cmake-3.28/Modules/CMakeCXXCompilerABI.cpp /usr/share/cmake-3.28/Modules/CMakeCXXInformation.cmake /usr/share/cmake-3.28/Modules/CMakeCommonLanguageInclude.cmake /usr/share/cmake-3.28/Modules/CMakeCompilerIdDetection.cmake /usr/share/cmake-3.28/Modules/CMakeDetermineCCompiler.cmake /usr/share/cmake-3.28/Modules/CMakeDetermineCXXCompiler.cmake /usr/share/cmake-3.28/Modules/CMakeDetermineCompileFeatures.cmake /usr/share/cmake-3.28/Modules/CMakeDetermineCompiler.cmake /usr/share/cmake-3.28/Modules/CMakeDetermineCompilerABI.cmake /usr/share/cmake-3.28/Modules/CMakeDetermineCompilerId.cmake /usr/share/cmake-3.28/Modules/CMakeDetermineSystem.cmake /usr/share/cmake-3.28/Modules/CMakeFindBinUtils.cmake /usr/share/cmake-3.28/Modules/CMakeGenericSystem.cmake /usr/share/cmake-3.28/Modules/CMakeInitializeConfigs.cmake /usr/share/cmake-3.28/Modules/CMakeLanguageInformation.cmake /usr/share/cmake-3.28/Modules/CMakeNinjaFindMake.cmake /usr/share/cmake-3.28/Modules/CMakePackageConfigHelpers.cmake /usr/share/cmake-3.28/Modules/CMakeParseImplicitIncludeInfo.cmake /usr/share/cmake-3.28/Modules/CMakeParseImplicitLinkInfo.cmake /usr/share/cmake-3.28/Modules/CMakeParseLibraryArchitecture.cmake /usr/share/cmake-3.28/Modules/CMakeSystem.cmake.in /usr/share/cmake-3.28/Modules/CMakeSystemSpecificInformation.cmake /usr/share/cmake-3.28/Modules/CMakeSystemSpecificInitialize.cmake /usr/share/cmake-3.28/Modules/CMakeTestCCompiler.cmake /usr/share/cmake-3.28/Modules/CMakeTestCXXCompiler.cmake /usr/share/cmake-3.28/Modules/CMakeTestCompilerCommon.cmake /usr/share/cmake-3.28/Modules/CPack.cmake /usr/share/cmake-3.28/Modules/CPackComponent.cmake /usr/share/cmake-3.28/Modules/Compiler/ADSP-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/ARMCC-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/ARMClang-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/AppleClang-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Borland-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Bruce-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/CMakeCommonCompilerMacros.cmake /usr/share/cmake-3.28/Modules/Compiler/Clang-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Clang-DetermineCompilerInternal.cmake /usr/share/cmake-3.28/Modules/Compiler/Comeau-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Compaq-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Compaq-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Cray-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/CrayClang-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Embarcadero-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Fujitsu-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/FujitsuClang-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/GHS-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/GNU-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/GNU-C.cmake /usr/share/cmake-3.28/Modules/Compiler/GNU-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/GNU-CXX.cmake /usr/share/cmake-3.28/Modules/Compiler/GNU-FindBinUtils.cmake /usr/share/cmake-3.28/Modules/Compiler/GNU.cmake /usr/share/cmake-3.28/Modules/Compiler/HP-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/HP-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/IAR-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/IBMCPP-C-DetermineVersionInternal.cmake /usr/share/cmake-3.28/Modules/Compiler/IBMCPP-CXX-DetermineVersionInternal.cmake /usr/share/cmake-3.28/Modules/Compiler/IBMClang-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/IBMClang-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Intel-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/IntelLLVM-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/LCC-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/LCC-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/MSVC-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/NVHPC-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/NVIDIA-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/OpenWatcom-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/OrangeC-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/PGI-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/PathScale-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/SCO-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/SDCC-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/SunPro-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/SunPro-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/TI-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Tasking-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/TinyCC-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/VisualAge-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/VisualAge-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/Watcom-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/XL-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/XL-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/XLClang-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/XLClang-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/zOS-C-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/Compiler/zOS-CXX-DetermineCompiler.cmake /usr/share/cmake-3.28/Modules/GNUInstallDirs.cmake /usr/share/cmake-3.28/Modules/Internal/FeatureTesting.cmake /usr/share/cmake-3.28/Modules/Platform/Linux-Determine-CXX.cmake /usr/share/cmake-3.28/Modules/Platform/Linux-GNU-C.cmake /usr/share/cmake-3.28/Modules/Platform/Linux-GNU-CXX.cmake /usr/share/cmake-3.28/Modules/Platform/Linux-GNU.cmake /usr/share/cmake-3.28/Modules/Platform/Linux-Initialize.cmake /usr/share/cmake-3.28/Modules/Platform/Linux.cmake /usr/share/cmake-3.28/Modules/Platform/UnixPaths.cmake /usr/share/cmake-3.28/Modules/WriteBasicConfigVersionFile.cmake /usr/share/cmake-3.28/Templates/CPackConfig.cmake.in CMakeCache.txt CMakeFiles/3.28.3/CMakeCCompiler.cmake CMakeFiles/3.28.3/CMakeCXXCompiler.cmake CMakeFiles/3.28.3/CMakeSystem.cmake: phony
+
+
+#############################################
+# Clean all the built files.
+
+build clean: CLEAN
+
+
+#############################################
+# Print all primary targets available.
+
+build help: HELP
+
+
+#############################################
+# Make the all target the default.
+
+default all
diff --git a/b/cmake_install.cmake b/b/cmake_install.cmake
new file mode 100644
index 0000000..f7be39f
--- /dev/null
+++ b/b/cmake_install.cmake
@@ -0,0 +1,121 @@
+# Install script for directory: /tmp/w/fx
+
+# Set the install prefix
+if(NOT DEFINED CMAKE_INSTALL_PREFIX)
+  set(CMAKE_INSTALL_PREFIX "/usr/local")
+endif()
+string(REGEX REPLACE "/$" "" CMAKE_INSTALL_PREFIX "${CMAKE_INSTALL_PREFIX}")
+
+# Set the install configuration name.
+if(NOT DEFINED CMAKE_INSTALL_CONFIG_NAME)
+  if(BUILD_TYPE)
+    string(REGEX REPLACE "^[^A-Za-z0-9_]+" ""
+           CMAKE_INSTALL_CONFIG_NAME "${BUILD_TYPE}")
+  else()
+    set(CMAKE_INSTALL_CONFIG_NAME "")
+  endif()
+  message(STATUS "Install configuration: \"${CMAKE_INSTALL_CONFIG_NAME}\"")
+endif()
+
+# Set the component getting installed.
+if(NOT CMAKE_INSTALL_COMPONENT)
+  if(COMPONENT)
+    message(STATUS "Install component: \"${COMPONENT}\"")
+    set(CMAKE_INSTALL_COMPONENT "${COMPONENT}")
+  else()
+    set(CMAKE_INSTALL_COMPONENT)
+  endif()
+endif()
+
+# Install shared libraries without execute permission?
+if(NOT DEFINED CMAKE_INSTALL_SO_NO_EXE)
+  set(CMAKE_INSTALL_SO_NO_EXE "1")
+endif()
+
+# Is this installation the result of a crosscompile?
+if(NOT DEFINED CMAKE_CROSSCOMPILING)
+  set(CMAKE_CROSSCOMPILING "FALSE")
+endif()
+
+# Set default install directory permissions.
+if(NOT DEFINED CMAKE_OBJDUMP)
+  set(CMAKE_OBJDUMP "/usr/bin/objdump")
+endif()
+
+if(CMAKE_INSTALL_COMPONENT STREQUAL "Unspecified" OR NOT CMAKE_INSTALL_COMPONENT)
+  foreach(file
+      "$ENV{DESTDIR}${CMAKE_INSTALL_PREFIX}/lib/libtrax.so.4.0.2"
+      "$ENV{DESTDIR}${CMAKE_INSTALL_PREFIX}/lib/libtrax.so.4"
+      )
+    if(EXISTS "${file}" AND
+       NOT IS_SYMLINK "${file}")
+      file(RPATH_CHECK
+           FILE "${file}"
+           RPATH "")
+    endif()
+  endforeach()
+  file(INSTALL DESTINATION "${CMAKE_INSTALL_PREFIX}/lib" TYPE SHARED_LIBRARY FILES
+    "/tmp/w/fx/b/libtrax.so.4.0.2"
+    "/tmp/w/fx/b/libtrax.so.4"
+    )
+  foreach(file
+      "$ENV{DESTDIR}${CMAKE_INSTALL_PREFIX}/lib/libtrax.so.4.0.2"
+      "$ENV{DESTDIR}${CMAKE_INSTALL_PREFIX}/lib/libtrax.so.4"
+      )
+    if(EXISTS "${file}" AND
+       NOT IS_SYMLINK "${file}")
+      if(CMAKE_INSTALL_DO_STRIP)
+        execute_process(COMMAND "/usr/bin/strip" "${file}")
+      endif()
+    endif()
+  endforeach()
+endif()
+
+if(CMAKE_INSTALL_COMPONENT STREQUAL "Unspecified" OR NOT CMAKE_INSTALL_COMPONENT)
+  file(INSTALL DESTINATION "${CMAKE_INSTALL_PREFIX}/lib" TYPE SHARED_LIBRARY FILES "/tmp/w/fx/b/libtrax.so")
+endif()
+
+if(CMAKE_INSTALL_COMPONENT STREQUAL "Unspecified" OR NOT CMAKE_INSTALL_COMPONENT)
+  file(INSTALL DESTINATION "${CMAKE_INSTALL_PREFIX}/include" TYPE FILE FILES "/tmp/w/fx/include/trax.h")
+endif()
+
+if(CMAKE_INSTALL_COMPONENT STREQUAL "Unspecified" OR NOT CMAKE_INSTALL_COMPONENT)
+  if(EXISTS "$ENV{DESTDIR}${CMAKE_INSTALL_PREFIX}/lib/cmake/trax/trax-component-core.cmake")
+    file(DIFFERENT _cmake_export_file_changed FILES
+         "$ENV{DESTDIR}${CMAKE_INSTALL_PREFIX}/lib/cmake/trax/trax-component-core.cmake"
+         "/tmp/w/fx/b/CMakeFiles/Export/90cc544b2e67d50154fb73ad0acebfde/trax-component-core.cmake")
+    if(_cmake_export_file_changed)
+      file(GLOB _cmake_old_config_files "$ENV{DESTDIR}${CMAKE_INSTALL_PREFIX}/lib/cmake/trax/trax-component-core-*.cmake")
+      if(_cmake_old_config_files)
+        string(REPLACE ";" ", " _cmake_old_config_files_text "${_cmake_old_config_files}")
+        message(STATUS "Old export file \"$ENV{DESTDIR}${CMAKE_INSTALL_PREFIX}/lib/cmake/trax/trax-component-core.cmake\" will be replaced.  Removing files [${_cmake_old_config_files_text}].")
+        unset(_cmake_old_config_files_text)
+        file(REMOVE ${_cmake_old_config_files})
+      endif()
+      unset(_cmake_old_config_files)
+    endif()
+    unset(_cmake_export_file_changed)
+  endif()
+  file(INSTALL DESTINATION "${CMAKE_INSTALL_PREFIX}/lib/cmake/trax" TYPE FILE FILES "/tmp/w/fx/b/CMakeFiles/Export/90cc544b2e67d50154fb73ad0acebfde/trax-component-core.cmake")
+  if(CMAKE_INSTALL_CONFIG_NAME MATCHES "^()$")
+    file(INSTALL DESTINATION "${CMAKE_INSTALL_PREFIX}/lib/cmake/trax" TYPE FILE FILES "/tmp/w/fx/b/CMakeFiles/Export/90cc544b2e67d50154fb73ad0acebfde/trax-component-core-noconfig.cmake")
+  endif()
+endif()
+
+if(CMAKE_INSTALL_COMPONENT STREQUAL "Unspecified" OR NOT CMAKE_INSTALL_COMPONENT)
+  file(INSTALL DESTINATION "${CMAKE_INSTALL_PREFIX}/lib/cmake/trax" TYPE FILE FILES
+    "/tmp/w/fx/b/trax-config.cmake"
+    "/tmp/w/fx/b/trax-config-version.cmake"
+    )
+endif()
+
+if(CMAKE_INSTALL_COMPONENT)
+  set(CMAKE_INSTALL_MANIFEST "install_manifest_${CMAKE_INSTALL_COMPONENT}.txt")
+else()
+  set(CMAKE_INSTALL_MANIFEST "install_manifest.txt")
+endif()
+
+string(REPLACE ";" "\n" CMAKE_INSTALL_MANIFEST_CONTENT
+       "${CMAKE_INSTALL_MANIFEST_FILES}")
+file(WRITE "/tmp/w/fx/b/${CMAKE_INSTALL_MANIFEST}"
+     "${CMAKE_INSTALL_MANIFEST_CONTENT}")
diff --git a/b/libtraxstatic.a b/b/libtraxstatic.a
new file mode 100644
index 0000000000000000000000000000000000000000..20d7cf66c964f91457107c30f1bd4967ee1d5cfd
GIT binary patch
literal 409834
zcmeFa4SbzNl|TL@El_zeK~XEdr3%=tP?9!%qlhW(r3o}Nv<+{9x3|en8_65@rL@qN
zVp`>HsCHLytBWqaz*ZO6uAo*#30P@Cb_t4ZSF2msx~8UTmAY0%`}>}mbDrlsbD!rX
zO^fya`Fo+c_xaA5GiT16Idf*7ndg~saVpcY;*wJ@tO|ds)usKd|5jDiR@Y9SZfKUC
z>Urfq^1P2-{nvm0AJ;+IJ=c4GssGB~^hPiC-;|Gd<)itxdb(Gx{}o>0mH+kMUv=<T
z8~CdY{M82jY6E|@fxp_o39x~ar=0AK;@|RgE}31C%A{M9ZLMA|lUkKrna*U}ySu!$
z_KtM2qkH-CbjBuhb<?H)ds%nBt2JvcEm<;~&gFZGktDJ5dQzEeI+@S3dnlp3ZFRD}
zGqpUOZ0pW+rgC0ux~01{om`f0YfEPwuruA+omnklOLr$&rIS6GbX)r>FPqDB<+^Y3
zTDp5y1MBWdXL75P-6-RhOnWYErD421oh2C^+H9(=m~2HV>yV{a<<gn1REOdnF4HG4
z3~lYwT~sa4Uf4QXi7e8RNvCqCN-DP^0?ubTIHy%oHpv{c=CVmHBa>c^W@9b+qz)RU
zP33dlE!|zv6?C#9)zy{m@H6_?oJH3adMwgwx+~wA&Y(74OGi4DNv1QI?u-X*^RJeU
z_H-AFEie()C{_<eJjpuSyK+&u#X8fuRBI}iO2#nAq#;W-4KXsPWL)8}oT4H~aKC83
z7~y9+ims70@nSgJ-EtEQPAA-wYG<H(*}Ky%xnxIsHW#XZ#zQ6Q1hQkpR)c{`Z5p?J
zhzX0`-qoIKPj$54%C@iBw4iH8a7S~5YSNZTb#iX4;N(h66~c@+2`7*ulG$$NX>Ho-
zA}C&?rmtAm77kTQQHF4q!W7mig)x{(_jIfdL<pfiEg7LTW~1)*Y!X^q$@PXy=xpyI
ztLG+8r@F)ik_o|6K}Vpn>BP%{tlaDftf$j;<OJ&%bpo-<t?uE1Ef>o^>`MqEM`DFH
zE|(zosVmZ{RuRtfFkVxVGu^kuWQ<7BGP2>Z^x2+t3vA7@3Mch+cdTBH(Z+}uPRgKj
zq`H=4=+KFJ*b(}U?yfLVSUEz*o=$V4aiSx|V;0j<=BQG-yK<@aF7|v(OKlugJK_<A
z6Mb~OC`WXPu_LRdWKXy6l$5lr#9>lZuNIBi;iof|y(y$)l7+yeHV@9j_Ccw>4Jc7e
zHaCHX5UqGU76x7`X~qsKi$YU9J?SnEPZUgwY3t}l^k6uv6skaUic*61c)A4TNt8GW
z1$SGb!XS&sYCxRC=97dFspVNou<|Ovj+B-rnS^Iq3D?q!Vd~~QRF?MIGHC<{+(S|w
z9o;P^T411s%-&D#ZfjG9;$<j0^Ajm%$|KOQa>c>M4#K9v72$k_smB*EL_~_{qZBMM
zmhVy*(zlZ2@@(iQL0gi?J6JpgEgn<&6=xw#KGB}zOPB=VUwhYbq3OYe-wqPlglnWL
z>D#$go^X-zBb+hloMBwr$8=4^48C@Kz!Ygj^V5Vys9n5FDhr)rNcQQZ;iQL)PM!Qk
zuys{nqx2!Q^|GDGuJkSR)r$BCV;6prP2(%Q3c*O0e!*TCPuf01sfh7B8+Ru=(p}3j
z(kQdNDZLt(wyitU*(^o(W`qhtjbuxzWknjnKANq2HDCE-pUr}#bgI(^RMAN`sDfAs
zSX&UevKQkbIX@GnT3XUQG`+ATid>cm4W4SnSZ50MtY_m<OkX6^*_KpKx)rtS&gY;Q
znP*TOEaRo+u?*4X^jhoOpdn9R^M!SWK_WZH<n@blQ>GeqqGDN$d<Z+>5Ax{ptt-9c
z^;a&=)zly=&m`gP+H={4mc(@12#KaET8Lm)GP%4fpKMvRsx)EOEuBrov9+UV<>DlM
zfb*=L_H;}7mUi@0Q+y^5&4Onwxz-sAFbzaEn>!^@GsXB?n($G-OJ2X^>M%{BI9E+^
zu5cdkZMtkFYSG@bGO>7SvOS8&FckBqB#f3q0?(_70;?4`{ZccHg#?saD#K_{7a`O9
z1cOp)j8d!<^ktWHRKH~Ultddo5!s^PP&K)PP%Q=1m7H-+h6cEdQ%iw^Y6>z}*V6~5
zBo<w<xS9-xn~&MfNVVLYZ_lKaTKzmVF?k@$!YE!SIT8=mTeycR?t@V^_eG4U0lWN&
z8q{WQN%bTaSy>n7%w<DUM*`h(R=O*-42vY~Z4K9EGmCT6lgShY-G<A}&#vxVvH?A7
zn(5P67@_5q_M6fTOOlBM`g#q<`%XCSpue?)S;OLKNu<`yl+;u<+rHeCW0DeyY2*~3
z>qIR%S4cK3x%e{EC|6k9=T@2C(vfQK%&IEQY~<;(v4eTnOvVbzWcZ9#tCBE|Y&RA+
z+Oc-BvRd^7KTlvJK2&=P%qr1TGu2qXOp<-`@aaO<6rjEZ_*!*1y>vRB9<O60Md)~X
za`F7Y@clZ34A4hi8x9iO9u%aw{Uk`4l4x&lhqcW>&_tfSW(o$C_Ld}uFnHjGmf~Sy
zaSCGtYz#tASH3i0S#$hZ!h<`l7ikB>6NNguFY-L@)Yim(xMr#i!Fhem+PX_q%fV79
zqM5SX70rSMJuKv8l3ke1UpmdSgQYzBc9~n#fFUkHgEpMeRAW`vO&}=4+JcGlyEAA)
zQH5KfSt1RhnwCs^4@KZ1q1+7Q7mWCAsm}I})gfBrGkk^4peYGfFrvIhYO&+X{ai>9
zr|lM9O;Kk{KAY?Ar0#swMqF$~HPtlFIR=*K6h7DK_3+poX=h+$G;n!BriVqr+&(S1
z+oJ{7Zjbzb!y-GHa(W`MkRrY587z8ZaDa<WXJ|4=!-n<v3m4ZGSHKxInVDFSX=K47
zDk0rV(?ys9bEuhWW}33J1!v;wvt}wayT8(vXm2Vak-@`;Mp%4CGq`MK%9x_ek!6_W
zue=?bSqVFm*R1jtcMc|@5!tN#X<_D?Rc)9Lx#*<C$z(WwC}~NQEpZ-l!cHDGgn+3|
zR~igBlq3kZzReUGv8FSoBPPabX~8tH2>honGIMnEyQaFy-eJMaC#aD|Yo?~VvU%K|
z!BPNLF|@8MA8z*`Rxc{Brh1`S7+-*?XvtCoGBKv<CK6E#JAp;ns@7BolTmmxRBu)T
zt%=&Q=-RI?UFezx^<{~N=M}EWuneb}1@&mLN=i~XW1uF>I-1q2#pWK#;)P3K&8WKX
z-0339u!9VNW&#W`P$?$X(gX64sVZ3eDg|qU4dB3Lb)!NIzfJKwruM!Sh$&4orWCC3
z`IZ!vH_hBXuuAodh;L=i*m$%WMus8{6O*IRFvz1cOmKvT369V(;A7FSwJ$Ikwc27!
z5BIb9MvfFAl-Y0PX~rO&xWIxzV=$3cp`R~2(ex=J;kb~1%R9P=z%NQdGBc=Kv?zr0
zVI~fyV%35D(+K<0%yo}(9%iM-VwYV3q}%AGHy%TnX<3RBP)cwtBh+tLj%t<zx7&`7
z7&TM<wN2UqL9;eT44=X-TO!c1OM$A*Lml5rD!tnV>s)2CnqY=y4NpsV_T*OEVO--g
zZGe|s5sH^I#SEf=Dq;z03`OWhWTL5kaZM8cyVaa7%dBQ62<|T>j3#t>HMLYAvx}xM
zlM&XGDak2jM)B-Ndk4oG=%m0WXf(9&5lTS7=$9QzKvWo=;7&7~Tw%WwN{sU^n&>EJ
z9XhMK+M&~m{Ed@X<aLSyxW8E6qiYiCVxa^*G=vg(e6<FwQ)uR-Y=Gm6kR>q|azP;$
zn4TqQZXrQQq(wzW>c#TZR0sD}m0UWE3JIqZM8aaOwOQQdQj-HMez+H6E<7c9HSY6t
zXOeU`rNM@d)@dcM)CF&mzzqhWY47amkoJgLRtaVImsmzs3ODY^^0M=wxxFvzNb4gC
z9$DUidiqMEw`i3G0+lAyCLF}ojxP)nj3>kbc&VbXxMAAAlMHhhTCpKBq6NiBC0$s#
z$zd2<-(=U{TrTd~jVf1rQ@S<K&{X4275)N!mc(@->zB^6a#5hFCCMe#SR9`bjKD$N
z<C`KBY6cmK+<z!3CX;ktr%l2!OTZ}bmsbR}h^%J&s)R8(>x~o#?DbThO(l>Yg&SpG
zV+Q6?mf`xlppdY)GnE#f@7$B*br|272V~*FUvSrm1=kiFT7cvNj&8akT-^mo%dE%(
zm>jq}_OE>Dy3Ocssp<BpspV*#H+CtT;ab&9X9|C>h;wV#D#d5SyE-Bm$&`k+j!@Vi
z1ch8wsFw&93Mv@1YsM<BXIuyNx|X!IYX!3Xgvm`eQ;T-CCWcsUQy0@Wwb^K12lULZ
zW`<cq*4x?=?e;Esh>x8l$o3brp9PZ~;!FLY1gY7yqUSAA@H8_`2zIymbB-t}F%iTj
za=RJMnNtYADL%hwf*HIIDMG2!?T&#6DQ6;+*=+~|ayxw3V}w*N1GfxlKO?4}xM6M9
zH+esR8J0t|Eh{nf9`*eg6|;3@ar3#`7Q(K>7d1m^?RxpxPtpOR6GiAGJ);U1osl8z
z>~t2y1SJyV+@9ue)YBj(nd1O8+afRMB)YDUBMKFG|D~?L=!%3~QYazhmvo9dEb6pr
zW_P5rH=Sr4&uHvd-~2l+3<J-6T-cf3Zu@D7AI%C!Q(s;WI*uIC#q15#<H*w}@i_83
z-de=gKN)O}ORFr4^oCet<uf$A9d7ZIWYZNZ6K1oX4QX}h;c>u>;W}B?FzxIl@FhXf
z)6AJ3DYQF7TM{q`qR4<|y4|;0ny9uj)nhh?(g7fs&*I!vBsYx4cxh`>uC@dFGwrr0
zO!jlNJ*oCg!xfZ-ur856RKF0v0*PnXnP&-k{JH5U#y^@fQMt2v^4S$wkZ8FnT)Y|-
zbz?-2W;5F|-JJ+7%y@kaYMK$KX$B^5T1`j-l(579OWYLGmf=ou7e_N@H|wHh*sO{@
z>}E@85|Na#kDwJtWfZhSt0!lRd5KHu;h^m$Rvhk`x0?Da&UK~XUuh%oOQyQTm#WZN
z+vxOMx3$G%sqIKjvB+J`Lg}{WB619tk4D)=$>zx=#BYh7lD-+yVvD~4>u4iktm4g~
zy;{i??KnXtvCq+q>+rFwZE$mTW{!=f!*2&NYgj=RXCK}O7})(pM=$%_DN$S5Mxn{Z
zU=wTu2BAb^<&xy$neb{;s<CVDmQ<$IcOJ=Hing7r>Z+S`Bdx2-U3|x3c!i6;MzNC1
zyVOUvl3O!FuWBdhq-(HhJCec!vm6O^&D3Ngj)cfTqeK&e0bZgVNp@KtRK3^qa%ZXj
zC}o-jnP`T+q$k)L$-Z)Ca-Kcb(a;oH@H5t97j}nR6I2tBVZ=sTkaF5m`Ho!D9v8FA
ziNocahI|<JaIhkUEoN}^q*i0WH8t2U-r9=A@N9P*LYlzqxq6#ILwM7Y<RS^ZM`%B>
z%EQ3xM?r33bU#H;zDfy3v@>xyCe?zS<NnBBlC?kBT{#?M9Zw7+@04n2Sq#_g!l&4_
zLHmEWr7n8bK!@*2;A+qmW-~6dOU4ebV@JnfiVNy6456w5e9p*Z3fXeNA97M;M_Y#z
zm<rY;8=453N!M7jhv@T?i|1O)3VOzH8W>4ora#THoNXP#{SDI;mY|ljX>5DSlq78d
z^beW0!o%YM4JoIqA}ea5b1y<AmjDX;_@Y}ZBX`mzjZsc_I78^l5ey_wmf|&=k&F0}
zPLOJ9I=XMc)^)Sih}g<BB>MkLTBzSa7U$A8Q$!2*DG}{)oCZiN`x4h?CXP13emi@7
z5BJhkr<HGsLtl2*JDT}XqJ?%J(foKOcUiv4bM*1uNR~snkecZdsHL(=bJ(fj@=-~T
z!%x#V|Gb`s=B$)h>`OT-vTMiDW(pSzZ-m;+6dNAhYKF6Rflg7KT#OUAExDR(u7Nzc
zv^y;^kh3S}4o`{z0=pVgEon?Pa4ghrt!}v7%oJ-P4sIrMff8wP1ZROR$FVdTIOuFy
zR97^GmryX$O><a9_&#+MHbwO!k!q$$rDzoehvo=`f0~x`3qn6QAu3m+HU%jsL<Zl3
zk_3p%#d~()c|ylw0fiz%93<??Wvov_891m|bOOmvN6GeI`dMA#%IV4ZdCc`N$7!->
zT>jhz*PNh&c~10au5K`48_DzzZsTgZ4U4u|*~w_I1FFb)LV;yM6*UZHO?A`^6n((=
zIZ^YKnVooYnZKtD>jp5_aQG=xx2~cXw9`bO6uBadR^jKc^Al(d3l}TWEjQ8A5E7ky
zuLWIcBs;un)QrW<BoV~ax>B1nVC`*~xujRogA9s<rvMrbmF8h~5`b~PHn|89G<j;Z
z{1rL<2{lrnVrFV)opxX}D;`j5TvR{mlJum;%x5sau@#w1b1~f<!&GL(b>YArjg;)9
zSd_OF4#WP6IR3f@3CzOg*r*FG+fI2*6Q&v#EUQi&7cIF{zZx=IHTQGs6`rb*fKvYm
z0mH;*UT4_{6T6z3;eKW2v=RBtj8w8={1{Q6D0VT()|jMycE;f#JYY)<ubqryd<w0n
zoS-q@otoKQcPB`gP{46QLLO(D1)F)P!=A;tj$Hf+`en4YB`)wW8zpI>A|X9~2G4*-
zH91INs)Ow^Q3rpq=Eo<0ZSXDABU)cL+NcZ>HqM`$SbM>;ngsnz=)k_j3_xZtqbZfD
zkg$7qVy7Rd9O@%F3??uTu!L?fM%f*1aoI<yrBY?iiY~LnbgUFN40wJGpxYDD^Dq&e
zgJ*#v%xF!MeUzw5&@eo+yh3J{ixwwN{M1d?WIBcptlY>1=Y(i>iY&q7$$@yxs-D2(
z>0DV%$4hiMOu85GR_wn3!=RejTF|3Ku=<Rr)P$y`CXiZOFRLYy>kP;4MQDx|S+ezx
zzDT2T!&ra`?Jq$|BUz)-Ru@cl{29wA{Isl+1fy~go{!1{%c=|A#=>z)bL-l+rYyaz
z94<V?(u~<m;;+vfACYR!E*i7vsAO-DrWsZB%>V?`p~V#6M2x>PR!g>Xg_;4-qntYM
z+$B608z%~JWbhc5TxdT6xg)*aG9}5kFO#YKDl<PwKmvYJopYbW-VwLkoRrq1roxDf
z7h@j>Plw^jr|=yaOuWOPyFVp%3hT791WYT;po$v>s~S47ri{4*W}Ai`+Msy7C^SP#
z%#_=4G%=>u#r&40T&bI|pPC+RqNla~J%JDpbAOJegH21g4sr9(rttKPZsrB|mGB&-
zX-6}Y4D$-qO|?fiveRO-5m_c9QFEf<dQ)sEdO}H4Vm%)wJ5^>HHK`A2u$1sJ4}?x}
zn@;Az&Q#7{b|H=OLIccW7$Gn|pw-M492kmIKy1a2s)QN31gx8w+lzLtU1K^^gh?b2
zuhV4N7=*FNKsI`o*|7JE<8-T=3^P>fKeMPLYA&OIQaybbUB)&DyfHg<gvjO|t+{ty
ztniT3dIca-Z6Rthc2=6q<u!k!w6K8S51#{t81q8yackc3J7&p%)<Y7sNMe1GX+Osg
zktW&rrNyi^c^$IE@yVEl1Y;z$jfU=!na&G_{&4W;j2LJzkX?T#N`{$`L2cPQL7J$k
zg&6u4HHCNX#2=AxOw=a<vhs?5hQa$-=ipOH%)v2$FELMxq;>X&1)bH2%SSnhrTuwy
zR}J%L>xoW?sq5ev5*>%h<%zUZKH+C>!yQ#s{5!BQ_N}7o6W&b09=#JI3N8A!;z?sB
zKsP-<!Xc1JBb+ZWe?I0J1N;zgO~tdS@ia0sNkN$>L@S}aiYG(@vlyRgU%n#O*)7^Q
zLCQctVAgg@P3UAYA2V{$1c4sLX{HKxB@|Hsu4I~ZLUcTZhC|x$$_qvakMJBlvsNTS
z-3d}T#w85Y>9$bg+vSqd8eT+7txZ}LV=P)2M8;8DQI5ISc6Of7B|q$2Pnu2=7qalI
z;3cVh5ARVsK{gWVmN7p21c_$iOzu=PddIa69`qbDLcf&lX7;?qE={T6Hgd{8ngzyS
zW{*b0M3Pp>;16kLWbZ@jJr|=XfG4MB(1_Y4aXgks^-iroNuBMONsdP3NS)9lK(LmL
zSR}lA+&(I$W?CzrTVS8jYhHIj3QQ!i49@1_>;)N(Sfa_IEhDHT)Ek-(9}9oES5b7<
zBD6Ldp^D?EZL9`oc^ho7cr~iV473J+oVG8|L8mtxW3jVR&Qcs-6&4+#nP!jB=*8ui
zR)L-Ei4GGQ2mK++dXHn1!I%CyR`0PZ@C2^j(|r><tYfMQn+cuW39XsggF3wGu1;d;
z#rnj`CSKB>iucDwtge^Zz-HGs6S$8di)ZmG`Lx_Ojh7-Jb<{$2<U*<0zN1#%j%F2a
zxCPDF1z^3RNgY*I|KLvN8FxBdFN)=?R_>L98IE13Sp#pR?*jzfpxy9#>XeZ#Ll5s=
zwdq95(bF-)UOzl5>CVIXkKs8<FdA^`O1o>k!H}!kC}FnVlo)jra?&YU=i!EnT*Jm9
zVQaVapOI~1J5dvV8kRdx{6Z~`cAM#6T;NQDPSDadFU2Zs$O%*MQ=P1*S9qB_0kl#&
zs)bT>E23zv^f)fVVv*r5U>TO8M_O1glOG<iPskDn!Vz`g+sJcttHS<L>dKgz+6iAv
zr9;1bCx6&A%o8;qCVQZl+4+;<*!lYKi#)i|@RzlWrYD9YTL)YeWlPD15?eq^yn1O4
zVi#KWidgd+i85nW%rLi;{gFmmzxSFpG+uDTI}It64sC5Z=4Cf~?$DeE)Z@TQJKM3F
zN{{P;Mffa9=oH8?Os+$#_Yr$%M!`C2iw$jPkjbt&EHVndv_FC;&seE7dl_iH%x6kq
zH^oPIMo~(_Iq733%El_^(hD%@4V2+07vlgUO`FKM%hrmcnU)mIbLc3&tss_cjR~Rj
z;<#`)V~(A4=v^UE8+lL~W|98J6*FC+SOoX9rf2X%Bs?36USFEc`cEvNho2-c?X!9C
z{DM%RONZv9Mzi?%F9k`*SV*W0H7i3rXdVPtvdPGk6*t@QjNASqf~zSKTwRHkWqA+<
zo`l9>R&kGk(%j+pm>jTq$XC&pJGB0>?o^=1TFSW;-Wxlr)i?yew6ol78mE)UF!JG!
zF3;;R$G<Pd26O!6{bVTo7{v%S=>D0S#c_0V<e@qviUj@~Q3<?vD6TmEmRaHi$2@)h
zfufQ>%Yt^WiZUu|)@#dpudO&lXUpSg%Al1y8I-WF6b$Ogno-`}C^f7@@5Liu(f9&i
zZU;<%WpKD9wD1TOXkD+N@q$z7afI&7y90?@ZHS68M^bk564gj@j$n<-EL!T$6&gxM
z8mdDtsHorm{C2z4=yodxORN-1HK8>Z*|<)N8LoaQIT3K^!%N3H*w8bYWw1Gp>o1z^
zu?`-=1Kf_^HofCH#$torU%(g}4E3}sm$)4N(S+EKM(ohO2uCN)*iKy=W<Dj^(AAn=
zCC`t!Hfu+H`}7jJGF$KMebr-ZN7{&J_4JYmh_en@YCERQo8~m=RQuj=JS3(w-IZ&&
z76DO6i4+uZ4_ss)hNSxOs1`#@^>zfAes4F;W!4i{q&x8Xa8uV&l?c;VM1BYyLtTn0
zdpX<zY=!KDZ>NVyj%9N!Ekdrq;;}kncO0iBF83uomDLYir78)|Zxhf^@Qx6T>Nh26
zoS(9&SO)K#)O5k?D>XXZz8*CM*;gZLD0nBRDrN@1Z(b9smkvk;L$45BYzM+3WiYOl
z;ghP@m{RGCJ4#|yDMRS|*P9wS!zf-#sZp&ACggVjYpSp^m@cFY$$M#czN^)|FLy~p
zjeXy-eer{;M@T&lHT1&qRoE5391m2c$DJ-&T%6G*!W-dJIANM=?@W8iY<E6`=S5|@
zyK|undQyp(q+@2w@?e~#*T|<+c*>_ma3&$Oj9$ddm#yttzQ)^+O&+Ge6Vdsa-s6FS
z;qH8h?lL$~TL+$(?d95Ayj*t+2(v4?A!}QEN7}qo-SeozlUpWtUsz>7)%;Cg_P6~z
zy|&h*OrKgaW4igZ^wirE3oa`!EA!-2=3U|iSAu$8{R_eGI`gy6d%1Up*IZxtNqz5u
zs>0d>k5vL6q_p}%;&6Rm;&5N{fkM;i=2zY6^;_x-J309Y!s-i^^tH2YoXLZqPko))
zRn`~Q8V>b+Uj4@Y+!cl%zwKp}x)h$o5UD$f7wGJjPP8dQWt;s{s!+-xNC*4s#`X4>
zX#tJ=gx9wW5Ji38IK#8>AATilKAV2HzHH!0TddE$3EX$p7xMk}h34(8^?hT{ok)^F
zH8uV9n;Q4l_vN?O_nlndclEgXLRo#`DwJ>;Dn6&Oep5426Ug{nec_3(QH36(KSp_l
z#Gc-@d%TJ}w*Udvu0EsTU66Is6SJE4teIuOaeawBWdoa<%IMOz0%%UR^6ny46}}tP
zr5TczyWHwq&`wC{JC(lr7C{-`s^4_+ne}~*kh~f4J!#w1rj}8wqNs7uF@7Cxt$&-X
zbM7QV=4)nT#`5^yF}{2SZ7@`eE%lqu`UdHQ3PNR!l6-PtQC3wY?QPAdVgs7Y+nIQg
z_zbmx(;y}Ed40_<QcWNKpD}1wOPhOhiR8e_A{ki2>rK2!O+gfBs#%E_*StSqNj6@k
zE**}(Q5*g`(KTxBHYnjn)0Y;bZ%#zDcf$||b|wa?YonY2QB@&v0GGS14ee$d8eBKq
zfOX?GHBlGcZOsSCVa4wz-Gr<N#gz9Y4%p7r*9-zOo!x9Yq|i;TKU2!CFN|SY)5kzO
zj*CU}QtOxPq5}FFA+7FqkaiptY0M3xjf1h>7`P7G$c6mgor%L-+r3g^A@L$g7__ye
z-c3E`u&FIw+1d`;+5!mI*6LpOnL*oUkU&}@4k9?2D@rZ5rHz9<8fn3LT;P5xA0fl5
z-*l4sDm?jEIeyp<RY)8})`MggFE>B9&4*6fZi$V50!?#Jakvh+)L+#Xo`#P(2&aR7
zVOgAwA4p>7OQ5h*&ahgn#FQ|2?U5r#0zS<HV1dT<Yu{F1v92HKsCzSs3ikg=?w|+R
zeqB+S7<}sMFI2qo_vFqCYhNtn5BDWrywQia&I-T?g7Oa+@`oV!V14h}K`%E2Ux&Ti
z8~PH5jMr*JVTr?EGmR=0r~rg!uvLTK35u2KfZwh{;||abSa}n0b%}$0i5&$rQC}m>
zj=oW-IAPKcoG>a}Bp`_LdtF~n67)6i{jzD9zG=3Bd}SB8L6SHm<{-PE{SP23^kiN1
zAbd~77rl#@t~;v;yLH{_BJ6FsbP+Z=cU2K~LGJBE*hTp_hcNg>x`vZA!v~2n^g3e~
zLuYL!N7lRc#fpmeH=(f&8q$+7Bu7U(69<p%K7uZJsL*uf{GEvdq@*Dfdcan8x2bF;
zU2m!Q;=Gd%&U_+&W^dvE3OX=m-R|wwGlt%=dH9TnoQz~FLnm*xy#~DnW71h>9QMZ~
zF;h6oN-{w-&*Az_uOb1Jy>IN#pJJsruLOZ9&2~}M!oxEjLsHHkj&Z4yje?3wrtrpi
zLNmmLnz-VN&^AnM7fRg=PYY9n>L&O!z{vbIP`ypH-bn2}^p#?Qio5$OzSyr!0HqcV
z7Ml0onb^mcEo1D}er~qznTdTPFun8LY(^?-p&=N_i)Bcjo!GnP6VbM4Q~)nP9UU%=
zJST-$)|;r2Mf;B417yWfIgJkr8^&v67>3<ZEX%~;BQyfkZ#si&qy&QVKStJYYQ{DD
zZX0Gi6VP!eaVhk(wH^_L5xOt2wc<<OmfpkTDmMH*Y>|F^;Da#h-os-nHarU&`tgA~
z3{sXmwfAs&u4jJ+myl*_eP12Ap7of8#J;}7zTSQsN*Q9eJs9ehrmaokhP=%B5zC6&
zw)gQ<Fdo$xo;5W4Pl+sQFKpip{0A8`F$wt9(?|eI@FS4@UqJ<TCU!~15hwH>9+Rt~
znwZ~Zx!3!@%kwYe!EWd^M&uzx_h!H!I>jIP$s{@NnA`>a@3I^X+?Hp#xSv;AE~nd0
zd6M}mB%bjJ$AA!Z^$;mgw=H1QBOXm-EycKs&plD`xx_Pl%>(#VNIc({c;44M^$?Jb
zv!uw;c(|eP)SSXV;c;J9H600>0CN&ER_7=BbdNvsN|f(kKI#9m%}hZd%}<K7Z_2K>
zB9PE|(#>E);b8qH8CipJ%P^KhWU?Qcr?fn6#__V}`kJ5Djeja6*_klexN3#OqxKh?
zu3R-&S<qZBw~AJ+gqYz`UswIef3SXd#q5A$4tgQQRFzgtKSGm8#h5?~y+HX1t%~h|
zDz<A?JgQVtme{@-WIF!nJz%=BGhm}<4~T)Qen{%xg{U+S#{|6x9h9tWV1K9dvZ(R%
z5|cL~C3ngrrx=U1evlYr+NF5!KeGhiijDt6`XsqFHST)kRB%$A6}|($K0(9V#j|rS
zGg9tE|F!h>W%Zj9lE-%z>~BJOJ}7y}U^zN}qzYwyZMG?p!@YtrNTZ=sP223h-e!cU
zh=1GOyLP*m=j7SKmy>%3%V3+J7?YcTzh$|z@OPNb-%sRjw<o*X>#chOz6QN@uZHQu
zq0UO|z5O)#Ik?WMgZu>4v9}(60e<cYT6oxkivif7{4klHVEw%h86F#tYFpoLUCcn+
zPH(K?Q+R^3TreJIP%fxL5A-!}$J`3#JH6gys4vi5lU5tZWzm4(k6QcBv?6W|jR2<f
zjr|oH$xxAN7utn9*zOUv%M&&e0s?85ZM|!^`R(#apQlYW?ecJBt;bQ}sN2J~$^%$=
zfVd29GZlXLC@Vbl7E>P-iaMD-_oR0bprRfJg_RCzt0;^?*bRY5B6trsvPB7p_kY$V
zM+d$q_ck6X8_FPie0urNqLS%jho+QFA2;+0N;eT_Zo+m<ERGCK^2dxPgXJ$07lD--
zZYnm`gAUWfP_Rv_OBD5j-(I37zGgympm%Q>VyX#6f&^X^_Fjf%ORQk*Egw1Q*pZWt
z8xd(Z6dhq3ZW^u)Pf#1JILbEq3sZa{zYl}qVd_8>Y3`*Kd<{%!@M~j9;p{$)S=Jc>
zvIa{)aaf4pO@@Ff_$tEz&ObyzmKnC?k#*l;o4#zA?pZ!e_Z&OA?s>FLe<HhQxX)F~
z^smso2Z5^f9IrROsQEB*+8`c|+Wt7ZIPDZpBirC9A~_?BvHn~lTqwpox$99^O>2KN
zk3be&h?&v#&bn&Yji>Y8ap0garLT@hXR9xKq0)Tav($WTqGni7*hp)03ksW7;cEky
zn=2+I)>lkw+*~oK`M!!tH*Tw#l<u#X)HzTwDZjU3(%OS6A~b%srvI^46f$_~|56bf
zCxXq+jn(*D33TViTKpop5K*BX8)xFOe$z%;BEnT2ef60<^_%XYO!a-6DovWv#Z$zy
zZ=;c(s*Ae6QeXSkw=8fu%jCGn*7wqC6h#7&p1%B(BS#SA8kvi4L8#@PrBL@)RZF@t
z^H?2K5&zIH&D3dNr@0+wR-yY)v%co>W_7S|)p#^c6@FI%+lt=<h+s^ZBMn5@&bpbz
zOpP#wME_&s01f`q=#hr^#(uD%VSb=~QxA%ug6qafoA(|rtJt_e#fh&RJaPna&j&bm
z?0>|B8+uw`D}Xs(;ZjVY5YI)8`nxfP?)J?3vL6Lu)<{07kl2oFK6<n)NFF=G(kur0
z>c*ljx4&#>VjEEmHI0t%HZ7Wo*-l}OvHU0&h*rX2Y|6o%iH9Mj2Ldbkm~|AD_4A^=
znuKv6nj72O_;A^RzQ%(KsFU|K?(J*d)|Y>@56bL4Fs^Uy!`Fxz_wGO|V@<tq=|mHz
z=ja~kUTJU>vKt7lf+rR<i8RnbAF^gL5i1n<2f6HE;=7jmO>_g1vtyP+zYp!BZk8Ar
znzfl?C`NxsXqbAdpOZ>qF2;x<cd3Z;jsu%XXN9$QA_QAsxMvMIWvMQ<72<5&>6wwT
zuaT}uGZ9@3u`l~Q$^n}7+}*Zv7Xy4Jy3IuL9k2E;L;;1wmLWT%m(IPV_p2n_*mV>A
zF!S+8?xk+#-;nWt@f^Tp@NPeK=SGv$8pqZ?Q%M{A^Fj+2&RzQ;iEuM(Q}Z@VY(%QQ
z1So+-Q`e0>I`VNxLvE&6P}Li)s%Y*-!bFJ;(($BKAtlEbPg<o(;Txk!cP8%UuC>)T
zg)!@B)$2}LJu@Ntn|d4XrkkZ(VqII}&INt-#2w#|4&S^|cc)#yy0fo`JRhmt^u4>C
zz6S%pbmC*=h6b1ah{lb?edw`UU|0BteOW&YJF6SlP(a^#&PpN;w+Xche&0vGw-6g^
znx#5O?}0kZPYU_LLi4`*LgVfQ7-kj}8h7=s-4|XZ`j1kk_!y0}V#$Y5tl4ToZHOPZ
z%Sd&{uYEKk8844}_R60Zo)|jG`Z0<pXyV<wcEHOKk>A^~5)dXD529U`2nu1x;u2M<
zkq(~1csL_UrM;^f4sR=ifQPnuRBYI4`xI*ALG_hnN{9m}2C~;utPdH(R3z{mESXPY
z3{sI)6_XgJ;gj_CPjpE%Q+3N-1rs#uM5{vkm^}tP+=PBu!-NsyAEf&cs)KeS7l+9`
z?fEc41T^tm+n&8Us=`x%c*b;l6ze|Jl_-8cred1V6lm7S-6}g1yWuIxy8DCuHM{ye
z+gZ;5ZZ0S=*3R?{TD6OFrj$u(xtJSGqs}!{I(P}pYdeXw|BX}zm0ve=WB={L)Bl2c
zm8JLFls2-I?@a6=J?^JrG$;gqVXuwW=KR2Ti9s6I(R}!Z{MJkCA}=9z!5S1g+({K1
ztKnQQaXd&|K|DwV*ZuIw5rjawcM4Dspg_xCyS_}mC~A!xBeTgnlLXkLq6BIUt^+sF
z{xfXtARLOM!RDY^MZ>BsZKHzJY6(bHmCG5}GkiJsQ{C*1|9%wI*SIH`(m+O(>UTnu
z-n=JR%%e4P1Urw|$*~`<>^~Pgp}DaY8+Ry;y%n{FA@~Y=4X#;XMzIk$1w>(|jG!Xa
z=5TA<z1(;b3XQwn6^v8{Q{Oe#7F(zk{{Q^_ct!2+1!L6aNN_*FzmY(pKHZu6&tly#
zDZ!H4c<6j7|E&&jFYc!pVe4kjO6;k)Yx*B)ZEQE%sq}bMjh+t+!-5&^k;+zt|CBc9
ztDA@s75Do+T9AIxEJ(jd3(~auG4x8)3x`g(x5n))rwIe($^YJJcCTj~I6`5wrK)f2
z0DOAB>1g<&QD_-Ca3qCi1I?LVL$qB<7a`_nnrt`sfj!U{?_DUbc>kN=J<J`lkh86W
zE<m3jpj{(Q-0F8`8Y?R{Y_S@GexV^6c?V!6xS2FfevZk#MShO8Ln{%K+1usN+&EI;
z=~j<++C`en&qXH1RCgSjRp1}`L$&$gR}(#sdoOr;W~~M_kRdv8&@PzbHq@I9^JoWP
zRf&FJ?lZwg&HDQT-(x+Mwj<hSR<DN;#5UWs0td0_(e@-0;l&ObANey38XqV3)w{Mo
z9B_TIWXZ-!&|a+VqFBt8N!z?1a|C10-x#k62TT^jp>F<d*vwhBZuo)g=P1f3kS5V%
z)?H|SW6-PkCv3ksj83u*Ewmj`fYI|D+6%UG@C+2W|MSRdL)|ssHG>%ZoY?_kD0ww%
z=nuxx-h#b!NKR}IZ>Tgr8z%8Rrhe*0L)~B*IU^xN;g}i2ktgbcg~G$^9PA+(U<sJE
zK{z|s4!wdVqbB((Bpas!)`RYD9lOy_M_n*ER5Xtfhc<B0&@96<Fob|}OdC<TBumiO
z$zE3=Gg>ph4Vkwh^L_IQiF=D}cDoLA%!M21>?vtE%4A5fMcgFN*&Z`6+dyYE4eh;a
zx7r08h--VdZ-lf1U^`EyntRvY>tW<E$V?{bYkmfIl@FJ#TSj=u2Ad2L;}uMp^#?Rn
z@7iZPW2mJC9RO)x;u+lWf{3R*Zwzk0n%^J4ZLToL>_TIBL(|coxN(LKk=UyJ90dqy
z7%{dRes9*hHZ+qEiCx(4vuk$ZnKcNTXipE>JyDxT;@sa^(hH2d_j<XhwrV|<<{NRE
zH3+j;k5^3mP-Q!>B#3yoTdC(;si{{CP_P4e)#hMg48t|PvJbV5t`2oK2x;R*QohV8
zqk71dC@`pJ#a($c0cG!NnhC|4jik7bI@4A^%oXamkNX~MQujSG9vu1>IBl{M!9o1C
zE`I_q1{sp)6v;P;gxY^ZeX)+*e<8oaAF2KE2fJ}-KPRnbqmx>gzbL@o|IZ|<T}P*|
zRVZi}G>hvYa8EIRjDD6bV2T+Rt(d(IMZ!1OBF)ZG#oX*JB?@>DrXaKQDfaZy+W&4n
zncF*$Zi@HO%|*<XhMm;SD?AZBsjG&r261NzyW|RuC}%Hj4C!(Xqntf<^9y3LQI<nK
z?poK!IsOf{P7NIF_9*sG@OGi?D@};}e1*IFddN;ioAi5>-tLc724%OS9Sx7Az0Nb7
z!TPmvej7e-Ox!ktKbOltYyA)p7BDlX7x~$DVaa1m#m41uCm`BQHM?iv$dOrz=dnAP
zfeio(PtuknuqixO_;u7QZvXqyAC)Xv8a9*8XUO9Ae+Pez5E5-aW1{V6Otk&X2%>GX
z=xX9d_@@EwpTHMI^_?w^f?<G?3uC{H0+9fE1K7wsM|(`kKTYhbA6rB~Tl^;Mf;m(f
zs^|e@|EJ*7dJ_X>z3^2SGZ1S}AQ#fR_C7?-C(%%8XIl5UGp+qJMnmCa^LdaMWluy)
zaky))$K$#{^X2V!w{^tyZ~r-Vq`WVf(-oCO3}Bf&r`ukr+<&tzy1ZiJS5#Yn`aj5_
zKi~UA*{p%wRBV;obS+J>j3}FsW<@FdS7eLd3r7F{XmJWKBU(Jx9ud9xdwXC_Z=mLg
z34VsIGlt_&&m)_XL&^OQk{oMyMNhi7yOVBqeJGr|0nMte+L<u@kph#5zCq)c>M?vg
zh<$}v`#KB{pkfriw=#2DTn)muu{`D)Q@Zh+W>`iTVTU0EIKz*)<lR@nyKg}RyBQJe
zorqx97kT#wt#>zfvakgbCW)PpkK!-&!Y$f6n+w<1|K~8i9)(+x!R^jqZLpZJ1i4#c
z+SvxVUpm>!<$CdcG7x(vNXo-HTNJog^*F4o+qJumPZ@s?r8W*gu@rAY4igh@p;$~R
zQAq6QUAyCmac^;g?w<&ifC}qW16GT>DEsYC`;N+7cjLN1j%rK1qxvEF!rry(t)qfu
zjqBZ;csmmhqBv<Q_E%d9mAK(aZ8&r>*&0Ok&%)6`3aO5pMqBzNtrz!Tkv==|=$c2_
zAojn^)(qp_zrap<*FIRDKd*P~qh4u!j7KdD?P<oMXdQMPZpc0enB+FvNTC5{CHl>n
zX@DjGG-mcwp4c(-t8mJyJ^Pwr=UAvURhKc78qls#Z8Kx$HZx{!8~K<CYrq)zusddM
z4vm@Hf-w^bpf`XTGp!hA%nTER#>`lw`Zg&%@i4~BZ5T7R1!LxVjF~+&pqa@B48*84
zSZ&?E*bH1dFmPqSLlk~+Cz)gZLbL<Y3Em>NN%^Ml{wIyk@eN}C6)O9`Av>*8R|~)U
z0I)fOEOMQCe}$>TqcE#SXD7C=o7bDzeyZ)F+B^f#kI<jHaF7lc=#LCEHL!bC=`7%;
zro#{h=1rZ7+Km1Wh*8-Iy`7KJ=p3iyp_^T9dvO}ETp1XhN2HyuL3yUjm}7|puI5Fx
ztj`aB!_j9J3o4)?{|lkWD0qmmJ(q@<u%%Ek4KWIJhZt)dW{5#ou%7p&a0OT|q>f*)
z;YVm}=!A=c@4Qp>!23;Ng#R(ip?6Y0Y1|f=Dyn9%=50Z<;buUjm+JFeb-QFo@8~M-
zT4>v1i<wA2YAk7snMlK+p#0M@H8$Sq-@k6!jFzem=ywuS!3@}_IQ1ztU_UtgfQ|9G
z4&yZ#L@zIcw;qqpg*zVKj(KjWxtEr%n41j3yGstjbbpg7s^(s$GknNq2((1|<ISmu
zHyedT&lAjuKXjvAWBKvp(0GB@w`l>|n#iOb)DY%o8$>Vz_HHv^_ciX~We%G7OIJYq
z4bty3p5Ubo<Sl*ggBk=)p6}Oz6P?e8kI{``F5Jd=V3@`*wgmA=o5kFuG2-sW*@%eN
zETGGNyX@C5HT9SMut-4O&|Od-!JX4q;!J{>+eIVDFcleSlcQPKo6>I@3@18wQw@hY
z%vxNcUw3Ve41H^$6H;-tmF3?>;A?BX!zyks+EC2lY_w}{VmC&Z-Ln&W*4!n9^FrOn
z9`lU|xiCoY)`NN_N{4lr;pKl&N`%0Vv#o`0?3S>z`%z#Z4=>d5I(7kRW@s7K1}kBM
zG`1aPg9|OTe0LZdL&m!5U|AbJrX;%`4#!T6{wxs)W{R7AXnHzPMok?mtXdpeasLtb
z6ROVsVagxgfAP5)@;TOZZ2hWjbv=$7|AP%Jbbjt28ekxDV-rcpA@y$D*2Ts>ZvT+4
z;r2ISxQv7BXYQw>)$Q)1Y;V{oMi`s~!mxB?|9z+tDV;3W?yLxD?j)KT$ueiesvG4C
z-?Op2>LYfu(CJF43R9K1wEJD$wujB)uzmr3GqBto-PJQ@OwR2T>*1}{gpLRM$Nb~6
zvP$lSN_y8GIw_Z<zZD;NpS>>6U54xO+i$~PFE<W<%W|(C>NI8ZsiR73vF{Rj;JVFy
z*8u>71x~G_R2okDyyp&MFH3<!OFxyyE=rwfZ`Fkpiz=o19W`rTo!Ps@JnXfj;+=Js
zsE#yws6DL4_5N=Ac!a^w`6CFIIE+(QWroMjI<ipyNw=2iC;S~dVLE^$zfDyRn{8jV
zim-jUdlp3AfJ5E93f(-q@bW)H;r@O(?2#+W)#7h?ZZiIk3GFsoR;q&-YV2P?ejKRV
zH_U;$gGBBgs5=y?d~@W@KIdpGwFeYwcY)j8cR1{JfR5GS-$DF4gvmv8D}>dJ8Y3v#
zE9Xw|5QMR}PxO2L<B!}{s;&@Yuar_q9HLGV@+50ZWsa<*IpL-%8Jutfh$lKwEhB42
zcnkG8>PWCM+?x%}2eg&ZAgDLAjiYQddsePP^)jTi(G*py<wK=vCQ^hn?GKigU3rMz
z$BvpE^%Ha~+<NwJN1Hl8(y<}d_YcR~9@sue!xD_joGXB5vKMBvc%d@FKhRkv^m<#F
zaEWGVEpGgPy?d*O?I672ti--GTC3ZKkrjE&0r(4Se*Crv*DXFwS0g9J4BQU)A|=tT
zUNWB+oJOSwlHgdX%`w(q;J%sp@dO@W5o%fEvP$S<N2yws)W<hU<qWE04)WWo{iWz5
zFiqRFV3y-TX8G(eRf8pxm-Efin2a^cdUWvO1}F{-(V`w^dbD8)y~JNU9^}R2&0tSc
zHs`@%YRg9@o+kub;H;q{DG58v%0s^LXQk>C$LNKMGZQc3Pvc?yX+DHMHy(VUqOzI(
zG~%)noig!a#l-JbOnk0l;;y!eu6}cmF%XBA=V!tlU~*;`6=+B{Pfcp8=zg5mw%RJb
zn;0Zkd#SVm`i09g6T9ix0s6Ive(j@QbZ-%cj~NYi;uO9OK3z}KAIw<j(N|hM#sz6d
zdK0NsR82e7?1N@lf#jKJGm)YgXO1r_AlS1;F$VUm(IO<K19oY#`LNl|=+s|kBJ@Nj
zEzLV9bjx8~`Ow(hYw>qn?sWVeWeIhtEL4&o@D)oxo`81y;em03o(?#jg0BHDe{x&J
zFZ+j*q|$y;DK%wc7yUvTS0<jJUug2m#18s(h^7NCRIF=+gTnLyGfu1SAV@MrR!pR(
zG);sSLt{m>1$6s0qp3)frRFjP;t!QriAPg4qjZcL#;#Bq+es8>cc@GdIVKIf`_TNf
zyARDzyZg}m4D?JPVtDsq@i<Fu$DG3h?W|LVnT(jQfF5;LWSNotE*+L%-MA1h^6nwE
zo!Lx1=0<oI(S#ntE+39R>79Bx?gfE?X$86>|7Na;IR!BGin?jtS>f7Mn|`N;ejM!B
z9W70BNomZ!6}nkS1si!_6=%{S5Vp|xxbeJ<V~?$mlZ@m~h#t1@<7WZiO?X&pqenC|
zQm8|m*?2%i4hPpuONosBYomw5CVDs&iXN7g%1MRMz(E#o_EeSQ7L{n<%q);Pz9^Mi
zBc>uc@S+|OuEx7d2~)Bf9i?*GwwVxD8>$GI47CZ`O6ZE}MRca^!foWosKxckm6Qs~
zMT3O;4ULd^7+(QVd*eZPIH(rKMq)<6k|rIFF5gp95M$DIZNNmb6h9bqW=z5eqaMbL
zAsafFF=NJv-N4tVM|rBSV4F$_rd#~1S&6XWexOuN+tf|t=^OUTQ@gT(u(HV|#7g!L
zrTCYW?8BvUj$ATBSv<J#QiB`0(OD9T$AbaTEDT~4@rF!Hh;g#?TD!Glv+2%8AZGb1
zM|=0-1YrE;2AO#b2w$>rLZB~qQo)W7Pz9VXd9V&ekBBq{aQ?@tkkdpfBr@)2Io-|f
z86fr;+7A~|6Sq(^lMfvXtv;eOiW~5lHCi`~pYp0l!r?IkIC??k^l)D~O8jCuotZG(
znMv*bL7A|$#)11YPSGUYF~MqPbf!BF&>hJ7!dF*d*%8kQSc<R0JvZR5)8>5!tlwlF
z91vPTRkhu8PY<!_+eB>Y`!-spfwZKq67l>U2l}lr*HZSv7n<+|SGjQkz8!IFq5YpB
zx{ao^!aY<P;<~3^sJMO;Wuc(#X_lA*HXIw#hn+~j-17F>2qLd}cIm^!+OH2ug8Epw
zMqD56J!bXBOkZKwdHZNkd*G6dkQZid=hJ)GTSjX`p+_FWvouotg|-9}SSoEhRehk?
z2uDyV&5t~DWS~EkzYa!hBI!c&GmhS|=NO_DNDdnbD<1%uZ}pu7vY{Iw?m_zupE)>v
zwwErM`a_?l2g9CEkCrm55_|2_CGmV<ELY7+9L%3$3Np?F_D;n)GsNK>j9&*BP{OSR
zMHSCb!oHH#IK|Kn(ZVrT<Wf|GWibn+|Gt$fa=n>DfEQL<%u_Nc(i)_C<P3{_LnrAH
zgPIUZ*-CW^wai6r&ut!Ruc}bEX`Jc=jH%f2Y#;WEY<;D?08LLP7S`?wt@lwi2eIk7
zfF+kbt~r{;aV#2-E0KnMN&C>nyrIjDHfU)br<{4W{HE7e>c=>ZVG;y?nnbyl!kFH~
zKHTivM>qTa)sj22T~dSHU0$)_U&xVgccBw#|A=dO@aQ~AFe2%vdj}l~wMTvmMkCVc
z;287h^XTE-EDz-vCoL2df}uz)Z3Jy-D5A!$YN`k=SK$nvS$(>iNU5lOYw6S``X)29
zPqc!tA>{@;yQ~o5L~6Uk80oODLs^lHPE4pld$%w_q!@@j(s+}_6vDANKMY+>6Gy}#
z2<{^p*n$J5#xS7_R2bVN^aNf{=r&^d>aT}K+zs2^hjUppm)ULhqTpzr+3jI&^U*d7
z7<aJgXt!-cb^C+XSuP!CvKN!0ZCz5>y%|>af6m(AfNh;YF@3ZS*%sLLEgILCAM9&9
zQ1+|(mZ$0;{}DYA{nVgwsaKFZl{oZ>w<nZ6EiBM`LR}+{j*245@kOQ_7Qx+A)0@B(
z=0Hm=KUi_srDn)8`YBpg3OS0y{6x8-S0gvw10X4PjvYYlv5oBzwy+&4UuV3WGB+L?
zrAyKVC{$4$3(dU|6OmBM&{Kj%H?$`Sosib|*6rA=?bu;VkETTT!2N&2+ZT)T{)m%>
zuemJllD0ddE0)o@SKM);`$l82MomjO!MRs;V;m2cr@?jA$wox(Ms#9O)iSVi<G65-
z2Z0}*0Hi|pm_qi9sF1U%klSfO<a4K+E2j@YO+g{Jk0k0o1NUO^Ji!V0YqWU4%l{ne
zzVYkSX6iH7tDRgud5S_x|2%T!c392r_+!7@J5$Tk7rwhEz1*`ud+-vL%<^U4@=R*=
zO!K#9x_x7bN3Srs=)wyv;YH`R&Zhsfv%L#*ojn)ca$(!53$vM)3+>xYJiKMGGnMmN
zQ@PYdL`0cA$!uV+YPQ#t%B}G7nGUZr-PxU4?Jdi<wWTwjO_)t7vpH!tr_J^<>6Too
zYdP5Uba$*?-rePOrm{B$Ffv;lS&=Z?Yw7Oj&Umfq9+cIdv6r*$^=tsMZS_{BGud`9
zGxBHB%l+R*FZ|M$6{)VSbVt@+b)`Df_7~oN-jZqW$@zKOQl0G`t8HRuz5@x%-VL!m
zE~M(>w^uD$H0Rpn)p#XS!@?`Q7G_*E;q6t`)PfTywsf@PJy?@2xTLKkwLDvOp3QLC
zf;sb(SI=3{FmF=TdFNG4C`q?Cu?PiB@|I*$EjOhzRbAb=s#Hh&%CvW7ca@bWTb1js
zx+T?~t3rdJ+@?%7-dfY$QI*bQx-;ijwRd!+m!~?a@Yb6=y_c)1E8n>ctj=vEQO|7^
zYm3XriflIT+M%-0dTB^dm8$B*>waN;mV=u=-<4j~1C6Cy!*q+%H|N_kKuxPuvEEG0
zdNSQB+gp(|v0>gt5N#51USt}wss-(a$}dY-wRCr(5r{8@NmXU@Jw13m4=&kY?c1T0
zs!TyyZ%(eNBc00Ts=B+<tUJ`j3ga#5?yl-gb*=W5x*S#P@*28ULfxnV-jwSFDoC}q
zR&}Ls5n|6+!s3N<uShJhzZ<T!-wT_Uh<+zd%%(FCd>DHuNhaoC-w&m#=qg_t-CDkH
zE3lJnm8lu&4*jI%CNd=3#5TdNvb8Q~JKvR~I!v4h3vca6myqA~7QCV<i(WW!;>5q<
z9Hp|bo2hy`_os%&Ir9_A#zf=7Mb{<gFPd}R%&IkOxM|~wYNiiIwP^mO9$qK4Jh!6i
zlB!zN$65>Z0n>W6+)JA;yDYIN*|1<iV*Z>3rs<3dFSsPPx+m?F-!x}Qy>+FL$<2!l
zgZTWmlBN*+$#maRbqRb2IR*NCvF#uiT(TnFzI;WlL_t<)FWY`=8g-MAWKm*1{L)0*
zwrByVz~ZLF+y>MwE`3pA?vgoI&R>vV!Q$we7B0AMJ{(^=y#>*i++JN=HPOvR!^mWI
z>ywR9O^Owvan9l^BJ>f-k_L#$tRgtGbKAU*cJy&55knbO!RQ|^0&AfzjF0VwNxTUx
z-$U0lS|mHuxfDs5Y=QOW*rQP@r(0K^BsXi(;IGNg>Fr(Zxpp{=Tfu>$whWCi>SO3x
z2;zsgpM`i9rFX`sXVN_#s~rY9zfHFc3{EdQGvfl+3olBu!wFyK(wWZoE~5cM-vW=>
zW%VRgFt}B!RTh+IMt&wJPUn!IIGv<1@q_TDZ<U|YDYOWEoOD~bc{w7&j&S~4GVQrE
zi-)(%-D3De=a<x?^25Rlf7`3rT9OjQ1pGOjUN@J;APAc<Y4pdG&*@abQt6aG2$n1h
zH-D*g%Fn{#yWKc)H~&b}Wgu|#QwLP)57mzwfGB(gN9OlaSwD90Nm5r%rh0nPT?kX=
z&z*Zw)x_py7?1K*HB%=~om_pv^t`#8vTh23=-SCOlQ;pYqC4l6_;(Wi&A+nQ!!)9w
zurc^YpR??jS9a?nuWVIi+3QX}W!z@WE?y6u{?TV4{h9Of%J-JfJ>%r^%Ryn&E+!nG
zHu~eIr~LFA2*>AL^v6%X&QD)MI6i07Y(~<@ysC@{sO)<w5ua7`N7Bo)e*Q-Z$LA;X
z$4}qur|%&gpEK!?q%SbZUKOAh3CHJ`^heSYy<^IMVrgCvm|mJdpU==Ap((%LFQbmr
z<8-u?)8C=<-x}~=&*|6d^zy|%|NA)om6V>~Hn2@#bkxu3rjC+cAMoGH>5FxK)rMpc
z^tqD$NdEGKUw##*Ul&Sm^3&@${n=3ZlYaVAPB*L2KL3C7)7KBf|2|H?HN^jBKYu@`
zuMDMk`ssT)y%0)Y@25*gxJaj4_C~)|+)?86SI6n^)cMO7`TUo1x^c>W{oDQY^_>1q
z`j+%DPmCb~vcLN{ou2g)q<`B_@8@*$noP-G{xhHdUQT~5B;PJS-8cxOeLIx?w4Yu@
z&H|qY=#S6;qkeiFr@tqZzS>V;%IR_Z*AK)0K2Fbv_;>jH`#Jq$oo-!((cfN9r&A=p
z{A2#c_c6vXBI)Xoej9!LR*~bxXF@1_yq{jj>8FMGm;3yea{4!kiLbvWeEHXNdR+gy
zkJFcj^1sW^-_Pm456Sl{U%tJZetJm0F}{2rwyDwQ;!yfjlU@b9iqmt{k3@d>$T4l@
zz6|q(2S|JxZi6a7t(@MZWh5S#8Zk{f-N`iPhvayRFXvWHU!lt=PZ}Ahj9r{gCrx}A
zsEmP=e3}DH^KYj(G@m@huS+GR;q!MPIqvl3sOIzyS|4L>Gs>X;+QjK*JP>`AU*_}g
z;q*=_#7}Sa(>HT^ZK(XW`Q>lp^j)F+kNNorI6cmv9prR+^hZ$sGk*R`jP3ME(jQ;G
ztNrw9PG1{J&-v+1!=(3c`maOz_xt%bbNX*X>A&#Pw{iM8I{lp{+1Swlr^o64;4tZx
zFC)gDcN_ij>!0z<ujcg1Q2U(Xw@=eB={=l&bBO;6pZ{h~H}Qa9{z5-}8>hcc=eNU+
ztv{zX==AbBKmS2azf7mEHOXETuu6K75k4V*OEJ-MOG7qZ%QSsN=*##Xzl<fEzATg;
z#C<tV|EEy;hy46^bNX9!`t?Ei4|Dnqo!%9sKhNnYonC&e&;Jmo$BpS{okkfw&n#T{
z^_%PGujTZ=Cn7(+;HNL)^e=|eKkKLGIQ^+mdcU83H>ZC;l>RM0{b5dzlka&>zd+}=
zF2>l%Ax?ilr<Vs~`dOz_g6DmN{`mF#JHPzeVbYgy`WtorW|Q5NpX2mvbb9%fKL5Kp
zJ+A#8=JY5VCi{Gz(`z(;+r@1CIXy0BILkbZ9O1sszbcTwmeZ%{bQ_Ww{!2K0lTI(+
z;MXt5>E^zbuiu@1`rVu!7t=n>>2;d_ErEQ`bNUXQUj7xI{~=EQW+**~NzQsXB_QUZ
zKO&#)KBj)PoIY2l^PHv%*b+_;l}|q8i-C-*m?o|dY~l1c9c<_HxHj57O!{F?H}hYq
z;}upus>ApS{K4n$GW?NriYMM{T)ol5#Y~eRLZMj`)bR#RkBjZraC)=OUv4L;WXJb%
zdMcD2__0ShJsnEF!Efh1oPNGeZ?W<b6!oF%j`e<ZBr0u;N2%ct4X5P_U&zU?W?Zh@
z7(bWsFYvWl8^G^c#_8>i^f7A!_`V9hn)qKp@fJR2Edby1@Q?8O8UG0-;&T=L5&pLn
zYvOaJ{qoL-E(rfe#(&8;&D#w9SPOiHarzqLousbp&n|oseJv+R{WdV(%ea~E1KYy*
z6O5a29oT2_uMGTYhckV+OM2922=8%l8Vd+t&-kk-6FwA25q=-zQs0+Bk0j@p-fGA^
z6aVAqYZ(9fM2nlaA3y0a*u<xw`Mky^d-oz<AU>ZnMuhm5^+)-LemB#L{EHcvI8)?&
zH{+EYe+hmE<JF9l-Oy(X<4q3!ImTBoj%GEVCmCPGICpRF2aMn8&>v!a3*#dHX|N}%
z*EYsq%lzNW_<)1YV*DWEvYyt&cqPYMuVg;U8Lwvi4UDg2yoqt@|Ma<s@gBy{wy;Of
z*C9DKGcJ1jI^)|IH*q5Je2?(~#>X?CUon2r!Rf`d#9!h;DfbPGS91&{_*BN57&l`-
z%4lG`$H9|~Z+7rJ<J%Y)J@hd?z_`@w<BT6<T-xhPj8}53BlZ1v;Itm<ex8rP|0@Qk
zb(JVSKa0VC9fOa7--+ULY7Bm64F0+p{M;D4ItHHs{1s^Vvro1f61z<>egWg+XBIJj
z3F9WFM%H)5@K49!9l*~dd*g<Y_FBbwHRF>0KHwzh-*LHDa{7lE|8K_4*o(Anz$Gt}
zny)9BekS{|XE||zaa!x9&m;EB+sF9hj0^wY#qb{szi;%({p(id^IFF5X57R%NSny`
zscg>$rmtrFgN$Fqcs=7e7GxUZH!%M1OfT)y&G;G``0%MSf3bav@ha{woa}uHc$D5A
zWcu5f-mGte*Dl6?&bV3E1pb{EK0k=Te-zVSejY>rhZuYu?11#Yod*iDjtY5R#rTc$
ztpdz?27aCoJgUA^WAKY&@XKTHYk-qH-*d|CWc+UKa4%S~y!XWLDKP!}c))p%>FMw|
z@xPV_*l#obFyn9If#LzipJx0y#^1yEXE8^L(!&p!elZ6K!vE)tpT`|n`2UgdXBf{j
z|1;3vNY0KMEijkyw=zD59l4pKA#Ez-YZ*7|xxnAf_%<Gh%sMV`I(kR^pS;#GuCZTU
z3V2k#x|se^HvAn-|6ayVW?cH|M;L$W1WRbvfARBkjK7J?O);OHz@y6jq44Jc)2uTi
z&k*CkWj>+@4}OR0^=a<!o0$K2;8Fa~i@`5oK2zRo8GMuZ%w_zKjB_#G^)Y<%On>!T
zEQ96D=lwDCpJ)27GQC;1MxL)T{yDY>(f{`u&+<g!DdvADhJP9SDe328vw-P&(q0MR
zQTll`)4#y<bC~~>82UP<e>o30+&tbA#*a+049t2te%{1*?NW<NeE1&5Kkt<L4~%Cy
z-j;U%G~-7uw0z7uIevZ>cvQW1#NbcG;J=8$55?erh{4M--jM#^#vN{j71w(m;~!+)
ztkWZ{n(=#DxL!<u8RL7n10@*0k?}uWW&u{8*TeX&%Pii^^mj6T^9&1^wSWBlDC2K_
zhsDi$KYl*M_(OFTH|zZP`4r<b*ikLC$=+_p-^+L><NwR}3yhofe5Cz`@wak?b}@Z9
z#!J%MFBzBd{Z))l;`)Av=_dk@YWEA7{+fDAXx7>Bv!3yW28;ie`J@=HyW9fjFrH_;
zm2s(Wf$@hN{9eY(udobmV?JMId@bW<-5hD(VSLj9ODOm+8UJXb#cyUlCt*Ay{j_nv
zdmZDa#*9-{On(Q{bG5y5W9Vly{nJd(>h|hl=&xn^N>+@FYd6Kv-@)`7nZA$Z{~+Tx
zU1b3oFSZK*CX2IKdyg`nVf>$%&j9c!d-y5SpUM2+!t{S)yq0n99^NZ45su<B2{`Hh
z8Kz&%eC9CzrbQN5!1#5H-^BReGoEGqkBonjae4zJ@qdUJKgIaJFurDq1-{StQ;c83
z9bL-(DdV4H`~s#w06eN*N0@$q=^tSF*S*}zv+`;Se1!4oj8|S0#uqaF8OCM)yNvN&
zjPsY52OcHQ?M%O(2Ntozdt&JCW%{W+P|NuBPz?PeOh5g4EB^r3>-iY^?=$`S8!X{B
znf^D7U%}(`1jbLRh^`l{r$*Jc3OKcU{Zh-otheIlOvWd$;Y%EHCF9RBF8yU0<JB#e
zPuhOjjZ~9cc+<UXY_!|ilGyH^%XG_b{bYI-c4c96JEz(mSIL!TE2U3sHe=ByQwuXu
zEB10DXIDB879B~uxjdU(hF#lTMJVm#63U)bCYxq@FPUswlvuLly5wceSI%96eXGgj
z<f&7m;VIE@O*CBX*{z>Rvt=<WS9SwlWR@wjqT!j*@Qi49dNe#O8m^6oqct!kS_4y}
zH87<*l6OsXEo-7{Src7L94v`yxti!&)<oB`Cc2h2(Y36Ju4PShEu$+LUB~DuM%OU9
zg3<Mhu3k*-BK28~V=x^Z-7Q{QCY`3!G%Y==y_MOno(#5hw&C22O-&}VIqc|9wyd}*
z*_LWIM{=+O)I(Rt&UbXYTfifQQ#bi+ntu^P{t2pFcdKW%q^?NefJU;d)o$jLb2W4T
zDB01yd^tASwwbM+URzs7KD)w_b#+ss|9cq@4z${HHk^s~T$>G`mW@S{=44TF{(^;<
z&RLLLc-du(6HAgy=3KfUk;L&L@)G$>I~}}fZ(D7<aZ=7ErD<1plHC@As7OmHn{Mgs
z!3iOg&U=J8y`{SoT+_*(OuDUo6=|m{*L@QX74@tJ*4=}%C99L&D9%>Vh|73;I!huu
zwAoafJw+thiEKqG>yW|8rZZjekpXWio8%0a?GqZtq5bPwZt`WQ;PhJS*{E%k$y645
z%5%2ebt><Fx0<kx6WY9O_Ft3AAO^m2-5s9IZgUWGeI3Dpc4%9cR>4_}7-qA*VRw_0
z#vAc@1GJOFLBq7EJe_MYXMg<DR#KFlzLI_ZTA^qSE46CGG{&iPhW5GB4)+Z2iKp$-
zc6U5)-Uooq@2&;#83A;=R%|Y}N1$99>PEERIs&(td*Z+)%%thCQW_=<HFmF-g3!fL
zZfE!ugPWIXUsN(xjwF&z@m6lIYn3YcB1zeXuU3Wass6Tq!-6HUNyRy`-8i_09%If`
zIJLmZ1xie&T3T?l&q~b2nUfZVo8Ah}nlHjdV74FQG%P!vn|f|h*1#y>N9o8Q)u$at
zC=De;!rx#lp*rhP#MJJUFM?qdp-S4bA%;w!N<rWS%5>LCFO}<VFReOsh%So1vbk2o
zTjWT)y6K`j&qak88xOwH%HSSBF=E($Y$82X2aTF`v>YrP(v6}F;kqz7j-u-v9AYU(
zeOl^Iwrg5B<=l$73Qnz<OF6W{?C6XM9l`;XEthx&5Sp8YQ_Ggl(#ok0KGss4z(+z<
z0&%4CRho+}1qW6gI&zl|6h6bE5~Z)w`5JSALZuOZ&Pb;xoD?l18!>l5Id5Vzgp=eP
zOGHv|%0wsf7%yBfu;y{#MvwfG)PX~nRz^m`Dibnx@45^cEjv;@(mQGNra}bPq{K6-
z@b0c$s=X^4u&~#BBt~-}CmE$6;v9t&eY9#QM|2A12_L%A5>UR8rK%1p>SHI1^EO4g
z*2i>od2C{GL`Nr)C?=b4UtA84%bHe({7#I>9q4Md{J^;;%{c32JCg`QixT;W4^q*#
zMX98)wvKL`MF#<dDk303ErAh9mugP0+H6UyFkH~+Z<*-ffrT(ElpnK#yQnXQqJ*57
zd!NbkZ`>C3rr{r6+-pA7G57|BPgnFGkHMc)xaR*Gh0joYI?HSV$um>ok1KqZ!m;Va
zd|djsDxB76rCygPT+5S+!8a>>w&FwkF6cw$YCT*RgRhLizoKxuhahsELX7dDFI``{
z?@u54((==NdHT?o*5{`cuKE8);hO)vlMEZ9RxCaG@?6C@WqZ5A->vXV6#m&5{L2cb
zC4H&y3kt7O_{@`Wfe$qU$@3?+&s!NMdFJ7t@R9QggeMgK3f!lo&)?wRT>KOIvl%CP
zT8bBZvck3fd}SPn@F9AQ?`B-&l>0$HR`gdQkMRGULqDIG;xiWaYs@$PX!;t)g+DLv
zdKbsgFLLOcEnDx#82YS3|4yb~7eoK#sg{8BKuf_=uNM_gWeWZp+%KSyOTU0|sn;?~
z=3S%cX)RXxWE8H;{fxqOxnGOn|CFNF{P!tb^It&5hY!iG`%zNix<7U?F7;Yra(mu7
zMNdn+Qm;=aT=(BEDO{KPw8C|{zfid5b1v4;=_B$;`%ZIk(j9#+ad5G>CmAO_5D$_6
zXAXT2F~O${>(BHd`Wx_1=wHFO$a4etw+Rlu9(m~VHV41Q!roNHpO(0Vf4#!BemWdJ
zBIjyFuiNFH6i&Ccg+Hys(?{f&{=3h?#Si>i@zHu4gY|ID=U#j1oz1wbx3@X;qPL42
zd_D7-=is8Z1&Y7cTT0<tZ#jpL$hkq$YrTC&;aYD$RrnQ<QS>P{9jLxb6+WJCMu?v8
zM;d+J!Z^{>y#?Vj#i9QU5##fAMc;&Lp}#@lOBLSZ@cAs#=yRK**X91B!k2+g_&*zi
zzl;MflArpP(4VjHg$lny;VlaPqr!E2UGfSL;Y0j2zEt6@NRx7V7#BT1M49oqP0{Q6
zeq7;N{v8T$M1JA_V})z^Ur@M~^TJn};)~?JO5s}mjKb5Z-1jS7kJq1PT<W{s7Uz9c
z(Jxngo^$BG!t{F-z1GjK9QuBye=&ysOx|!J^6X&x*E3G-sQK48^xtIqi(}}M4*j>7
zzC+RL`aa^&KhN|}D|+4Ef8x-8kLiCCLtptSOCa_AZ>Fzeoa(Fj&vxj4%Jf&n(64mp
zrG4*E^t!(HIP||{{`V<*t^Y4L^uJ^J{uui2IP_&@HpAW+`Z2Gz>7pNLuS&*AKU)5G
zIrJwp|1L$Z^;vM}&t&=!$Iw6Q(95}x9WnG{USs7aIXm!A{J=Recp?VBnQ_sBwBs5@
zul2Cmp|9e4{iC8!DS5Uz^ye}CS7PV~9D3Q`_5B$7KRNW$j;D<e^rPj!j&Z5)g)C3I
zqSx)X!J(hd^moV5f6k$QJJXxzH$o)0-~FEHY2LI*>21twt^9;9QTVGBezn5ir0{DM
zei7qTZjZv>t?=mzZ$BFs_z=CuKcn!AkS6x_9feO*`1!BH1wO<lhkru<E`{e6-p9DK
z%N*9*hZOxvMZeXdzmn-6QuMbd`ll7%uJFAI*YzE8_+QWb|4-3t{%5=%O!1-mw&9=D
z_bm$7{O2+*^-VMXD;2%wpH_IM;(wdMHUAGf{IkseV~Sq$|Exp5mg%?0(C>8U-_P{l
zilP6VL;n$`ANvMW1|QO!Zr^H!uR@yWbD_d@eV4`H`562jg?B6dA6NKlg+CjEe_!FZ
zD*B%)T+8Y4hA679?ng5fuKUp^6uw6B|GdI=|9X;fu`7CU27SKc;Oh<QdH?O;^y+!~
z{8aJ35!a&s*S^Ul`|~pCr{^$E^;)awXDa;N3ZL)rk^Z|#(Jxl?%N0&@eUWFS!$<n*
z9g1G_`H;f96rcMYKGGkzDSFLkz@eA^_5B$7KREQ#zfP`#5crVZH2?Fe2o2`H(!Xk|
z3|vIt#<;Y*^sk#0y>6EW6|Vc&uN1z{3-tU)h3kGXVFHNoaqamk#zmerY==u7e7(u-
zdGB`cub0_`4CBOK+u<68>;AG$;kP4?*vWTd@ZZPauYR*FpUTz!>t==PetmZg{-qfF
zdkWY3+^=xW|LnH}^1MgYYk|VE3ePHhgTfzDxTb&QIhKDpzG#W-UT&{9JNSA_=AG~0
z&zISRTE@rXQny!~!f!^Jv`gCIGl2xaC$H!;xEA_*9QvtDe}4@9R~7zV#pinp*X?`y
zxm3EfXC0q3F)sR9z~$bk=(U`Ah3odcL*eg3Ia03&6n>||zreVZEBo-jq3CtFKTx<X
zcfZ1Qxo4b5wYBvv;9KN*t-}9S;TI^pPvP?vuE*0m7#I0PZ|_(1TK)$VuI2x{!nOQA
zP`EDl<hMdNe8%FR=JN`LYd+^NE^>a7+xG$o-@*7C#YfA3ox*jwX@$QJGKrqwt8h*K
zZwl9O!c7yYR>8P%faST3ajLJDXN$tGLz<M^Hi@`c{oI6a!EaaiT?+qz!Z#`WqYBsb
zUu0bL`T8-)gwK<TUd#DAh3op((*y_~;q&Mz_WBwJUvFVA<>2C%+8HPPXup(Kxb{mQ
zariW{{GU<uTK*>-dXe)v2NyZN@8IuZ{y$dywVeN_@DHF4(q3o2%~o9WlV&~>7<cXA
zN{9YEO#iMJ`X4ELvnu!8^KH4rU&jgU3fJxUBI6?G^W2W7T@aRky}k5a<>1neZ(!VQ
z$4Ls;?RcfbN80gSie9(lZ3@?Ve#YVRVb<FoMX&k%)}eoZ=}(z#D_GPn3fFqxp>VC|
zH(VI->BCR4hxrQE^dFDGf1_~SUazXQ{H4A6S^hULPV#?Hm0PRuyA?iL;rA%~3dYH-
zKcw)h75zUbe5s<}qVSty=<|$={LirbYZbkg|4xUVo`XQ2%`x=<tZ-f5hZH^s`K4W+
zQn;r7j>0wlPZj<i#b-hdNoD=^ZTJ@c3l*;E3kuitKVw|<bAbEf?;LzR6^754DfV0F
z_pyFXW8CeJuTl8T$SQJP?C_!IFVJU!qR-%3=sO*H>33^m=s&FRe^h)PP`Hlwb}L-R
zd#|2KQU&9V#4T@O-0i<p6n-!AiTn>LJgM+MI{fFb9?qzxQf>QY@GX4iE4*9b>lv4J
z5ji(0dd=tG6t4M<qe&D#E}vI1?$-Alh3oo$OyRn|zjXLZeUB)5E$78F`N4<E)$#BZ
zjEkHS55H5<Yd&ifuIu|@hmXX2pKx%A_r9q3X#Qho7%`2UAH`2;ud@~YF@;Z2_$Gxn
zDO|^a%N4Hu^LH5+J)Azy%JCBiUvFXWmkuud_qU3_jyJ~4v>8eNy8ljPT*{UHJ6F+b
z{UjBx`(sw&WCEhMJ7e$<DLkj>cPTut@I8!+oYKAr6up*n(kx`gN9d&=O=sM-|LYa5
z?dl&CuG{w^g|9|AQr`oNOSwrZh|(3kmh*Bl0(^vC<h+J)SI#zt>wdad;kuvJ%ntLH
zemaM7m;Y@F*Lv8Ya9!WS4u6sVq>F92F8}EYCzXiau8zTb6|ViphZq;ViQjlY(Q7^L
zRJgXc-zZ$y_pG-E^6UC8SGe{MYZb2j!zUE3?dNL>*Zc<+{$8b@^DYVGDJc9Rh3mMn
zRpGi`>lLo$xmV#@p8YZSZxl|hRNArZ9f6!0AFpsSRiSTVT-xz`_Ir5;UvJrZw>!A_
zz4s~pH!A)gRJitg+Z{gQ_jW0IZ9n@RdWl<p7eilBX9Xtv*YoIe8JGI5Ap(4+)tN6d
z?&xywRQNiOh~7S{aIMc57#IEvSfAw-jN&8sdUJ)fK?fIop2awcr}bH-aIMdT!$<Vl
ztmt*UG7A3y%8+{flfy^!{5eIh`3yMpcd<VA#?Zg&Qd@B%+pNlcgTi%tO=Vp4Chav>
z(QA30RJiVs2NkZ{v1V={k8a0n7?*NexgFaae7()?^*H#aSP!cdf8CA`IP^K@{{;sZ
z{*O7h@ZTB3|GartFp+-)^PlG6!v7r(F8t>+J{Ih>{EHQ??eGH%*M9!fjEg+Gh#@`?
zEBeK_7CStsaNS<x5++;GI^+a}>vmkqxRiT0>!I7h*ITyUY6pLw<-9}j*Lt`|;h$3S
zZ&f()mU?|f;kPRMX@zTj{+GhFKfho;GUG$yY5a;9JgaaWAAUmNG!%=R|Eh3JKcMif
zivFO&HT|3FL4*&<srkQ6;hMft;hO&)j7vK{IL@&3Haqxw3ws}N@E5rqKfyR%>UKP+
za4k=5gJnqc8t-IW<auVCrCa0R>n-fP*TI*cWE0-6_-lDSqVNSEm3H}z!$->fvV%*x
zUw7~vm-|h{UzhtGh3oph{BkR=tB2_dr>T#~xq)%f&jHrY2OV7G{HTN9%W~eY_-i@8
z?a-h8GArNzIJodX;NV|j{)b}tPrkzP6Zy|){%?11;XmKO_b~s3jJx)BpF_WZ`G3yA
zh5wfwT=+j8!~c5@z3|`f;KKg}2OoQ~t^Xfl_-`Yl#7Feg!SX-m;Oh+)o^$2kBL8!Y
zyZZT=LofV)=itJBOrtGG<PrH#W8CHc4Tt_Nmj8JN7ydtV@N-x{{~N=<?n)~UmHW5&
zC;ein!u2?Ho5CMb^dDwi>h&PYxz)kfBM*H(@8AiR^AW{g_oE#O{{r%hoTn}{?2O<3
zlENn`{L2de7lnUC;g81P{~m+?Fa|%hDUhc_@$ZPif1~iPDf-D*Me|83{BcG9bH+vg
z&#?Yqbnx|-t#|Sw`$OoLu>N1pxNC=Rcjyl={{;>%{I7O!;s34}{vUPdPe0Yl_n?Cd
z|1Uatj^+Pa4F9)L(1wrH_k8Amk%O-{R5<(Q;KF|a<F0;w=+G}<{y%qc;s09)znA4d
z62pJ|5-XU<FZ|!?;KIMg!5?M*vlw^fzu%$nVEG?*aN++o2N(IDjN$*^4!!XIg@X(K
z!wxR;d(Bo4uKan%ML&13{2Lrx_`l!5Mg9-P@PAt2PeTOpKYw!gJjmsqakZ6G<dJe;
z<KVyLc6k%yZoU4&p?`+?Kj7fPf185~|LrmSpL6Ji|6T_d{y%f@vre(~{B;cfnrm#j
z=-~j%U+3V$|8fTx`4=(n>gOhhUijbY;KF}{gNyuk#qfVZ;dh}b((eDK@H-X$+G}xv
z56P*=&7{HykS2V(6h2+y|Eh3Jzg^+qQuMnOK272Ot8h(!#&saVhvdxRpU5*w;oS=F
zjKM#l@aGl%5aZJB^Vv@Rpy;nx^sl1}d`KR0fg(?}!nHm>!MO0J=N;4M^NOB+3ZEf`
zYyRf2CFtDtn)*)SX7TUhTlg$dxYlz<;hO%_G5GHlev9J2>;@{;maFaIR)t@Lbdl$A
zg=;?NQ}Bcj)l2h9C|vVtQ}}-&kMQ5B@b4-78w%HY_;Cz=BnF@QE-=N1<orDTNx4@m
zT-)c@6~0N)|5)Lx6+SMB3w&HXye<a+n;5)9;g5iy$hk@3TAr?@RB8}!oPL_UUc1zO
zi`}lbm)`pvypiqs1B{dWq(Uk8S%uG1`0r!zh7^eKAwF9En-#A0{AGn}Kky5M>vm5s
zGwcojkK(7u`BjB$JFK$gCLSYQ$fu5f5Jvwv%=VT#_!szky@S89%mVj0xV%57-@)bm
zIeQ&k-k*a<bDEFHBk#{S$HD)W6pPP12bcHcv^u!FCuf6$%X@M@<>2x@iX9Fv@1xk~
z;PO6-v8-H?U)~pSj)TklBIY@`yceR?!R5UW8ysBT3-KujKbz+ZI~-iz|FF-&<^2z1
z$5_2mGX0bHKb+&>@}7rz4leI=XmxOTZ^H%$m-jY&%E9IR2|FBI-dC{C!R5UKW7#f5
zet9p!ISwxGC79>n@?L^g2bcE`Y;bUS|G=jlT;4yh!@=b}1N$6Y-ZMb&@1T#!FYg&R
z$H7m2qovc&IiWoAet=eoUY@(Z!NKLZ`=4@fdA|M*2bbsQ?{jc@?~|;ri2U;2Cs`K}
zT%KEB&+)k6@*MgV4leJ5y34`k`ScGuxI7R383&i=!5?(+n`c;kN_;Bv$n)B3d3+H3
zp*l;y#KGlx?Kua3?_5iNw}Z>`+8=gsd0zYT4*tu8<#Wiv<$3LA@p`Jr`KQY)eXWDb
zdq|czxV$GM=iu^u_q!cjp6~v!gUj>XpLcM1zWX5um*=~m#ePfVm*>0JI=DRFeTjq1
z^WAd}F3)$r+rj0%3J*KDJoo*12bbr&A98Scj{8|W-xB%ddF?YDT%OB*t%Fzc`qU~1
zm*=l<ad3Ig`gRAG=dAB`aCz?gVF#DztdHloN#vL3tj~0CdCvN^4ld7GU*+KPob@dZ
zF3(xt?%?vA_1zBs$!2TMhaFs=r#}94n=bOp^VDZLxI9mto~utEp_k{WuX1pCp86IC
zm-nu0cW`;0`fdl8_rn}^aCz^__%p)t$aB_bI=H-l=~@Su_q42XaC!dv76+I2%xrgX
zd0*3R2bcHN9CmPdUi<i$hvk>&wa;{Lc@NLE4leIwS>xdHJ{EfZJbk3S<h?78I=H;&
zWRHW(dskj`@Y<z@t@rv0`z`$I8LxA2c~8hv2bbr^uXk{HPsn`^{_HYaUcZCObLICs
zxV*Q-o19(UnM*ChHy$5szE{XEJOeZ}Ifv&Ndy`vJxs*3~SvKoU&UD)gJj$^%jVIDh
z?&{8^C(pmK`2zF&YQA3Hm7mN{@>`8O#3{WZX&;$tB|WykRme`EGY`K$vpW9uc#992
z9~@@;;Op><LZ><(u|M{H(tcO*I7{w<^71g_jkn3(d5n+YYxyc`m0#g+xBT;wOgu-M
zzXo}UC)t<&RC4+Bo)!J6)ED?ob5F`&?cg)JEil=^MSl6d6zTF?leTewjnQwHmX`Y|
z^l;^0!TJ9md2a(>RdMEzp9IjT=nYCORjcs@4T`*p7Q|{IT)noWq7uax3~!0hB2Y*a
zEkSHZ<@OSrZlR^EZPPB@rCWBTTVGPE7?6@^X^qxuYS}ea+9qDwrpm8oTekkc-)EjV
zXU@6zK-Bj4+5P_x<j$P$JoC&m&&)jYa^{>VL7014{aftg@Q`OT{(6nypRkn1jmEDA
zoUi=7-x~T()gK*p(Kfy<|9ojP=GwdY>v=uHjZ5>)`F1ouc}B~gF&1s)FW#+>$RE|;
zFwo?S-}$;km$gCTGr!UJ=3Ag+7K~XowuIL>`87YrZ+<VCI8nfhE}k%MlKAExdv|jB
zRfPos#{%#2obqL=MV|>IC=+j)cLGj~txTnVooYBxlCD4S1nXrF!&2#Fe=3vg&r}{r
z&loDcvZ1NXsdT#r?;@5;7t?7k6MfSA)RW4tIF+s!4ylZnYHX|hu+YPAZcCh7%aaTd
z+Agx$a5vC|WDA=8R7#La4@i45Wkn5b1+IW1Kk?LpPEw>YMZz=vQ$G_Xo(b<y6?E=F
zzJold{NOOhWa^#+eWIDiN8l@usq{m|;%u5LPSYYd)6<R1#c5gvXI)!uNn%uTZDLeK
zb7E9wOJdZV?TJy<ZHZC0btXpDbtgvE_bp6i29GQiwv8#o8Q<34I1VlgqP=k<d^8EE
zrX=*)I0?6@rp6g`(v4+wGK~}_!y+=ivZ7JDQVUQzn?%aYvFgiQ4@EqeYPxJ#s;P-7
z0529sd!$6ujiY1vP2R+?#D)%vVpA;2NQ{EcrWpkaN=;EQhKgF{hJ~7bA<(*!EM53N
zBd0bWP?<=Zo>9~cFAHN~>H<?ZwL?Tlezhy++8;_qX3MGco+oJcgaqxT4|S-IRsIC=
zXa&v=X_YvpU4f=D)K<`x{+LQXEz#4JY&gQ=6nGG%jgFvY$42l*;`BeWxuxq5r7|K*
z#yc)~D2=Sh9b2cub6ny~^3a=|K2^p$^RN-v#L{*9+mnZwf$S*6MmuX7{v*i`TUJ5m
z>xp8oCNZY%Q%6fKv%?yahYCPACAoj~Gp)2ufdH^Ij&VTy46=uOmm$p0Zhy)#E%38d
zNE0=dz)=C1j)S0G>AL4L$>-C_Zu~;Zo!x~#yELps9<a}VO~V^)es+jQrHF?1g+f!A
ziY^pUH;S_-l`cr7ucMJcDV0O@$*!P?tb9&;Pxg;*%TyMpnv&f?>&T#?Q@JWk#R#wg
zXWwQ;!%IwZe)!=9>W|jw93jh~#Ev%-!;-u4Q_&U?H`P?vjhqzWZ$v8nE5t@NE8(>{
zhdoBl({Gx#(6GCtJ-LtC%+6;%GL`#igLb}Bh${02s!SemmZZ#(zI^0Sa8|Mnf_e?f
zeW-5Tlau>ae-SF^K=khXWs*+?9ieg(75uF--g_T%pC_AaE`NCHjl@SgYEp?c{8`#&
zlor*~>xqv_7V~NZOr8UiPBP(7z$C0F%OucKVndDC`*)$M8%$j(78Aod(~UCqZ}z)4
zJ?_l`trWfIz%U@70!5WXk(Cwalz3w7&fAX$NwPcpzE~ogbaH<jNs-TI{}K35>WUua
zQxq>xkIyHUi1IMQ$pdkG0(lM`fzJV!7};bzRPMxvpWqAAxYf$NGnM`sOZ{p7>`Z0m
zpii-#!VPGoliqm=b+Os@{vJQJw0>%8G74%2javr>Mu`WKUFn?}h}Z$ERnVDu*jv|@
zSl0qdDOXfa)ZO!wUB3Riv&Z;gP;RCzoL>>p?T^rza<NhO`TTkUx_yD(Ex&;7K!h&P
zYgv&f_AIo9hGdt~b=lC#ka<HPFy>=F(`AyYOuh%J9LQU-ESMxpyWU95{)H*0+(6j6
z+0RCz`n1T|`Q0^%HQkBQjvCv5*`C{K63cedvnzX-Xfwj$jl`^-R)rN(^)qFTWF|1E
z&ly@AmInSz80%<-)Y059!UL>iBf`RB2-BTPS4smwzVg~9HAiAFlGN@mVZ^$~hd*k>
zED^Ji>;VxxAMGX)e<DPty@BX=AnG9ze<DN!%@m^t+DC>uk)bXW$1eQ+7(@E)&<_48
zTS>`5TN?;EC?~tM3aKk%wmP#zh(hJYI#xW-+ueTkecpucX1L@N^{BX_!w>H=;b3h{
zN(Cx;adNL8zR!g3W%%DecNNTCGCp@n=B^?>cNNTCGCp@n=C0yh<qk$~#yc*)HI*o+
zHSCI5j%zAd<W7b3`J%x4Y7#Fb`<b0X_^Iqi<3%HXn!rH<eYo58M&f2^p$7;vZ<SpR
z9hFsybc9YS4~nsPPDi4Y;LjKb^`dwVWSR}Delyt3+GzqSh2sHXcFWVK^-?BB(Ubic
zBmS)tW2P!hVs9jF+3EBytZ_(X7|V26CGs+C4#X}_^47F#+-jvJo#_!tH_(cTqQr0#
z)BAK?w@yB2l+4h-w+3Se&O~%_FMZEtbJvW>!R|`jcX2-23li(zpAR3CST`geeqmzW
z@6fO1@V_+C_>93DdJ3#KJckzJzF^$m*jAS?(sQcVn;B4yp(X|wma?;v@DUPFa;~Fg
zFFZ0iRtBg|<W(|-SqCTbGM$q_Nl*5qW=`W8>JKFn_cfb=M^8`%SUy}cDggsK_r(Ox
ztQm2HU?;eoKlZIp`ZLJEIytn;(s4uWd!o9Xl-ytUvwYx*1VaLw*>y0<<me}b+S7{K
zLu(CJXO&zg+SxtGzfUJQgF|?-Q|7KcBl@_!Vmh(*WCwERr5frxz1nFUrMffUu2j=$
zg@}yq!7vvKkxCCDwu5WR4Ctrkz`Y^aQILJ88QliQyQtPLV&$Oczy5%6M}3F4W~t#G
z5)Jcm^fT$=_T*lQk)4=H?u|%LU}!R4rebeu!BeT7zZ#S(=)iou@O7CN?Zv!k@04W6
z>fPYgWd+T?S2+7iZGHfS$Qee?f+Dv<kuC15sAqgzsy*3Bx!}rh5j;W0aYM4jF5@-S
zZ}n=AV~7k6>y8yA_dbMqLaM3qK@%ld9AarSRdxb~NIsl4HaSz-5nxzgIf{y_`viUm
z*IkY%ovDVl5q2r!uF)<6b1qG?CUMiw*At`LY;DL?wxrU9*<nvGA36aONFpnhEMW8&
zLgY;HLA2y4QeYS3x1jEr_T+<XLfLag4BoPZXWxt4A!~*~pAFpwh;uXo*pR`Yp?`2<
z-6udr&%O7ey*Bg@N~}8#Z0NbSPLP7yV;lMlYiIY?@D@oW8u@htx4E(CAwJt$3l`Z-
zTc+UDfr7|vCziB`+QK*4xyY~`oM=4mNNky*9JVqm#p;bwdr>G!6GnT)A}P)jMw$KM
zf}is1fUj)0goSkf8K{m5P24vhKC9G3<4oKgRwGooVPA|`>76@!&nW14wm*F(1!tm|
z#h^uTorqN-bBa|`Dm~Te^)MtO+LKbBv$s=b3<wLJGb<cugl;LA$!%+}`e7&Jp=b@e
zV47aZjXDC1bE7sSTWPN~6O)szi4Awils;P0*RZP9cMMA0cMg0^(H05{Mq9<$ory2B
zHS`r=`quasDxy+JYsydci-3v+Y%7AsxS1wM)&goUSPgjpBVrx4z)%+@aYU!vBK0Du
z!VPWVn#Pd)^^76;YZ*gW$H?2vWyM!EJn_J;baJn;u{pJYD{-VlQI5dsZrvI7-Zv!(
z*1^f+$i$xH_c3*DgAdMQ%vSamL_sBaEL=sz93^*W&#??MDU4#;&>N>K+r-)zBpyzF
ze|=%YZM)GK@AlRdA$Ur1@9Lkft^dB4*x0r{`Td6EV=(lO(a?V-ds+;qf(|_4(75|3
zi>>Tp5whnrXOC{q4sOmCG)o{XtWm9Pip&d|Ne@;Lhs#3?T^A4c7#xDL=XE;^EOq*w
zL_>Y6XS)HOQ)a5e?Y}m?r0Ih<_5^(}WNFR7G8WXGCtfvX?hwmFy6HD>z16$IRB?$>
zSjT4BieYKlaEy&*rOX1w0A&5m0z)xzY}1=rMF{0|^HuifuK?|=NtC{Xzi06$t983l
zP45wXNRQOY^6hy6dFcJ4X%`~EphV+l1hgl2lQer5*|Yv+Dt8C%8RB_1ZDS|Gfs}=_
z+Fr`i%L-6;j6QnE9&MjNWGX44NQOnBJs4cH(rWiig-8v_-82-fuw#=k_uOzhtVHjJ
z95K-cOu_A*<dYE940uQ`%?GixT?mU+Y&fl%<!o84nH1{>2&M6tr~j)w-Ir?O^HmOf
zOrh-BkCFrtvn?Zl+L5^J3~P@udNzY{ZT*v`LO*GBw$enNfhMsVjlqr;k0NE=`|}3Y
z4VA#7WWY6+sbS!d%B?TwAwlF9IroBesVpSL=G6$J>D8XYu-en(*>u0k9EJvU=b$Ds
z0^8Si1UI&=F{TLjSCU+YIVODXD?*DwXeHOCLk%lD*tU})aPGD(7o7SrI_>vrVUO?(
zLLL|S<0f-!#-`50k{eR@99S=fRKGc0x6y5=W>hCd*HFI^<CH6oX6FIly?0@68GIP2
zJSQCreD~HEtRS&&jPVsF8n1`XHSsKaRFcY#GEmvfrVPG4P`iwO%s{A+qn$yuXZ6mO
z_FKU?o6SlipAePf@4DjNnFvI4@z<EQxHntfn{DpRc8tAP#d<l!GK|a61|JN!!Nl0)
z7PHvAMdm+9J`WWquv_AI6d_d%bnT+`)+6xQs(i5Soh!>WBg;0QM=lj**%rq`WZCY^
zvi%5rwl`oLOI~6n9!zX_-c0ytJ(JMpFd6E}9kf2I4Cb;pxgE;`A_4GWWyO+vLR64I
z!+XEUdd9Lu&uuHMyO092^#T_SuySA{iR7L3P7;c)XJ`$WwbN2b+Ga&1SYpYc8lHU*
zBUm}mB}q+h?)^Gy`H}1F*I4g4W-o@h=ivMV8MtpnC)WGl_#tmRuw-9AZ!m7OLxeO(
z>`2~PRy*{}2_KQN4{l}lkXZL$%99-g8v14^>`LfqnCKQaDVkuS3>Ir!42=)grQX9+
zfsZT*i_nrllZ>f^9TUOWSXe?TlQPOgQf_4v!Med<n>YhV&8X5j2oLEqgcOy)Ni3cU
ze2hrFkBU9e934L6j1$hh8Qr2rav3g<5+X4mTTTpS5zlD<#tLx~9>JE8C*g>4A~D!1
zWaw@)*ZX;E+m6)G%o?&hYT+}roYv5LwQ!o#nrf2WEIXt=+bWt744X%|!v&KhH0m2z
z<<`QF`e6zR!pTBlP@|+S%DSXqaaci_aal%mDVeuW^brKOoM@@2Gt})|Q223?(WMlA
z0%n(CsET|&zMR7IL3XABmg&HVRQflm3_6+2b;YUlQK|He@RkF;s@SXv;7K<2gh;IX
zIgc|eNn;jlueZ)xke9?`EeIck_O_dvF6B;hCe{n~`;L>LRzZh5=<Qc1N=rPt&)z@*
zquYJ}cHX1>v89$~xk%ZJz!aeO?jWf$cOcAE%8<%O+g?w^&EPI^;(~N^hfNwXkM6WL
zxk9<3a0-xE_XnwGu#?sta-eAz1;w!Jc#B3)<Msa7Q0MPR*rV)9rNhrdrRehaHRw;c
zMp4Wqewi1@xc+sl;M-~I>o6u*LF1#FVm{X}<mjyqPtIv?63>oG;kmgYW)e(ePC5jS
zHW9c=!-ViNx{sbNmSe8UcKI=<Azacz)P5Va!$xH}K!?lOA~z?~JImAkz9K(Otpd)Z
zXqPt|?QhO3=UAS-e>BzF8(cD(4VXgOoWe{MVMwS9ZN=Y%l092M%f~K}9N(P1v^o2M
z=Iq4g?D*#F7~zU;w4lz&5lT6Gg0mur+S_c>8Nl2V4cOgym{|8+liz;M_St>cUW=bQ
zR&%(Sz|S2kAVTdDbm!ScNQ7i!@~!wjge*E6ld#-YRs_yoc0v#<m&D((1h(yEvJ2Hr
zuO%Iqp;<aWV0h5a6?V2{V~5;bnJ`gYVz<xxVa7^e_>u?kQ_+K;%KiA6(;eEIhE&Z{
zD~8EXLF!I7?^p_QM-DRDlRL7)*3X=@AXr2F0q^coI|WVed~_VGoxdy2_ZhW4fxvv(
z$l!rcWTzH~NvN<hux1w<HX^S`>AIeD<^FU<cSHStZw(fRyTcNeA67#4bTNv?<jQV@
z1%I(v{h0J&B`Je_Ckr|`C)=E&0keggwz&{VrHx?O=p>UhqY@c?W;uFt3lh&upmRPC
z9#+w<Prlld2O%5VZ4WAOPXQ`I??_`2dstmFl?QWXGu??VaXh5q{rSS%#&>YT1|MK4
zWf7*KVagyNoJ6q>w1Xrf;WS35S>`!tKow@sTAVirBe2+l$Ul=*Zh1OR3XcOLOx^b1
zemovjaq%GWa9cWgD3d%WD`*EzlY!PICl4kz?8U4G508QeMddU3sE9_xQ92U~_C%2T
z9kT=rHdp}czGJF@#U`kzfV~6Ol+N#9&iAA1UU`-T$@sV@Q#LeA(G7|fx?%E@Bur&y
zu{Y*ARpowmT+Ws*_7K9%8?~!E{XEFHXJU@*hj5-z`($N<N3s4PRqWE)HLZZPv!Kgt
z(Ah*Cr5bh@f2@3Vpa~ifSz?gPV-3kRWL?Q&{j-}u7aDO{@9+rL-O|UNQUg(y!hu}L
zV&<MTc|*y<v$V}g2xAM=0Qrc}WOs7%(CW`Wfi(pa;Fw1iTqz{(0%4afD@;I}kSSV)
zc<cb{O+@d#RN9LSt3b`CGPR2s6{RI}6?)LUvD(d|t|fr=Qvxu&nbl!$Xb-!n+R~Rm
z&y3i;Chm9x+h1Nt_VhAw%T6LnI;^+w$RIx0Ka`uMLxj<R>?0C+0uc_Ec($G?bEIwU
zQm%m6n+HI1F=W;G^uRazvDfa#q_HPDG|O2rX3gtQ*Bwk(_N6NhVDsmc<iYxnu!C8J
z<*h#NPCP&BgC4PbeE>nLk3stuGYHxP7bN>+^M9tYFSP)c0v4>`*;IPh4iq>Bkk5!o
z5BIG19B7s>SpZ8{Hlsq@efZp$s|!XDAB~$ET)E;V%WDu6J5$Bjhc_3aLDg^eYER81
zH)2~{Gr9!C-n@e{Th&J=^*=&q)Slc*l3p$%v?sUF5AKpREL&}pu)C$=azpI4aAPy}
z275@c@#A&uv)jstEw`5<VbE?5)3RZb9&{B#w{mt~y1YCSpZOysG4v4`a`+}b{Ubx$
z6P1_7t&RHux8~zi#HnmPk=O)t@?MfC{RJZIGu^|FL4xEWSvFu;-Vunz-85)cvvy^Y
zTcnfN0^{iKxyEL$0_?TH@VhXR+?GyaWo#Rkgt57JTVg{U`VU(y99V)P8n-ipVGB{#
z$)=%=EJ8>Et{v!vcCA^NH;$K1KITLl?nLWUJvI&9WO(7RP{Gp~Pvo=dxDk-A$I^uj
z_1iqGs@}G(Ad4Lr%)%B_E6K%GnEu*aa7{G7M3YgI?>o*9mh8C6bY{H9w#0oe#;F0J
zcb<}uwHfNh<`zBm#`==j;L42+uN9<K$DvY#Kq#*4`F=~>ik7%B4RvfU=+p*@CkT7I
z0xoto0F6xqGHhS{2-L<pFeSMqv7rkk4;#{u+=^IRrzD#b8>Zv)EWJ}<718EV4*tLo
zyA_%q@|PF}yjMQD!r<GSwX`|bP&|M^D$^7D(h;&RI@9VM4U#xp@+!JmPQPoX=WA6(
zehY;mF~i3kOA?{M5HkCrBlG$~{-zyD?+ZE{eZ#bvoRsq#ATb*>LY%GB<_^pbgrac-
zkz=jA97~ulmlzg&^f@dX?81CM+4Xwj7Vf^7#et2xt3Te*V88}L(|cu{i8pD64O>xS
z%+ADT6No}jBM(#0Cz@se=3eMuhE|21AJ)p7VFO0fLXUE4UUIJY$Ww(}jWbB%RKWUj
zQxe|z;Ha3UyeCtEBplFVr)83ekYjK^x=oXaMq*H=ZeuD_-;sVcy{qSeH#xG8+UsHe
z9ay^mU)byH)L5HUWI`e)u~?J@lLYgW`4gW8)23-xu=?M*iv;$dAaUQ*fALk7Ehj5u
zVf;s~rMYHxTOPA2Hj=#!%;rX#(7;|Mkpe1!h=MwZr2?8bGZhBjX8qVBl{)OxP(Hvc
zVy#a<F7HI99~vjC(VI%eX)1x^k8|n4th}+<knpugceIBmp6!j(0aBuNdAZW~X8PDH
z-#1%*sdiZmCLz3B3KwtWp^X^_nb$Ton_;Q2E3JuQ!8LD6`YV{PVCyl~B+d5Yo$&0H
zL98DgJwh{Q7n{*(n7kV``UH~ecg4Sj{I~WR>vEV(M921FLEpU`1IXv!TLhyD*sqGs
z_;H@_ZZ`Yxw_>TLk?#SMq?sfwv}y7RK(irfA<05RlDwaE+kBGy4aqhPO_j^&HjK8?
zjf<3iBk8yJ^cxNR7SbD*O25S6U%6R^#%51C8B{_ryC>cBmTM^~QZ26B>d=C1aV5kJ
z)2`=Y^IEg8eM<%JFz)ft#oz(O7>2F4VQWKSCpJ9JTzG4aX?UFCd3R4qH9XFC>eXUL
zbR&Ic5P)Yk4Ue<sngD6TGG7>mRQ}M`yA27VLQ}LgGJ`;V)>Le^jik-gJ9%^C4{ex_
z_aw&jBtE+xW`fZH^d-jhB^tj$yP*=)onVtptXl(|`Y@^r^dZ@l$vT(ZNx{-{wHr`i
zDIRMQ=;WHjEZGN3SjoV9q5g9vEH+(LJT1K|{a0s=8&8<hVuqN4DT2ev5G}QQGKgJx
z+cL~R30VEqjyFYfzDSnYL^GKY6X~vG-GZT=lq0HmP=<a~GCXWlmNcVEDeu8NI3pDw
z{ZFQmRR%-r(7LLa-Xqb_CPS6B$>}mnXW}NT?iAa$YS5c@)|8{#;IUvI_dE=+028H8
zBbvTpgvGQHC_&<9HtCM<?N~Bs1?n*mct_~nh;ziUJhC{Q5C;QYD^B+`qutCyY@ex2
z@J!U7uxv*!+#0;xi~hNs^;Q}ha~$PBos0T>4j2R?&2)jj7>(XO%%NT0v!@~HeHuUJ
zwR;(On1`))yVubTQUeQI0!hswU_A>FET=e@;Oy9_$22suTQA5WJ1IutxF?)ENH`iO
z$e!tvL<N{dk_O=cIjGgd15$w}3zpdMesXV0qF(5jr^##qWBzTDHYg*b3ZK%N%*nPv
zQl88v`E8VhcV$dAIzgd}(D@st&w|kg#KLW$SiX^T1`;vJouZ*HD1_JjIE-Uu3J>GL
zLl_L)n0zWNW4ph_z>UQw8gEaorE4@gjEiSnox+wX>p}gOaSzv)3-~z)8EVO$JjdCJ
zR{bCr7qE2GI}t0?sdqB|Gs;~f1~eGQ3}F0+F6{-3rH?fJd&m4yk+3uCZ#MpW$8roH
zpMl=Yo6s>s(043?Q3dRG1t+oc{-xd0UY8^+;{v|;=)+?ObD<t@Z9DLL33n2H-hpfR
zRM4$WzrlVqQc7~NRp&Uy!7b*)$IuJbSU9jFL?b{aSl%v#kjD}tF%sIL;a;*0-izLA
zhLZc#XvkM=F!aOfs17M<M48@h#-q$;RJ+^6<8vq)n<m5FiC3%fke=B((E(EP@CW0X
z$W9B%CQ=Z}N))&}+~R&~ET+u<nH^AKVTH>qvM*yjg&NQ{4q<M0aB!RSk(oD#2DH4B
z@l`O`ZMK8m@IV-YUFu5)yHtR8ceG%SKgtv=i$PwCzhgWVi;S2TWA8YNw^VkLrFq9m
zyoK=QwcEsJ&cg7BcciFn%Qr&AmJ$*$fy$2j1XBN4Mfykya#RrQk<!xb5N4v4o%tC^
z3Y6J>q17FNN(!ubl7gwLHihI`vX9Sz9cCXc2mNHh9Ec>$0sCxPcC+b4%yxL+3uDCR
z$tHTZOi7~5lqAYbAyI66lWjKAHH1@amtiKmnCu0<blAu)Fb1`DXkrI94H8gbo7CK(
z1%=)Uwt5yFQ;qndlze}HvfDs;VVD)@GmaFcM%?@&$nYsf1ah8(cbAc*yqIiL5fP}=
zYE%>`WOiN=(&5oRpBZqk8}f+~Jkr#{>5$KtnMatJDhnlY3vAY~<o4brV4Z1V>&t9n
zW6V56+hoRL;aYw~DweHQDsFJ%VhbVhxA;NJM_}M6=}F_yh%L-)GNbA|717q2!^Ij0
zk)xG~GksR3UhW#n$izm5st_w$libi2H&hDQ4GrR!xNs23A01!rh6mC7q4DW%cn}|z
zTZX3%A~43qEE9~2sj$g{B{qzOKmT}=b>)6!*VdJpv6Rt@po6&cCH4HwqfxfoR5%?N
zSd^{Vf@WJ0u$>^0Y6=hASzqKeswQ}B?F)7Fs0|OI0VN-UrNv|^=iMrdhOt8;^hz$K
zSXe@+hdCO?j|~i~=mV2}4oeH`me31+sUk8x2n(>{dJ7e+rwn1TXXfCFOKjLslJ}9E
zoA-o+-4DhMrb6C_%_>+V@v;lezNI;&WU_<m&ZHN+q$O269zTfOa7zT<Lz1yrcD$t>
zd}LblE_Zlm8}o}dko(g39$^KZAoSqFgsDuO<h(rnRC&7d2art8WWaR7bT!Ua5ll4n
zc|S&3buH=2`_mPhr=^n{r==^R&;B9lR^|$CMNQ;d5pT<iGL`pF-j%4p3xb%^6B&xl
z=!)RMZR-We`!U7GgVzg^o6~qz$;N6OwF{pH@uNJ(+r4rtZ%u(walx)k#r=4sSI_}|
zAK7(5vK4QO8<L?W;&75|&Lo?ClE>0XeCW*CY0wgR61bh}$S&564B44vg!gGiWGXOY
z>1di*fTu8c)3Jb$<tRkrft>|?(kYRmvaM<2Fj7?RE_gceK;_1Q*UiofH0-Cbi3l$v
z;t49M?v!Nb>MiC;>h>wg=U0EO_cp6D*2hHS*C7Uz*nxqIUox<zUDzD)CU@Vm4}jk8
zmm3Ta&+p`F4DydJt2rCB?K)Q8P1>w&(X|-b8GoC4_)%)A30q>cl4L)XR}gHjI=_p8
zgoMacY(?WkR}i;b{A~(?FA6l9XIL%ab(3zIf?(aGFS>4m9CX_pK)X2~HGAqw7QeZs
zT93MKy>&NKb2omByP|qQt+#yHk~_WI=B@mMw{m&)g2nTecq12jBgagv86Ex!FfRy^
zh?kCBINJXAMvp`ALT_yCZOg~rF}7ya*p(|5jI|#*^%g9vTUuLkdC55Mj>QXW7tvR8
z?ztt4su$n7$lxOvUh0*Uj;tA7GO}h=M1I4jYQc)?d9~G56#Uj@OC6eUxa7&R`Nf-l
zS19RPCkniMz}ujgm&<?n_=~@IdG#+p=!A!9ubw*f(vs53`N%|F$@q)LTr_6fg_qRH
z?SwTGCXN|5am@Hp8UQBTR9cKb4w~>?W_}~LjTjpQFWD3fx8Sbpy@FN61*Z-@x~LhA
z=rmyb<8>{6%1<c%OyShyk1G5SC`{O8#BtT|#}A+9htDRC>lXg_;Wzu?tBK>{_iO#|
z=@Kky-%lJ@5rp=`2MsDD#c6;ZV<4_L`SzJ$Pn2%czboK>NW(9ro7DU*48plNg%`iC
z?1wK3!Y|YC8E$yt)j~k|W@~t5DBNU_;j1;gB^3T8KmPq1{_Rls{eJjk8a{}wmA~-M
ze)v8OAMJ(@I=g@bC5UoJ!@ur^mp2R=v{6Weri8l3RZZ8Xkp#_6QVc>fO=*5kLWicX
zT|^O@MN0FZE)CKud_JJra0D9aY`fAda%CP=<>#qW!xu!;G1X4$%|WGU3Gw)n@L(Fl
zwQ=wpDt>+z7&#d}QNusUa9ghmmk2=#AbuBu*EKGG>TF7&*Hub00aJ264bq%*l<;9X
z_bW{$U8~nY(+81&;g4x}1^j+^;WS^4eH#7}_pjRcDWvh#v3?q2AP~&&>-jW=Kk~y%
zXe@BWwUIInUqT|AMxjv_Wt^+wUkHVN*5|)g!?^$-#NX+Mw`llMSC@mT{qk<p@MGQZ
zt2Yd47;G8>Ww7Vsd@q#7R!O4-*kGAa;@n`D2g~Azro70bRB2X(cr5niOlkNN$AG}<
zVbH_Jke~$6A`NeM!&w%FL})fB%?FNic#!7Y<NS2CD@`9r{B#O`>xXx0_*6GsZC(km
zJ`Mjf+kh|UA5CLsoS2KM8SMR0=73R>L3zIT%_>*u;9{eJjZoa)OWy(PJjEY^%S-wU
zxIAx+eC(NE(pLbxQgOb##!LDL<3-=5nbdnaw9(`<THA!1KJiZ}Zae6^lz#S!jO}^S
z*5R(hUjg`c62x_~alEg<B`)Ox|4E8(hfDr<jWdAMA9(o<=VAkees{*;dt&gP#NgZ)
znUDX=F?e4L{^uBcF!Y{}Klg<VgC1;{bxQ=-#tNR+R|@<@=;u+@zt|asPmbY#t<wKi
z>BobX*L=lCDB~Fh_HI{vk>b)9BdkI3#}#i;`i;P?%nFI~Ri&S!RqNXt_#MRyX~%I%
zUksOXRpx65*3x-N9}M?+w7Y!#_bB~%jIDS{pA7du6n}<x1DEu}aQUGR^1o1-Es#*0
zfdT%+Ck{1$^vUp^6qD}zV(`<I&oRdvKGJW)J3;Z^M(`^X|IrDCUixQvKcaZE%Gm<B
zdCdc!PY;Wgew?;D>4QOkr{X_RT>4hv=@>rEG599sbFvP6rT+z=Zz=u{I^ehUkRLLk
zK2xWF2$%H5aQ7(wwf76`RT#(n8Ss4h`i0WJru5P$BTkRvJI*%@q#uO$FN*J*VQ{h6
z@ScczPkDBi8eIBqc+XV)36)>^W8jk&zd-p*KMed@;Q8d7qx9=9F#M(8g?Fjqf6@Yx
z{ucOZ#l10xUiw&gJMou~KhI>$hyR1}`JVETz8F0CW&-njV4UGE{VTk*7sS7NsllaR
zh4(qdS4=aw^ri6jD*hcc{Cy_adrR>z&oIDL#XWz%IKQr@rh0|W_&mK^SdD{mmfdM@
zaW2k^d6>v*=*q=+Ra^hO<;$y=F7%dG*MVe7)zZ4#=2x#+Sv9}<*2PP6P*PTbb5+e^
z`l@DJpPV`K=BleIKQeXZHP?Qms%p&myy!TuX7Q3GRV$azTZ-xMk|oO)cr`1ktG(N*
zZ(FeZPVe@WOP8-$ytK9kxiX<uNM+uFPgE^f^ogpPd5f1ok~<J<-jZssZe_Ll$U?n3
ztzEjTYCfjV3s*vlnkDmYU8!oST3KDIK-JaLuf4K-deya8U3EipX4TB{E2k%`EZKr3
z)$@=!iCI;(cxBb?^Oh`Lh}fU3t6sXGT7>o|)gq}o%SLXHj<;aRvZcY)ds$5l6Sp(*
z6%^0E!?{Gu>o89@LdU@}OAk-nHJ2Jsn0hr!mMvT1EvSaJ6o*PtmRP}9j5Pqo>Xte;
z%Wkh;v1HzIXlwaA5LVT#SX{MyMRm>MRUS%t>4MuBq-zOA08c4>m4I$Z^-^zM?J}0$
ztzd2_?2X2@3nxl~Sc{k5YH6hKy&9;(FR%s6mO{2#OQBp`P238t^1jMw*iz#7rs{bs
ztL?2X{DRtfOK(N>3G2}oOI6jpl`D~+scg%aL334$krQ1%@c|J)#0|pgY8Nb;x58%}
zDpGI7yp<>ev^SsLmbvn-vSnZe)A%{?(%N~8m#zdG$Yv9>I?y!=*ai+468OW*7jmgt
z%E8yE9U*<OL;uYf{8<Ng`TrjWALj5WME}5x{MjX1dH6viUc@;DwfF%Ccj?cC{o_S?
zc8Qk$GQ}B<LlTQ$<Iumy!TDuGUgX0uv8DfZ4E{X_f3HK|p*Xv%_c{0rG5E_d_@Nm5
zXbOlc%AX(A$%n5~oQ_+L8)NWS9o#L){uule9Zxd21b<d<lVb3+gP-Bhf5*Yydh%2Z
z-tXXUxmW5qmhznG@c)a0yYwH?@okj;vkrca!{?b8{5&1^l8?*(O2utGM3*nuwGo{2
z5ni(+xTRkl!7crM9al&B|1pAF`oBhS%m27zP5PFPrN4r6d0ZARvU0}Y&5BbG=i$%R
zhh;jRC(a?B#Wy-Q>$Jsx;NUL(e>%8JKa!Od7x{DOXZhU7%7n|x&$SR<^AsojSo~S~
z^$~j3AzojIp?@Sof36|-cE!;DCPGhHdHpelKB@Bs%IUVp*BpET!mRv%c5s*eYMs!N
z&qWUXCI@%v`yAZ08^^G6<02myU+>@?0$X{$;o##P{QC~hDTSr)Ros@>P_1wM4*kUr
z{c$wnxG0Z{pYGtUoDVv<o8R9#xJ!SWE|5g^{}l&!>GwFe%l|}n61bv#E{?%pba0pd
zTZ&u#oTmC2$%QFgQT$^O{2ZmfL-D9QCG50tMe(T)9+D>pAF1<A@^R@ecW@S|E%zTN
zZslhk<#j0!x5Q=fOU$kJNCf|o;%yOprsCIW!?%2@6kip=mn+^I!B;9iPUpXtkHx>F
zIP)9ImxEJwo8K25e3FB|>fo;4K6<(lAX+ZpSKP{D?Ri@SxAy!e5!}+h6u~Y1(vl!u
z+BPfyLyFsUZNKo#82nF)N9)50YG9-Js)@lr6N7J7oPB~j?)s0j0N{$snK(N?zCH$j
zGzNcBamw%NXYe_Oe>A_N9NZoMoG~(>XI8A9uXS*@K73j6XuckZ!C!XxT<Y+Dzjj!b
zkF^gUSDf;@^xtyu5{J(t4$h>k{4Y6pse_-$!2vFtuC-(3G5FjFZsq)%;!!!X4n76x
zSb0vO5V)fB6%Nj>*wTN@!Cn0~Ik?;Jd@Tll)WKc*a0&-ExG0ay|H2r2Mhw0t2LERV
zABQw-zJ48pPh|tbWy@u+x%IA(;CCoKJA&V*_(H{*uPg9p(_QM|t~^Z+?)IDCiNSxZ
zxRvvOrh71gTRHz4!8a@YQ91yN%318-uADbGxGU!!4(^uYw{#(v{Hb!Qho@rjQ+55&
z=4-pkS*kesOm+CIi_kx)^q-HR{}%_J=J4rLoN99I=ZD4`hD?`D%F2JY;#N*;|F^{8
z?J<0^4({5G1eK19>C%MQbT3fcrfd7DNfF%kYsm<1>93FAmi|@6nQn=bZW#x!xQHk4
zXXUAJ@Dc~VP4TEcr_)&Ait@R~!P%u){(Bs}#KGr&05`bE$E{bl(^%soUW`A>=hF_(
zuHNGJIk-#zZ3lPlRRxVHu4uj%E6#M?a@^|RY$7(@rySg+FS?A}jr=bC7zcOhuXAvk
zSj)fJ!CgMzb8wf>^A7IvIq8EUj_A|nGx>6Z+j?l9k5$ItPbp6Qu<2VlOK2Q%Sw6NM
zT^WPlqd56og+I$@OAP&<7<@<>BIAnk`EHrOg1hznnHc;xid*?FD=_g7#o%S-CY<S>
zg+D8Qo#IhGnHc<;7(NrO4EVeHsg1#Jr!mDvc}~ZlmFLqj_~#wmZ7(e`_@Zg#Zup1V
zQPSW!?MQLTL$8%*tAo4s@F@p(>5G_oT;$`@k8yC9{yGPD>wmL@yL`Uq;4Yu%9o*$}
z($ykPjy$VV2DjyI$ASM8ga0B1A9PKAKIcYo+fJ{H!S_UP+a7-#gBN`$$QMnfEw56=
zZN4m@Yhv(^$MCr~hW<M-_^S>dnpi8(p&0tpKOEMZm9tWD)*qM8_hRUO8iP-qo}d49
zG5GHlXS%LFhgTRrQGAJmyK;Uj2EXarfDcW+)z6X`{3{Obw%@rk0zPF9pA8O96J`1T
z+`(NrJFg4)lsNRut`G3Z4!+mH&vNiTJGh&#${PYcF8wwKXOp#ZKIY)AJ?wOFR}UqI
zz4TwK>-H*B4>A6!8ojv@{2{$x8^P^<sg?+C=Y4Gv-0q9&j^K7*lpWt$dF+0jk^&RK
z;&xw7Sp>KHa^^;GyDw*L1o!vlL~y(RrY(Zo{Wska-0r^-B|=myr`>16L#cRK-0rhU
zMR2>HhA()z^mcy?_nWx5-5(?8u_3_nxBFwBkI>tFJpB>e?wc7gD9qpPkC_y~?S8dc
z5!~*Z;eHKXRvx<#rX_;g{Vr`0-0pYjj^K7*%U~K9hrivYa!v%d`)sB~aJzqHVFb7P
zSJp*vyKiPo1h@NFc1Li#f2Aja+x;s=L&Eag{V1a&xZTe;J%ZbPDoY}`-KWwV!R<bk
z2P3%Mr}BIRxBFBMMsT}N$Q!fr&f99|&4*jN!nlj950CEWjj6?66>rSKdA0MrG4ofh
z^v0}MW^VA@{I+U5`W~}%S#9+gyen{_Y!T7>TbI_2S-xV~ay-Mo6LH9?dQnx)ig~wH
z8-=~g-x9=U(>*G}r%dl(Q2S|vwVB&n?^O6$q-8#0JUunWopp+FkAuUwMdnuaqtbgW
z{)lU}CM4I%Gp#S|M$;dSVDgN{AEEKJy7^3^_nhvMr#63|u0-R{h$P6dvwN|RBgr@y
zgnxOZ0d#r754G&9dnH1w-zS3S>l)w1=#SE}`#c(dQTbamehI?d%j(}^ABTrLqw(7`
zesQE?MB}p-<}3fQdrS&5RN*ZDWAJC=>tmd}X)|W$$M_3+W)9a-{3Y-gjZdD@vIpdK
z&F3%TL<&5rzhR)s7r(htqI<Q*@qeT7(Z+9^w|vZkG0Vo5@ERw-=EwNW?<Er_3OI4{
zgh?iJ?y+|#r(acA5O6H;F3%}nN!Y1$Wdf9W$3r9TApkrvfMh)k$D4NeBo)pFtJ4pS
zFX!uGczH5iEFLf2hQluh`|pyacM-;?_lv~MlojFq)qEeVFAYaG(Llb#q}py$2d~h3
zoa5wk-3|3!IR4|i6px?L#z$Lw=t(g(`O;}OnPhJT*vC-3>6z@)(Ej%1ehC!;QaG$3
zc&)bI&}iBX$^PPo<bJ%RxPMCWzzV!kXqor~eIV!tLHCqo&x+3nGWgO5uL(xZWhj%3
zr0Y8IQKgP_#ct@h%Rkj{9|Q!@=>tC|py$E8jBW#O_jP4XOh5Z5bCP=VkEwL0$))Ik
zueR=dWiZ~`rZzxpL^ns@7BhOZP?sV#oP>L-91h4Mu0oo?r{uEJ4TV+$9+n#-!N;<B
zzTV_r_Iva^LJ|~G4LY2Yc;yA)JVi=Phzk5_Ci&O9`8M;fpbfr@%%8;Q(aaCYm1!<Y
zr&UgVPFLcMP3OSL^{{RLwtKZl!`bSW&~oDVl#i`V`U-Dw+hIe`Fj;8LDL=l|+sYc4
z!3(~A`JwFaS!yYJIhJn*OboKnCEBW8g^;dLtz|)UpdeOW2A3ZJWXn>L;9Ngn2YQ_H
z_h32<9lm{T8n20yLH>g?lSNa#>p+asCi6C%L5S21k-B|_R0)wt;1czKsK=}0kwo1#
zZYyhX?-(P3d=$EFhHHVC15{<HOHhX~DQCGH;K$pprqvm4-E0_$X3jLu-bO!O$`+Bu
zUKyrhF<iCuLB2k(?g-pJt=v&IeO9oHhfjes8L^Cz)5wcNaoUD4lF}fdSC$9PdlW)?
zA-fR6&)SVj6o_OCFHb=@%_v>p0m0FPwZSYwBB*i39?~yHvOP)5f=@de3wRj<`jn`j
zezBG9$!-#5kEiWR86&7R?!byH02;l0FnarF^ziEX{?HK+Wv*d^Oo3I~2(ADEtJXlk
z=1(k@8gnbctQY}}_@fXCvE}4CxYS(7bg3ykNvQlS7?iLDe@2D(Ep|(8%P)cWD2}>r
zFz=y04mQ*u^wo;bhsj|hMKmIMpg{IYBZr5MuJ%IXmnvFYVgsbG{USwwcoajjC#!&c
zP$thSSn;sb-B7Xi;EcikA@4zX@C4C*^tD4^YsHIq`jZFcje9X^l#DeH#|+>F`^1hm
zD|<Vs=RE1X&DV}u31mFRu>d*^@14GT{53MN@2M4T^xt#i8V#?f_~VDS`QfvP;|jeO
zIH*8g=sOMgY6<l`)~g_X#*cr$hJPQX*$*G|FFEfXuMfq)+mF9b<3AA!f7lN{q~Xn>
z@O%AmyN)ZvUq65Pa<s;cI<SGz`P+X-?>-&d>QGz8w|r;quR7)y8Nr)lWxjJ^FDV<`
zoPj@<bM)ezDj$A93_bxk`CGnHw!kh^yhf9@@19JJ;lriceCcwjko?)*@{+QL%OO7T
z!8!n!G6yyvfBE=uu0r}pSg~<Q9e~Sc<;1U0y-C>vyBmM``0yP78MJ$g=B-@hakKgI
zd5c$gD{rg9>lo1&Ir!=WLKb5GeQh;;peF~u9RP>#c>t_lwRk0V`NN0Z{@BKDUiUE6
zRr2Wrp~7n@5(zILcpeOdTo_x({M)W&PK&`8IXJ71rT>D17diM_4(`(PT|r(<*Tu)h
z;Mc|Ab7FA5+s2FhIq$P_UKWGfck4*cd7h=O(0UQ&Gdl+7$tt{}^jQbz9MbYXn}oQc
z>3-0`S*0xf{22UB2Y2=PB?ou;{LsN&`t}&SQ0qH`UHRYV;4Yt$G5972clEq2246&`
zxR~yV__KN_fu9$PQ;SsY%j7q}tv#6=!L2=68^Nu8Xo=v~KD0$}YX`a`xU~Z?336FE
ztz9jN;MNYm{WZM**=u*NYWb;ptUBy%?Ao0)LQu(J@^FvEA5})%!i)V8FZMIUwRsVe
z>ugJC0d-aFJ{q@nH_-TY?QWdU(Rgh9BdxvhIbBpHa=31Q^0U9AirqHA__H*A32&S$
z%62}&n0_?=DkYp05iS~k4&t(Hmf_F6T2C-{T?(@N7}v(P<(DsQM%m6qHC!E<K5aNn
zL^OWf+S@8d!1Wp9_`i|t$oFTWb%(^wG;+9>7{~vO#=ot4<;r=tR{M)@W~D8D?QQ&|
zapNzM;DN8bwOr{ZuX-+n4L-rEOr?K~uQ!$CuDfB}&Xu+q{EAmUz8HqVzFn-+Ie=M(
z)00F=_0*HXPLD9vfaW;{)$hK^>;dy7%vU~a{pL29v3Pz;V9Lo=y9jT|tr!e6A^4D;
zrtKaBSXP87w<|W8VPb^|lAI2Lb-N<r8Jzwa3h&1v)*hK9+MFr(bl>{qew-%Af|MAd
zBr+bgYjWkGH6KtmP0bv)@y4hT6hr-_kx746W~SkVq)cUsH8y8gyAls4_pg@#OzCm<
zV*#gMU{@5$usz%GqlSm)pI$hKD{)4_XT*gC3Ptjfs7As5iH2oGJkszh<Ydb?T<TDQ
zDe&NcLoBbgCwo*`SW9W|VR7o3VMcVv;|Qs{o;6dzns-ezsE012H~_4FO~Zf0n8cZ-
zkp8gPiIZUtm=foA+cU>Pt6iDvQP@1<aZsx1v|%>wRC<uoN<{!MD*}^6Dm%NOvkoSZ
zserWp$-qLvLg<k~fM`X{;cpwFs=I61oXw}}_Tw<uvNgIivdWgze9?i`Hjn-5k&n}z
zm`dz;E>(d4ory=h#3OAD-9?zQk44ejnj_!Kyle~)>x*DjwVKQ@mKTDjB=@iWV(vOa
zF(hMCz()^d?Cxk1X&q}8+WysOI*x|MzBhe1nxk83Z1r5?d<iMR)v=Ns-Ac2XJ@+sK
z>^HJQTKO)mvvlFun)bCL&;}V!F70bi!yT_y_IPi08B>;SE&==mTWim2e<mqcB0pW~
zgFg?zaRA+qGdgLdhA;*z*|FxZp#Iblk`w6%hj297+;m;f6Ei?zY6BNWDWvqK^oao;
zY<z6=CJRFmftR@}cJBQ8jkqCol%?zUx}TrNDUn#)k&d-J*~zBa^8p+-#V_+cN`9dS
zAvIVME5xGfUQ|bIyfx|ME5XU9+Mf5z69GB5GB~#xpL%SlfBr4hDvI3u41Q8gm7SU7
z^X089yc8ZJF#R2zSt$30{<rGh7h#VG8k%aV=*FGMiRP&&`jgWlQG%nVo3l?hhxCjV
zpX_Rv5sUcB25SxJ%2YnD>!Iyy9YuGwuXPj+V`GdMBeSyLsDR-kOOb=xA)*XN`S%=P
zGU>;M;&_hqLq+(F6hwPtDL`KBjl<y+L)qRq4qh<C$8s5m-B{xcdfFRjX-LmH)Ur$?
z8H>^nqdlX19-o(LYFth>>BdQL+8a+(W?4Km5h$~XP^x`!CsS__f`W#}2_|m;C8EnY
zA?e04iC*GHCzRPlD2UEGM5kk-%cm{VjVS=_jpyK($w=yiGMfkm(RqjHbP(NSwrR!{
z__S_n*UtW<aM169J*mvPA2CmvO;kn0D_2Otr=Lyz?6;}(pHs)|B29Xup%HcE<$wY>
zA_vkK4y$lH=0j2-O-+)ercI(4quy)MeW~;w(=HlEQ>w@L>)lx_nE68MItr};iTl0?
zHRR+E#h!5mZ|J_l6!p&3&wi6aB4>7TBsHhKaRhj=<))f8(VJ>&nhVD;3|dKA>RL01
zSkrLu4So;b4o7CS<^Gc}mnpWb{iaqmA;4{1Qgcz6#(}qOVse9AcNC>DfRQ_n9t|wT
zmgYIrdQYjO5z4*W4iyNRq5xJNWpIQB=^AW|c04&uxo#4gazFcH+!vx3bWeu=vzvA2
zXlW_SaJ<^{>^+_)vyTi6g>Ww`3Ip*YTMlr1BVz};kx?Jg>d7?IOo>lS6h6bdfh!h*
zn9S6U;Z3S(ImhxGrv3oo_=FhZX%cBOtZb%YaRjMQr<8iI5IS|pp%s3TERIV(TDsxv
zjV_31LbPnza)NG2LJqO7D6F2;=ETF(3Wu&wvX55WJkRP$OYSfVcDr}~d&ukYuw*Sx
zS6PK5QfX<25#tJm>unKVY;U6FdofI|-*@Deum4r-%t0grhQXMk_aj(<BE+(q&uW{z
zzoGtq?@m^O^%)s^pf^jbyA*VLl3&G`l+if|p_$Jfg>MJ1PkxnAR!zY3skL4$zP2yl
zY3JUBT0VDKtB;xBVocnW{Hj<0B>2{|CJ~NZ8v2jDdm^mj`oCb7jGM&0ufu~!fA&B{
za~^tTa3ROhX4F^EdHGx24gCuf>%Ilr-ktc-8to+>uKa4=k!bCiD2uNqc3@6{OlQ_|
zz+=YYzkD6%$?|grB)F^uXO)>sXsM{7n?Zx;MSX}2`)F%-<@)reIY<kmj{54T2B?i0
zU8r1xGRWd=8ym_N$2*mbX)OMuDKtRim<XU70rhS~c16@<6OCJPqx~DBr8ytNUp`SC
z)D`t?cVM~R3@nX&b{uNuwUr<u?+^NN<ozc=z5LRIVdSd8$>>^A?EsZ20NMAVN~2nO
z|Ir2=YlEx=z3YA6R>;GqbaJkUgP3@^O`#;QZjALGpICR6_2;I1v<*6|ZgP+&$L0~W
zeCrQ6YWW<X-aSRGS~y>bL|mL3@kT&#)p$5F@<}iiEzY*8qR!d(_0F+D$JR}cr1UAK
z#H|Q?<Z6$=k~#hXqp<FvBDq$e_ZZ8wq^>H$^E|_|3q0|smPmMRHay*-s8iYzHVc1`
zTzv~_m0W$W?iMH9>=p2v44ymt>k_a)JOf7ga=6|*N15a^0bNYxvcnKOLV{DR7$N0y
z_}|NANK<<gjbF|!%2N;>3hq$hZF3%EV3;IsHmX3dIRGs*b?<O=k6FF7JvMK749B?N
z<<z+M1M2-4L=_=nIPwTt$7tq5`_!ow@)iTPK}h^nwB{AE)e)@C@uL82TXhPK1epUl
zLaqYT`!Fgig$#;`f|!yW&s^{!isWKx9eW&G{5xP3#YPULynfNMUG>hlQI4%08|EGK
z0zX%IjIowz7a-aZjiMt0v-My$CtKeH)cZ2(U_@%>%a{7bQ1Vh?x7jE;QU@A2BR5(d
zqP<<I|N2^v)LB5iqpS#_8V}3o^`2mZ&dM<-qp1TN36C0sKey?B&4{}_TtjH0IH>65
zyA`6Oci7HhjlAAEWfD}Nppg5RDSo9ot`<B)f{Uyep<J_m_3~{5k?^d%O=tr3m`=86
zrLaxtR0D5?Lhx6C;5_ZT#Zk&u$FDX_Cf7lACqb$=r_?S6)VmTkA)LXW!u*~D*DJwg
zF-_<xWo+64Oq<txhK-U_83XP9LvA!Kp1$46_{pA}Y~2E=_kQpa-3L;Kn$St1<fSew
zwo!7V4m7e)lQWr>XcOLn)Ia=fj?`NL_5KFh6RBZzUw}W4HhQ^e#VV7Lfg%RO=?5$#
z>w6k!@~%1@=;9CR9~Qy2CYf%bv26`c_gyZtilC=3d>>^&Volu+qZ1DgFQ#OZc45uR
zPu)ykbo`e+--up!oG*5E$fFBYI5S4f9@U&3+>8eqh6l|(a<H!D4NRT@%G6*q!q%p^
zN{x>B409tp&<GY|YnCkAJpsPnThIDQk)b;dC2L;9o#A8oZ*nw0Mj<ngL9;vDI#<Ji
zad!J!x^iDCUD4T4zt6i{SCe~9f;~FDuD#K2V8e;<`!2w20O#fMw*yjjr*OgxTr*QG
z3nr<_Lk;zZxRl5#Wv?ulV4WLV2f2f7-|C05A8Ah>WY)4D6s`w_D}D`EIWC4wow;nX
zAN$MSva{5yum(_&JczAr<o83_Fjz~iV_Xqvy>mKm1e{Tvsn|!6Wvqd1f4Ph8QLSK0
z9Yxd!0n}0Ab6j9BtL_(}&2S+?o=bG|DZs<tWoOln&cSBaj>y5#HnxEi@C%ZMxEB}C
z2ONdsX@)bI;UcSQlGO&0(x5l{wK2CbtFo!4ixDOR0=hg&RO5UWx48n;jU507T@v^(
zA5vhKBpy`sL*0oDT!S6B?8+t22I?88hZyeFVFbk^jJdBFIgnW=yexk1pWFvcqYYGG
zk)0*j7s)Ch@Gy;E#`GlY#;HwIXrB$iZq|U!{`_nphGo-Z(t`uxLTu#wnkMu>9yaci
zgL@9NQ1W#Bdaiz?H?0;kC5s=^&6%2!HIRnKN#fn@E@{1tj_5E;9x$T1E*86J@~gvf
zFi8$c-1|FFWg11qBdtWVCm*9}g%Z|gDj$Oq)<=q@J=un#q!LhnQG(w0pfGS~RKVuJ
zJXGz;RvF|<I;<Z#Y<`MV+LPM?Hrw)0wI{a+(qMp=%jRBTbAQ0*{ybFe$(DdkOCEyk
z)b`|-fX9|RB<;zq7)GjMw&o#dZcpykdJ5g{&O?Di)7jnO&6a-?sW;=->t!Ri9U&hK
zZ??};%`;`Z3DBOD-4&+L*fgTb1msUq)5*Pt5Kdi}5Np%GLnu@f%>m6+lubi&Gr9!7
zOaAPyZ~$L&b7I3Sto#j+FQV+S0UC{hGjQ~iT)b(LnK(mJnd6xyn10(F+mp`+I(a@%
znx@l*MGHFJv&>Cwr^~JyCM<e#ba0{-3vy94zOd~rUb?szM^*7t-*{1yTQc!mw-Vp5
z<~xy}tXo{`ji2y=G2`%Wyti~2_HE9))5B+%m-57`CD^5jeVgGUs{DN<NTam$d~E8h
zo_E`*3on=NWtW^=GV}WKSyea8ygpf8QFYZd(~~!hDp|d{<Vch^Ts!r{$(f_5JY1!Q
z>k*kAj?8i_E2Bi*y)^J^wzm}DE%~5#R*6@8=kn^3%Rgwcl}b*Zeyvv`d%O<EO+UO|
zrMlwB(xD`eJ6#uAkn!(Wu^8X|Rw`^ie|x89nf**0XR&R+)4l80QV{=qpxkq_PIkku
zlda!!uFq`ZxN7+0$Dil#4PQ+h*Dd_<!-I3R?kA2*_T&2D_xbT3Gr?Y(t{=Y658tQZ
zd?(Ql*RAIzfDRGI^#}gg_&6`8@Yg{eO4u}U$rdcTfBniJyiCKtLLwVp_<3K3xf=dz
zDEuWqe65Dd-Yh?UaPClxhRbK3Z1~b3{k9{-@7C~ox;FlxTL1k4dGw5+&toPWgs=C{
zW-6gM#MQwc8^7=gU;Z);=g865Vd4Mr!{=)FCR#lkf6#{GNpKpVwHkhMNWSBJ`C2r5
zMJRl+AKs?nzhe59e_@xTUjnFG!{y{e8$ReE$seP{T}<xnyo12{!FLVpC2a;b?^E2~
zOIrbUuHw~jc}W|A%V940{FopvX&Z2-;g9$zO~UR`pP~3;ic4Dn#&-copVa(I8vw@i
zh~KEV)O}!|wDhb8xTL-tFZQF-dW5faxaB!PYc<{XYB1XY`Tx5zka_{^J4(M<>7^3{
z#z`XiY*k#hT6#YRuJc3qf{SfBAO5Qtye9_li^1On&U1h4#qkWUA&`&nMDWc+Ueey-
z4hNo3p0kwxHKl)5VtL*NV(70_`k!cmVh<4K2E`|<NMZ+o&r^K4;+B53;`<brb`Sb*
z0?#KW^_~y^w-}tW!+iAI>W~kAItG6>2LEyl{$dQybA|Gy`+MLlubVm0!6o($?un@P
z`RL=$4=RbFKQ0Cz51i?~#-Tkfv72!D9hQ9QvK{8bt77nlG5BKOOn2K*N!Am43-9eQ
z^q-BvTVn8sm4EpuhQHWrc%O`+?})*Fs(fzZhc0l5U5CppL6rX~b_%$DWgPEK#sB5~
z1`s<A?+~=Be0n=I2FDRHy1CgNXk$+Nuy-q}`Cih1PQ_VXhnJi<@U1eD#4AVTh))m7
z35L~GE0-<!L^WP!%6AUV1T*5}$sjm*r+P(RqPW9y@*I)lzbR#2s4|DNRN>vKTWc4A
zw|`X4C#vt{ku4m%R?V;CK|A(r7ds+lki1)kQ&M=qi<6-R^A;?s_UsVW+}V>?jGA>k
zi}QbQluG^}qZPc%Wo8n3D9)nVWlL8gExbcEZ{b3`LngZOP&o80TaH6^t5>Yx`87+H
zt%Q6_s;hbSOym@x!=^ZI!Gdb=(Wwhg3F1VistRmzED+BLl4Ede?yNd=fF3>oX62%~
z+J(#RSc*biaJ!UbcmR*1l2+lM9QoYL;_8(=UdW4L=4G}VlqU@7=-<>z=m2La$$TJ$
zS5>cEFmHJ^k6Bt)SBtmhoCG7&hx}(6MU$?^OLf&NI1|KW#|`Y3=(q1Ijbk9LC~o^j
z;_f?6j|jD)ck$mkxXb@I*l%9sa}xe+x}SFN;SOE|JHacOF72Pix!c6@+2!CapVuAS
zmFGO|$D{Jx<=`V6{skn&MRsbE<$kE*bZAPgJR>9YM+r5)gA+r4O@!W-)65w9k4Nb3
zc#V%2dC_s@$wcT+7b?&DVhlZ>Zt}AEJ;&U7kHpZg*YOF1T|GbN;Oru-eo9m!q(8&K
zFLLk_2fti#E00|_xXPhF)1jZ^;Ac7b=N<fP2me}x|3wJn^=*fqI<WFT;NT-2{6`Lc
zu7h_fZsnhXFkW2_z03a<2R{#VHr+l4clA6)$3@hqtLGaWywu_2o_BM;ga1<Lt(;R4
z#>>7dNB*vyw;UtEQr|9s*UGuV!ACoI*1<1y@b~HXiu~Pj8LzmN$Ck@vhu)Q^!ogkr
zJmui7e)c=KtDpDle8;BCaX7Eh5&T02_AZIw3l+ayapr3*{;Yl$Iyh~w#p@j0tyiCS
za1N;~eT##;c6g8)DW*H#p&#qu6CC`%6}S22d853B>cr0CHoqrF@W%|fce>)y{AMHc
z#mfK97`#{~j^yLo;WZA<xwzHCMhAEGFe+gLBOjOk3I})TSFqCHBE5_6iNQ}H5iZix
z23vVvaqx)_{(A>^`Mc-)xcI&7EOC*)%jXLY?$UoF2H(lf5?3@|g}Q(dmH%l6chh~r
z!QFIUiNS|a>6$LrLactyaqvqV{Bp%@eJj#>GDYVpl+$geTOE9o!{;v!KH0(l#Kw<{
zd^q>E@|>mf6r1j4n(q0EN9h+v=r33LB{B5>9)lmR^B|jUneus$;?Z=^bZ~e4GsVH(
ze9esT=eh*1*)jBs9NgvqX$QX)@vYvz8sR@p`TwIs@5<8`q2HqPZ$)rxXO7W<iq+56
zN<U0->c_RK6C(7Me|ZGA{68GQAER<`-4MgSE<!(7<+&#YZ;9ZxK5upSyZYG~p*Pat
zdonTfzm3pa{(p#}FXCVem(`~ZC%j_CqxEe}gx>PMB!>Rl2)&Bo-4sJ#7ooTO>tpD@
z7@=3Q?0r3k{s$3y%YSDK{Yw%0bBwyYS7PW7Md&}O^<i*{i5S&qrQ%lqw!P1Zp<nFa
zZhLHSaJN0)AK`D?;}(bBt#1buKi>;~5ByDs{&Ixb_FjA@Zg5%oXKQ{(C?3u4d<S>!
zHrH7#AM#3Q|2-mtcWFO;S_HpY7mG?F__<mk&WYgnva`Zf8o`GRH@N+NJZ0hEj}^Dy
ze6e^V3jx=}2%o#P|C<!S7rxif+y2DzIh}(VTni)g*PUtbMG^dS+K`q+aC^Sj@(4as
z>t$^Oe^BvN5xiFM5|g~>fU?@FOg&cqYxRC^1h3ZnwGsTsdfyVk?emYe2>zJL*B!y_
z^A9f~Ki6G(Maw;@^Lg72to(M}KdOJbzP~QQ->&0tiQsk}e|H48>-hU4xLwB|tnylU
z?7DXJyWe)*d0K?tK9Ax0F)z!<t{1P1;C7vNO9Z#;w!0&^UANsI!R@;3+y54fe4F`y
z#z&o@uM+&RXl(xnuUuv7E;>^^>S!_gAcv8(b!9$cJY5`&;99TtjMFN{Eh30Zn|<uJ
zVYWunHL(m2>!&*!f8?pvn~+=sjn6SR<<jCck@34-(|?$O&J|soACItn`Jc<q0@r4Z
z&-@R;Uo`(DBZ*yigjcQ_PX2L?F^>Oh#j)<y2(f;j2%e1^-^J*U(%uA&OC8btZ`SxF
z2y-thzr~ipL!Qz2tv3BZmeRP<_#X$HPk;Sa82VCWO#K~;KO5iHpL}UEX6w29#S3>-
zIxbGH*(FBfa~UQgA`s7OVa39AaU?LRKk|%_NW79O#qsVmj{h5tKOavaE}7_mn&!yg
zg&sFfKVLKOZ_|`ed3u$JTZS*w93OlanqS3~ovYXwYxfNg;rBGLB@7>G;6_T>D4Te=
z&DoYcxcIUwZvTaZ?(8W{?@D(Tv^5PaCeYA5h##^{ccu#3_<a<F7w~Jb!S_4LE6Zoz
zfIXI-*kg%pZF4%BQ|Yc$)2sr1-ZD3tR~UK$zIoeIP@eu#c~f#w(~Lpbzs;A_HR%F;
zC3*k!Of`15&FSdfi+m;?9u#HOG_;WlNHtB(mrz^J;A3{CpPruXp58RKU_D+2%}a()
z%%*oDtT2zPZ9Roi7Wv3_b{{1yAYe{*!|@xQ99-V;JN*6k;Kb+7$3{E&3f7dr>%4(Y
z;hL#`gB*g<pfzPN>KJf7Rp)!KBP8APW)~{ZsN{Zpe)ePKv&-iM)h1nk2)nKu+6uXW
zd+~EOR#sM~cD`1!v;T}yyP5`XV%dhOnY&|NYq)M<?|na-BEPZf?gU5ap~m1N04N-8
zzBZp+#cuIuQ%$l!hnEqKU0)oHhB&Ab4c+6oC!AkxZAx)}J+_y3pnOrQK#+d+m?QE;
zMET0F?n@W8g$>=81#Amlwnx1Uwi=P!-4W}EIc!KC#20+_HS`otP998bcph(Fn@#(P
zrt{y8-oUW{9P2(DufoG>$t{&V-UoZ{LxIP$`a6}z+mSFVFgD<#R$Y+n!54cmW*Yc)
zIY_UVc=074m^As)DVKdvBYFjeg9Z;d>gb|ljy-PZ@h2pThn;xR@b{ej-VyIJ1gD&O
z+WSvGqvXu9&OT@4x#yLRI{$*v7mgV_Zv2Fc2A=ZYk+S^Csne2IU7fn-Lm!@A@sVq1
zTzCBqGb?YrY1Yjjoi~5M!s?n^7cKtyCzjl{blLJxu2@-Hcl#Zy?!1e_8$Dcr5$4<5
zHp+1Z$8Q`Gywg3SwTK(+$NPlr$2$kmWyEoPfa4XrA1~Q7Xv5%!A%jNAXNhHB;6kC&
z@t&o-RoF=QIt~Ap%V*G+4Fe5}Ivi8HojrYwpKtFQ$5-65=3hEk;TT77y)Rb+E-iC!
zi@iiQxZxTKaeFU10mk(f;@{OVogMRX3`_i%ic8*sd3JE*EnhKV<>FPm$3~A!CThUK
z>IK}kjeXjN(A?`y_0n*lxhGeT>)^bY9LH{UO{WEZUQs-2;2iuI&3csHT`O_<PmiHr
z8H0Z=25*nSe;tE!Zy2wroMU3}kHz43#NcCf0POQO$$1Si_)9VPFg8$JQ9ifE;NOYC
zhiMg#^7(KKULvWQbTx~Dltpk`pBF`NTc6iQa9f|>!5YE;iZh?;9aF)qYxPqtnCI^-
zqB0*bo=N)byI7UYN4Ja{ottqAM_j85eCB#QlCH(0>2nH4p6@h1=l103)(PBtZJK_0
zB*78}Iv4E>Nvxf-K?S<E;7D`(D>c52XWg+H-`-m{B93=G0`kr6$7%c$8&O@We+zSN
zo-hA1G=7UER5u#G8hF0)PwBJzxf+kRtP(c<k>>V&ntq?g=k%8ASJC)!bNg;3oT>4x
z6V+eb+<vRdZ|y-`d~QHnjx(R|C#OE?#9h8DYy9Tdp7}K4qRErY?B1W-`&BpY%%}d>
zg4$Uof|Oxz>7NRjm(%e>_YC}$sQ*lL&r<hnbw|QISN-R~<?{jjmwovh@zc*|0~e~F
z2fB<^Kl{7!>gPM@e8(35<=Fr~{Y3vI>T;hr@A-USvidJocM4oSAHaX_gZSaIWcshb
zPnr7J=J@Ou|GlaBnWp|E+^f{jXQL_gUjz3;>i@91?1%B+t5EkNaIaPW40W%Ad%gO(
zSAC}XE8*U#{+r;=Qvc0x`OFLdy^pCo8}1zS-vYNv{d3iwr|x`p7r<Sp{%W}V{yF}8
zx2nr$A-rF#?#I>rgt~ktg8$xa>Mn)5O#OT=g8$wp)#d(Vjys6)*+`xGZ&&vYb@_bc
zPW9iV?x*0cR)0O*HR`_`?ppQV1NYPFZ-Bc_{f%%xqyBs0u2+8=?q}7XQFjB}CiUN^
zF2_Xp?=`FYdAR?e{x87YsQyjrei81M)X%lpFRTA6aKEbl`{8~~{a;u28*p3H|4q2x
zQvW}~-J<?)!~G}q|1;dJ>i-Vhe^LK;;cip^zry`D^*;c2yZXNe_utk3eYg**{~>iB
zhWm*6Th;x6x{t#Bq52<#`?&gdsQU!mHudj>yG#8~!riU@AHm(D{&u(>>VHbzr{Vrs
z{d?j5MEyTi_ZhgI>VH<<=hXd~y3fP?x%yv#`=a{0;Qm7WFTwq#`uD;85B2}2x-Y}+
zR{yWyzM}qD;qF)euhsnx+~2Cd2X3$WUxS-f{{gtaQ~&Sb{z3hH>i$vP*WtdQ{)2G;
zkNW=v_f7Tp!~HMy{~7LI)PD%>f2;qmaNklt2Nm#Q29NQD`Uj~y814}DAEoZmaJd(l
zagI^<Sh##&gV<2G$E*JYbrWzo#$xy|xSR*je-hl`>VFU1lhyxTbw{YncSlZ9|EcPp
z2KW8yKV4mZbfrZ7XTm*8{b#Ft4&0IIKNs$K>gU@2DD|JO?gem1tN%i{oTE_Yv2e$!
zpYNhfQ2#}6C#wHqbuUqu^Ug`?pA7d>^-ock=Zui|2i3h?-7DahslOcVmFk}gcbfY7
z{PimJU#)IR-D}`}Nc|s%J6-)1a6h8{Yt@~h?saglSN{!gXR5zaT|U>PtT(AU3+~P8
z|0rC}*%&?>?i}^s0+;XG5T6Top8Ds*U7-GjaI4i{qwcNhE`qyQ{U2BN6L6QP|2DWw
z)xQkxa`k@_?h5tuBR{q3uY-HL`Z<?erT#nBy-VFs!CkHXdUe;py<7cj)x8Jqr`6v8
zcb)nh;eJN__rhJT{<ONERW}27gZi7)y$|l^)ZYyE^XmTxxL;8JM!1{Q|3$c8QvYUk
zzpU<8;C@y8_rv{~`o9kM8|rUS_nUCPrT%|}yG8xqR`;La{<HeG!u^i={{`-M)xQny
zzpDS=;69-K?Qp-R{(p!2ef2*G_aXH^4EGWBx5E8_`X7b+L-juf_i^>_fcu2{+u-h0
z|1Nc(gu7e)KT>xO+;;VMsQVP$r`7*sb@#&kiTZ!4?lW*Z)&H!z&%ynf`kz<#=Wt(8
z|BLE&!Tp8$UsCs%aQCVIKh*tCxG$@}Tisv5eMSARs=FWVuhst>b$<)DNBzC(z6Lj|
z{sZd%4({*q=YPjuz7#JLN-X~K;aR^N9auTScnMXOsDDJJQYiRk{5elHhj^sx@X?gY
zo^%Dil9I~~T+L~QCIx;IHa$a<$W-n(>_XgfScKAZzwoOcn4p9^N?>U0*B_pW$d|)W
z#e5@CEFb&ne<Lvr-&ita0A;D1SW$rCkOCw_aJT~ww%}0rd;sXRCY4yzR+Ct^lO8;c
z!~+><NMkzMMr!gMQX>NI_<;+#E8^V&dpDeS(60$&a-lMSV9A5{sp!K`<pKQ6$&;Fi
zUM!T%Fqsu68O7=WDe?|^G+{lw%SkOaA0c_-%7~New^2r@IQAS0H@B8MYh9j_<+p&$
z*Yr`%P=Ks{$Q{0_B_(LncfY#Bb}&$GeR*Zd+mZ&P6FwBMGP(6OluPD8@`Ah}FOzrG
z@)!~b-QI)ftgf+{#>dVALVUs`J`H>&N%hsxR^%KT5!RHP8>xw+h8fK=5pyG7V}i6i
z7}9UmHZMV0)SdbS7eb8m_Dlqx%W!2;_C%4GoHNC#hFv&#vN*5Q0k>LyS=AIXqrAo_
z0mAcW_*FPk;GEDl1es8LW%)Uu4E5vq9hAvYYEb_it?}%W5%O$T9_rc>aP1xp9K<+K
z^l`8J2UJygD}TkyIg>eo;R#|!0S&v0&DooX=zpIzdph-(N<Rq^fonS0ieSB&InFr{
zfmC|LXh6o2!KZQp&R~eou!+IPskzWc5Hzqv1IuGeR$31g%wuc)EW|cX)&C3@tgR*7
zlcC?4!@(-)%I<W<zUk>?=kzqc`s%14)aFIinI!UH6tu3bwy0b-kY`ybef*j<zl_x3
zkRAO)7JyLsu+es>OC_ZyR6d+a@5Fb-GIib9Bfw(L)Q`BSBK@mt(p|P_-dTY*Rrg`b
zLC|gvQ>Hn!4Mmz+MFZD8J(FUe4YzCrU3_7j>h3lMq&u^meO5PH!hxcj4l6L|*r*XZ
zRcbhul}i0}KD0Ej3S-L{X`)1UK8>3JG<(}1O?zNdRmoyozLgxbI}Y2gh+!zslnr+K
z5RpMcyg=hdHX8$n9r-mqsGX=Rb!`h%nZa@<NGhG|!Fem0B>t$WvSO)L>~6-TnvyRg
zyt}!Xt0Z1PgaT=*d>QxP<$tm&%hK~};<{hf9&h5CdfnWN(4OGiQ<rByK&7Hu=TKrh
z3)&%RL&ug_jan7sT<6{6LiKIHc^om2JdXI^oyU@a<gw&`WFCW7hMFw)UF(q3i}^IP
z+&r0FPnfpNN}$ky3H49y`;6kljw5n=0U4cW6F2jWI7$38oIV7x?d&AnSy7^(|Dd&8
zg$BGC?Xww!?e)2BbiHi@rng0tk|tZ~c3J!=b3^@huWlIFgO^dAZ1zEWd;sma6>YJp
z@&SD9Zaa`RrwJPZRW_n;x6wgQ8v%Afz9g!l&0b`?dP%`DKwp2Db_{-wJupWTNg6rh
z0_0DR9#8W_^T9X!Om~N&fk_el8kq)KdCAEel;w^${QAQZv+?s=_4YE3ae1zmZ%zH!
ze}i#Dq?hEhhm$RvC7cfQvYI@%&*?FJ4lJdPgVN%5V{~t%HQCLTIDZ~(a*j6g=GO^_
znDITA-%lR71*hu{rZMVrIb(C`#x{(E^fRjbbTJxbSusXunTmr!m*b4SP$DJl{lLvk
zRGngtusg-FW9>W)Khx9y?d?mSU$|B<9unf$!tANIgFe`_XK>ttkf7D!_HgykmZRmY
zXYTRDmmt~nF5$`)0?ra6Y>g&Cp&fCfg=k951Blfi+=M$=45nZ!GMa5eeV11kCL9Bs
z^P(AKz{tD^qr?^tM*g_M5Ew4a2y=|arLN%t7fW<_!xIc3j%*PkdVCMkmzrqPLinb(
zu+~axt;`GnADU)vdMtG+)c63Si0AZ7<8ZcKM&govnV$V7l_@VuWv+t)k4mL)gtvS|
zDt%S)G(EWsgCEp)-#83x80%XD+8iq<noC!@0*2&&pq##)4Ji%{0*VV-%)7Bv)I`eG
zbEu*<x7Y3Pi_g{u{mk_192DzGg>bvsOF*txpI$!iEOxm=+CmemLr}4C`XH#gFw{=0
z+hU?3*wkTs%sTN6n!uA#{e9FNSG7iBIfP;>Zzj4!MDUxO-}F$r{Malzd)Jh-rZTgr
z$#A?!4U_-0vbYl9Y{R^LdbA~#L8TD8t`jQla8=5~9o-(>s#HyVrG1A2M1kJvH~k!%
z6KqOTMPEpd2SDA&DGLsSk*);E`uW6RszCF69o}yZr~)B*(QHE#q$9{YhtG+1CB%Hm
z+e+IPE)Ow@oXo0>ndPOT3&%|I;Mu0YR1ZjY*a2Pt;|i^5%Kd)fMHD;=DWWFGl)6Wi
z+Ltntge+U0z7^#Oy>k^fXnU-^ZeLCQF?^rZiltUMu$s{S-#rh$#X}~#Y4Su)+fqX2
z1v*3-={PL2N>;*-Y?$REbf#;0C#L!BtuVYBi}x;T`(0?ECY$=U6BOCz*EYY3!)QrM
zMQv$ftucj;w~R#Z+EiJS(8~R$ird39V?@o@j2+E|Ytdn9={X{WF)671(i*h(`{NE*
z$AACYL!0}*q4rP{vtV#q(T=vG9c_idX>kp_SxrK)c0SfVXrK9B*h<u(PU&NE`_2|W
zUMAV11=FfEsS`D+%ZAJ6+NJXpqtE6Haon23!$<v&wbRB6b*w%bbgVu^Lce3}3>$Kr
zH$D|J9V^t}rVY`hV-3g4)3N%=;RIu_;@CF4=p`L%Y)|DX{s_I)>YQGx)0+Qq=FkSi
zfXu2pSO}T{zlms1W}14SfPr>mPRlKG#|v+>|NR?Sq*$vXb|S`FarOL27OB|pn-61+
zP7}LltdUwFzcRU22u;uMb9sfju72sd&^y~zfWyrd-^H^IT7ePB8oEmKrnay2n}t6u
z$v5F)n|YgS7ICXA=q;?)%<{)!=f=_eBKAPn<(#~_vm|$&#*Vc)w}x8$0zC4}jN>IP
zP5G@nqTT;XDVDN4{U=u@7ba7DSj1z^_xlH$zmunZHk-E9`+X|X%pH(bcCmS-U-0YH
z-$1WH`*By&{5E5ga$47sTi*cJz?>m|Xxy9Ao~65t)P+eXnGUqH(4>U@tp9ulrPU_A
zq|F0tcJ31zLvPA7`aCAIl!B)|O2t>l^L0xa9$88W)!_eqQlox^N04?d#nM9ypeArQ
zOrNhEr<`ov;`$>i5Tax%4+dr+x6}tj8J0&G8#zLA;5?F8F*q+aTN32ygDF^f0AgFB
zl^s<~pQT(Rk!@v?WGj(vG25nx0@H!)%y8OLxG(TqU7nuGw|}$@M_87ERZ$MKPbPEk
z#5(1DHW1hE<S`$io(N{c>ekQ8{{uaxUyt&SNo?sjb>iLFSHJ(DW_hY#sHSj~fmVxZ
zdMyIv2HjZD9&H<b`*o#R5(@X&)^fN{A2fL$V2jGGH8WToF($%&nh|P~%pEOg7joB`
zuEgXZSO$c@)8_8I_9j!gH^^Ofi0s(Gx;i$<)c1I`sYrZSb+ZI?xcv}F+cqfQ%iJS!
zXuJ}XyD@ywIu0%53@^)vkj7vrtJo4(b-i6nb*>~}<&?x6OQm>7vszZL<j%m#pB7GX
zwl(1>J|XhQnEs%S<9-w0hw`?0H;GWAzzDHe7&tar?%T^sWopcr2$NMMTMVYRP3Me+
z#?aW<jaE^HRyF9ztv6hH5etQMqr0tKa~C5x8kjt*La?~8`?LPmvif<-BR86TlS<Xl
zR_ct&q3Kuw-`1`*zvjpF6f#38MSA_Jn1RhX2Ex~5jT<B)Sv!0Z{us?qBUCXVCo3i#
z-(rRKV7OtiZP|&tV;ripWfmT#_+y)N<$;F!0|m8b;<vDNIDQAieqf`wmp#d>%naqL
zTb^3A#<n}d4@_@>P?Blka<*_e+2!({RC^n~{_|Eg#77>Vz34P5WZG}e%xAb4pTtpk
zx^B0-=3)lnopNj;cKHR*b}-cLw7G8RE5Ig52Z)ZTCub+v7VJ<BZ0H>sw~XT?PCG;#
z-zqxYCpz7C1f3?<pTMO#*JAlbajq(fN0T0;dCHz6gqgBZ403tyVrD3Mq$ExumAmxN
zPJ9HXprQU?;hGmhEXkg>(^v^e>en)?6VE6Xkx_sU83h=KJir3%c8gS!no;_8v|tAL
z*A(L`MCqZs^7b0x6LPa-C3ldV=h-3_Rz7TvGC4!x<0;-?9wjSB%GMt$T=U~l-3r>F
z^pvIUcpWX<u!+i2mTyYP6~Ko2Hk_0B0LloGp+@@p?SS6fRPR2HlV+tj??Uy2@*HBx
z(!NNRb{VoDlLLyyO*w5m$d>hFFq#G8KO;4&0SDc(u-B|b{y>%IY)U(h4r$33)a{v2
zsf^{)`9NOl6lbUNFzQ2>W*B1Llec&Oe`xJ1G821ub1m8c*KYYEdAzHU+>f7%Zv0g4
z!_ORyH9@Wgj+Z?uyYN$iAiQV-DH5eGB}$)7ly=l4mbN*j98r8z{%%&_{_o@)shIuZ
z({O67n_=vR@po$5N}tXd{~dA2Vio>Q`hHC|Z)-w}wME0$8@rF$UAN{qUwH=oYrfVU
zT?w-^cHKmopp&XIlLiG+K-L`X4j5p7PsfMOY<QXqgy2C1@wfGamTa6hZ_}2DaXBb~
zP3DVFdER3R^wiK_H~?`cv8LnIrQ!;_&4d@6Abng-4`qbi5hf;O#nJecq4;>8%b5B|
zsdDrHepm(4odkG)f%VZZ<#la!BW)6?3?`?}s@OGYpDfy2iDpo4R8Aj$D!5_8r)Ghf
z%`V)gCgShlr%$YqW{M7SzrZXRb#ow7(T8F)CSYek6D~a~fz6oZU^9^6w!yqQL2c!J
ze<PQr3Dw+qt+A%WYbh+Dq+{zgB8IABD7^tv(yFHHFya4W?_J=uE~@|W&+dYeH_*J`
zC0$l66vf@;E}9}dx+@E;EGQ}Xu<Sm-%HG@yf_XtfWm_>aHBvMyFO;TKX5`llmDJ1(
z%WsnTEh;k=zeQ$6<v0KDbLPx^&gU|F1H#w;_4~Y(=h^q1IdkUBnKNhRGc!-e%*Wz!
zt9osZ4nh-k7Z$vEJ*i*EqO!h>-#!mDOzpxnVY{rFx!Le>&}z-5FL5sTsU3fAn=rze
z$Qnd^7Q59p73xN_1viFlI|YC7dXS}vA9Z}9tm9|E8lR(V^aX&6jAZCac+#-nBbPI6
z6fO%P6fm=CoBnJK*7ZbqJK9K?;A^w#s1OEV<Vo#kuKz~lXs1wSyUoaQsVNoy9$=<{
z+e(?vZHbUKb)C&P&3R?nAW{dyH@pEhVeWjK5?xJWZ_+|pj-A|@Pp!HTHoOMRRwoS@
zuxpsr_B%)116Mq0Lg3ZBP-e;O=J<gtzG5uAyZ!K8ZhMDmBfoeJsBOLdV_R7`p9?9r
zeaNC}V}3WYJcyra{%fKU6x2i>4n|I|W5ZD1%svtpk99#z>aW-lv>nZ}G439&%YuP3
zU@E?>lYg%u>VMw|8=M+x7D``-(i2-j)F}b@+I3LbH{(l=C}SO;Y<y!deRR<9ypC=@
z4qI)*)0uDOy?Kvm(hWADBlGa`D<0mjZ7}_NRXhHDzilM`-MhUG^ue|zVC0CG@7UYy
z=h#=HOjil1Hd?0W3N*x}N<;_uA)sk-&U$cX=HY>lZzcwzV_d!Lif;u2uRRwl4w|#g
zXli&@M4xj=GfswtQAAb<{AA)CML-h{M<Q*s)F8AJ9FcC~l*!Nk+d)v)@q4E&->lKB
zI<Yc&*)`II!Vcp2bidLjO&5#HQrfH+(e_TP#!rkGii^|C2@2ai$(Cf!y$u_1@fXEC
zlFCDr8`a2F40Vnwu?thZ;^1S$TP+uTvZtf#Q$2-j-)J$cDn_JN!=GWta(03$T(*np
z-SMK)y@%W|7-CR&Tck8cb8q|AZ?9o5^1X%RA3DB0mp^Wq#UHCG@u3I0EhQWIAfGuC
zT(<msL=d!<l&!k<O3sm4W{+pCx`mNW<^gxIT8Xi(7#XfI8CI@dJ%O&fLWFk<Lquw>
z=vFz(I*mxHXjoH*eJzW<Y6`N<Twm5H;>$41#O^x;FyAvPUTYiV1TffYockoq)Iu;C
z?zXr?q61efhm_kcr(v_a;|Hh`L@|_REH$7j#(}BjP3d?$tw?j)lnRY*ypw{&iJDqp
zy@{GGcC9+u^b#1|8j4XczgUUwYs+*KnjMiQ5J6uYj3IX!>Ir(M);DQCBrxPP^)q9H
z$rF-c+%|{%+Af4Lx{F;r!3o-JW2|^R_G~Llkx!qq2?LtMFclqtP)J(jz9tsALw&BF
z**;4S1gh$f{qNi84d3=qFXjSqo*?zE=W3qA{XAp+R|U8cFE$G;z5y-1{vEi6b+P82
zKk!dKd}rVVQ`RB(kD$)=M!~MRr3p5mtf!O}Alpy>GVp@UU^(+H-6ro~o_kkRox3U`
zh<N0V%_}qJJ-R3hx8!GD-FDKzN9GWm=8hxYm?tr*k?9Vo3XLdd2MqVNkAkNeEIKJ6
zvY{n9ZiFMKWaz`5mOj5JR<h&Oa_1C?Ow&p2;?*j(vt?7;#Cu|%HJgY_zb&Ak7YYiO
z))PUuS}v$6bA!kd_UYel=8s#*H^*!dcJvwejn#bU_cLXktC*C7O;>}m&O3}(&)f*o
zHB5RVNSXO6m|j>}u*07aQx2te&>Fx-EjSa17h6RP#kXsNHbO}PIeq0QF4=amohK<)
z;pEB3Q&XVEw$%8`wy2LviIJ&CEJW{KN7ETJ;+nWZJLllHCNkfFrp!s|@5sakS_n02
zl_F}=!9C|qulqDTa|Ay_rE7*_`&={ewCHLysWUG2FyEs2EMw)SuyBcPg3F9Kq$jT-
zk(Vc({M#Q&HOh`%w>AMbI+qb@FL2ngtqA`bh<97W`4CMQW7|;}BWQcd=)26Sjk?0N
zE6{!zs-<qLDhrKmD*vpKJIKOe2r3l==&C8?kWrd$a!^^GYBGniq8sWvGg=%N(@Zib
z2;_=bv2ozF6cBDZyPK}C(UsV>okLdD#q26tWCbnO7{)Qf&lZxRxn=m=TD%$JYfyu1
z{Oz*!k_T@bQdgSDl$C7_lk@1S|NXcW+a*GCP(o~1ykvPB7h56T3f_M|Z@<BC#WRm+
z2|Dxe1;D;X;`8MG=LQ#>zXuM(=L>m9;NH^}`3BmbNE%LmFfVvUGEv68bNz46!}YF)
zrmMe*n*JYH4%+MT`r``OzbHlnhn+-M_x8sPx4#m2{~{{!AlwDK){hi|rtu)$6?})K
zNg%dlu4M6{<-t57ZQ}1Cz(*Wf5#%KOXnZPq;`8BgN3;fClA<Di?0W>LCmuRGXg9fS
zsr0!oahh=Syx>zNZGZmzbli4)yRhOGx$wxPxHZ_2>~{=4oBLmiD}@CxO;jITD}XLw
zzmXt1qkmm+Yb=qaI_}U<1m_Ev6Y*JjXdP}^Hb9(U-{XLfJ=9qOm9qbE+^b)E0xmp$
zPI3(zQ;6$$!2=frTLal=;`RBsr||Xy!&r-V$dzMov*FWu{c+dgYkB=~`{Q?nYT((p
za{sox{<uu{4|%7sE$%-F3@+@CYnvaF(hjcbkIOHw?2lV<VIjDi_s3$B1Izla%|q32
zEwq*Fpi1O!?2ij~p{K2RxFOSsv-h+S%1E4W)E{m?F7Jrn<kjO=&VqCPtAE~2{g7kr
zUdKJLSMamF@RjC_^gt1y{b=4tsBcW~KPPWlUjJ+Ja8-1aW`Fwq%F8F>Hs5tpH0Pvp
z4$j+ec>i<qYWHr$rPnSO<EQq&Ft2^@tAfvJ{G)jX{2{;pih_cl74+Xy5d52T25GKv
z@(dW+e|#_t==--HmN#%x|4Z{eo3}Um<JUtjEcbx3`%euPF&$(`E9?C{M-z+c%(!Vb
z1tKPtVK{9#BZq0zfA~~*UuDYb8?xgPT~iPGiI$pdYg<cQ<APHPYnmGIwY{dTuBowb
zeoIqBVPkuJePLZ|VPjKU;o|E0y4qlIuBNT2<&;yhQ?mHYpX&Ddwrq8CbFMLx(vqvL
zuWzc!)-|@~TH1oVJll?{e#LN@m;;BGLeXB5=+D_bo%vIMxy%-LT>PXR4T^tKVIQwF
zx6@`H4B2VNG_@8AQCd&5Y3Q(~9hZy)a2aZ8$(RaN)056Y`11|g52DUemod5(=xU_y
zaH|Y$W;9e|hgwYkj}}ZZ%vfp&#4wu?c|MD&6sa43OI_tCUWZv>lGt+j6`O<hfn}>;
z)d6&2)e>$%LxbSQ1i_KQKAvf9He6loqPIw>(!#INRb*K~jt#6(szUaZ5_#nRfQVvs
zz{bcnx*d(M1M@3oz~li`PaI?`;I<#Zz>j~j?1_IClx?{GYvw5%_z+CM>|^L0K<2Ci
zQT|ihQ^c%`*|@Ypaetl;4s=n;hp}>nUV}+4J2{%{QZI5*DT(b&BF*pFb#iNi<1^a_
z-bA-p9BV|hrU}ld5sT@VZ#y$WGtOo;`{${WB$xY9O#DdZs)O=kJd{im&NHj6%Qr16
z>(EQBx<_MiwXE~nxjc6k*~aloAKt|x1YhxT0e%dXdKLXq0Jq7zO3X{Oaq*nAVr`ZQ
zZS^sgF6)?cmvF$FU~;^&iIq6=TlQEU`LmO!@@1Xp3@Wo<4=g+W#j+><QBd}%vVs?>
zc`U`=WgYKC?7)cg4AlUxTmCv@K=e<(E~+P$S%=E3hYds()`3Y-tPbNdE4kSRuGj}P
zPGlfGMRZPv+#YiIh4W#UtHpWSx{}SV;zbKK+YK<=jWFA1VJ2u(dhO>d%ki*zcZE_r
zXRfC4#WokDp@rXsd5S?)4tlfNsDeed211JZ99!CFR14YEghBBgpb--*$4X38nY1Jx
zMJhVpsp$A)sMBj{Ri~mOhkh|<GsIp7db5h;H1_7hN}SHY!my&V5Z@vdK+EYmm#^Bl
zpDmq+W&Nfmmet5f%qlwPLVLy{I%nCh6`jSg9OUnGVHJ7XD>~k+==g0}M|f3DPuqiv
zG1fCPx%9vM?Pa{iKjESe!gywbMs}|3lXqz2)}x0^Z`muRdCa_LG4XX{O;4yJ#2=7R
zH5q-_arQqIDLNfe#8!qu74D{ey&hTkoe#Yqi+Cb9DD=2+PXhkliq#+dPr;h&e%NJ4
zyKul%1|_`{3%#Io3cXO+qFg<O*x2aOHV47u25?#LxF9Fza^;}t&49M5qOq>^6TlR8
zZY}S4wyfjDGP@A1)_ftY7HRoLI0oO{6;4;N^(74EQah><1u#x7Z$u<HA~DS%7cV7K
zBNjdgrEI4SCgYyO@Sg11*o3QFkS0JB{*WKz(9L`mnJJ9!$Tu9jo9%=W5--C*RY3_k
z@DUagzcW1cNo-b8GJ=Q}ts>pgMq3;h4MMU@wJw9yiZZbPH;`2vmaifuw98y;!Wcy(
z@3M>%U_xxS>+rc{H8^c%!{uO*G=%?$;g(>4&*Bf<%e!OX;?rSC^w);Oogv)Zux;1e
zupOpU(6$d#RxsR-;%06z)}}J3zClwW+(N^K4ihy83)~GeN!Ag|g@U@62PPfOP9o9v
zqt>yp8GSuN0yF;3QJHSjxCO-TETdT<u51n)g&Ju){zfMzGoTkyc*DjKy_@%~)^^~n
z9A+W|kdbZa_>`GQXnFKvY9+-E9p5t{g?TZx{Co7$DHyooL<H1jHr%k?pMyLm=K~ie
z80kD?fM?c&pgP83d}ehE?g*7AM%WGm+wqw-tueoddaNlMe=W(=a(X-unPynLyed;G
z{GGR$TAexI&3V`g=7`Bf+~xj)<Q=qs%)Dt6hO1-`ol`w%*1IeiDO7*JizOH^>CqJ-
zZi5zFIP%nirgW%P`@$b_#dsPJ_61)CUJ+PnWpE`>f7*b6och#V)?dY`I`M*<B5vw>
zv{1ngg1hlXRg={=n<%bx`k=C5lrwE2(}_1KTG!GLkcHxGgxgX%EIsKk&`g6j(2A6`
z0J2unXo`|F)u1=;fQHFwx>_#3Vr9@a!!fcJ3YFYq-moTEuH=I0MGy_h7|Ll1ZSI7^
z-_B))nxLRy3hLwx;SFkMBgIqvowij-YakoFqY3?n`GEnXV}XdeI(3s_@W)T=C?G||
z76>r3FTY}I&^C!_Z3~BUez=GpO!#T_2){&<>MBCXlHMaS3Jrn?JG4S{tt4-ED;}Yr
z!I)KuF$=G>qAQj(Ec23|Q#^{@j`kooAKBld24EjA3~Tg*BE998T*bq6lBTgpk)dQA
zJa)Ra=1pmkzq6gF(WS)t;IX%z9<fqxc<}0^#_N$CrS8etCEBCf4yC4mNy7L|<mhDQ
zU3^GV9f`ULdN8JJGE^rlJiTRiqBVAbd@8ge@nFgA+fiFo&0Y(`V=Hji9?HTJeIqh&
z;7*SSel(hWeW)ueljtyqUMSCbRxLm!2R3-^=s?mXKiDF#F5?q^LgEJ6Cer)0-bDRk
zvHlJS26Z{p*L`1m39*xy=3JahJ_MbaBlt*koWjF9hX`Zfs1(s=B}YPqX_=J`401NW
zMAp191Vx-2{i#c_hQrmM+Q42YaCctR{DMU@xUYkS-31F<0}ES?V^}M-t1~+aS6W*!
zzYVk6{%LN4Kt?4NM)OsfjZ^T;8Xe*C8juJPZ)rfm&V+ebH+`C}DQ?3>byGH@Ew>P}
z2;EcLa1jYy(ke1p*Umfzjg*2BOHUMcVi();P0jq{A5M3XJ_X&PH&7rzpV(D`NuR8@
zsy@bn&U6sbfD9+?A{m<DSocfoisaTP%AxU{y*56d{(d0_ZW*zuv%cZ-g!`j-sh=dk
zID%~^+@mW8Y%9jM^&xqzt0UYXHAYv@2(co?V}e3*z}i6E<Q2bD*W2;SJGS=G13O<p
z=1xlm$zE>zuXl+n(e=3NSo=1g%4?VreTQ?><b61Yv&<icea_kqninH)H#dOufCfq_
z`gm;Ld<CpGl6~=;4r*gG#W3^hI`VGOw5M%7HMYmtQ4C4Db7RXia9Md<#7l=|kIQUr
zp@Xj>GCs4lmA1z?WLrP{1>df_oZkE6`i^aLs6awSdhPNC$|S|X*wJ)m<Ky=De15gO
z&<NF^3<)~OYY-dTVzKV>4Eqiqg789vq65>dk|U8B3n0`WFhm2#mOWrxeHoj(<eC`V
zjFYCKpdc6Ypn**7j5qdGHnv`k%5t@xVbZ<+ksmd3-KYD`vAZRWnPrNk#aby(XZ{^L
zoq0b%<HCK~Ul?$MOK32tB4vaI+c(F(SmcHY9(bVHP+K(S#1u&Dsk}txs8*A$#QS8-
z0}OVOM;v*~P-*r}+|lqbR5)ncr+e&?`!b_|XwlU_>o2Jb^u?n-@y5|g`w6q54y^Ps
zhe9D`&u$?YdZl_h=bT_ff|Ksm#LXej_k_RN6?P{$48%OovZnbqD(ddfT6LQq77o$u
zMP2{nH4^-MT*q%BEkv>UnFCh49}RQmyADR$q=6cNjyd22zst*Jh!8@PQ`2D5(?Zm7
z9Srv_j2vsU@tUiF09&6&fe5e2gIut2Pw|mNcT07c0vX1Gd>yJCf{@4N<c%O}*jJ)M
znT;SRF9F6x@^?ImWu<3nxq%mFc?sWjM^K_G&D`=P{Sq?1tT9<#Cwh~9xmiTo5XwRR
z3vxJ{p!eDb@vBY>STHcg>x@cBwcAdMN=JPytSsGNN?}+m3NkVdu(IgjvU~N+M+qC9
z?0mrlly+jM6&ic7Z0*s^O;oQ{v>c6i(L>Y7bx&&VJjS^}mG&sogZ41usa71gBEN?U
z>`U|hn3|s~%cr_zi?+>$n4#2GZ^tXWkxqPi+cw7pHB%_CL5n6#ZriCT_O|Wgial6+
zRgR&B0<L}e=L}uI6>&`3Us4a3UZh-?{BS3`_3dRHSP^^<)(c_j^>A#B3Em&3#xulo
z22hv5k_{+bKi>{*(XFHdxTo=4ugmo(a)~Aaf&Za-a!OE>8r}D0Ea}zJk;vNh<1k9)
zfOy-7S+xhM*6>Nc$u;_p%raO3{+AVM=T|^{SD9UPr#%!pMf@M;O0kUxy#9<;<lpp%
z%5Yd5uPJ41p4N+DY4%-|Z5Ep9bx^P%(>b^1k(kD94V%(=HB954$*ec+8GX%wvBy?P
z41hK+K%`EnM9sDN<X&cdp{=TwD<wbK7AoAnCZ6AF$<)*=rmx1vFz8?k3RC^cuARf3
z4zeZk+7Qo(SC&1owLf_s^0$!{@zsD*W-syRrWk`>O260=Y7QM>RpyPj$!rG*`?iYO
zsa`S21{aoJq&F9GD)lN_q@%u?d>eo?XKRtnhBY#8Grv4%1-75K%xy3fwFB>$wzvOJ
z<Q<xMEB9>NXKa{h9%!9LSqf!nUdA&kh)3}x6yvC1Ze}Wo=^!~FC#G>c6w7wAm`xKC
z#NK(RI+X+dj)$sh#Ph&VXtqbIYpr|H_ig>~Z))u3BEI-UyGN^`&exi`Q*WjTre#*q
z%+DH8pz34&d=~^s!!U0}!O``f6pq$EyJF#|k573OO1+9pPgA!Qk1T7bA(L8Iw)Rt3
zU=@mrvc&$7Cn8qof@*KW@MzWD61A!1b``D1+qXAt!a2GzEOtFmGk?O+D#_sJ@5l;h
zBpMfWsP>SWV%CEnH@3B<ID9O*B$_~?!=raaf4~c|__p&9^kAf>?qrot(HBMv9etU-
zofQ6qjwc|BKC^in$s9rOf(^T`zk+^7;Sa_R*YKc3*YhpCSlN3}UuhPr&y*hO<}$sU
zxw(Ad94w+kQ~`fmb-|0M@YzhlplX{;;k!}|MwfQVuqC$WOwP#uaI-7lX@TnsgJ;W7
zs!Tw!^?mBrsWB23ih8;L8cJiW4ELLcR_4YV%(xY5J2gvebP=;xsuPbw<X*+-=>yu4
zzwmN3<Y;G=YhcY?-g(3u2x$6XTOfmLavsXtb}o3YhxKlN#ji2nEd>qvtJQ36W#*w}
zS3DH(p*mzSWc)+k?k_M}&rEP0|6bTL&3w>lT-$JdyfTjnf)@dZwW5TWX$=8PGllg?
z+N>Nda&HFfEqpK&%tc%ye)u;}dLh2<usz`#pGo-UAw8H$Sj$+xad6mTuwJsi9UR5m
zmUfkpHl_~@!?tRIMqjIITS7N?#B^b9KJuq5wqV5~D#;*cr`>TdQm6JBTXF}DW`9?$
zjaEvDK3vZ+e&h^@0LNff)8UH~J0t0m+V+X4Q0P9!Wj5ealg>HM0^MM1ZhVY0MP55~
zF?oEsV<mp9o;a>58-QC2@ExYs*}mRZg_6*p@frp}5fxlH6eMJcTO;-JIPK+|&WJ9{
z+V=Lo%cFi=rZu61Lh}YMtbXi8!14b-d#|9Y&hMrWkoVLr+mSLhw&~6^7%hrcw0#Rb
z=M{?15b{5<1CyiJT0kKh<qeqU&cEqMbbO9~?T!Gr{m7u;dWr3!%7chsQOK^}-`B+|
zJB{;j7qpuG#BckT{rwetTx?Y@8Y)pguvG81dsyp;|FQ$*Gw=U2w(dF<?6#m0H$%tx
z#2%TW@D0r>MqodeH*C%;Tb_AiunE+DNkrSmlTA5N4r+;s8`Jphlc7m$$ui~?)-^Vp
zF+w1&b(1;F61U>r;J`;VVr7{R7GZgLgB;}An^IfNJ2`phg$Y}9u4-ze>JPIkb~cO^
zs@}|?$oO}J0~MOL%lS{zE|W-N^z$%{>x`Q(;Tgyh2e2hZw2%j1iRSH%J@&<MU}^f6
zjWLfQHKq=-s*+p{^vA=u>a8J-0(+_$E$CQh*L?ny1}YdVhAM5_6vjb&7z*XG`Q@1{
zFmSSRN*JHn-2MXPNHuhD?1iCQ+1PBT>ex)7s_5#ShAKK6+1R;^?Vj|0r6WIT+r~df
zDvZb(7w_`|r0+HK55qV5_Uzx)Z?EPh%gA2j4s)`uV-+1itLWfsHnb6L;WL3|x98K}
zp9==kFPYLg4H~c`r`R}FiJXoyN1O~N(}&G*EwhK%`l-yy3dH#p9Sv)6ChIQj$y$e&
zTNfz@3#6hi6A-Pjf1;bL#MELvK3C&&18ij@xS)mUWEWmGb^Pl4XV@Ab?*y|Tr{`%p
z2J4_`Z<#U=NV3tD#Ys<Bbo_z!!5hUQceP!Ig0@{n_JWFMR{X7P9~5uND>~kAjASpZ
z-L314k!&~qmNwNBW2O*a0kh0aTV1`08a{D`iz0}zFl6Wlv8k?GEd1h?f4f>h0U`A^
zbU<a3ZlhePS2H<W6I0I3;GnG7yB%NiD}=DA@p&iwP;cX>M6g1UtLumC(2QSGEhT7l
zmXaI+2$7zh(&tqWWXp@qklC-u`VhSA@iue|nWgQyFuO|7GPZMVf||G5Kke@!*&23W
zlL<A#6J`g7F_icg2J1PDyTV8WBS0S-oajT=uD2ESz~Gl}8kDfbWNUavP3wTI@j@V3
z<l?RiCqD+J;Ixpac6c^YQ}I|~=IF@kx*%2-zX>(%(t#rutZ*9*Luc}AS?7D7NEcKm
zCzynAJj^xhKtzYji?4c_h?FV)$4ZKu35TIRQ-P2$JL?Oa1MR!zr1wAcp|HEay3Qa+
zrw2BgcWuC!M-L7Q(25I37v$d1Ypi>NQ*czhe-9CQucVa8=7Fc7NZH5)p;9AdN&QeV
zQij<4BFpGj2N8+FlfB1m%EwRuYd?hyDQqKJ$qbz!uR3kyRi|*%Is&djvdKcuNdebm
zoGERtxg!j>$?WZ`H#lEs-k}jE1-0FLXjG~_5Cf8IgK0=Yg~)0`9nl$a<$B@6RUn<P
ziC#z2AGH4FwPbnCmzQqIGUv-rT5@#Ghqr`Dla5Bvh{LfY9vYA~eoINCs@fff7J?-@
z#$l_ZO;gm|OWqXg(xT?N1SYWtCb1eJ=t`7=Pw{ppJlzOckxs8=*y(Im>F8HGx3@Z8
z*j*@O9fY9I_4r(e&kgw8U<-ADn;lpoJ+v9|o`jfq#^|~8Ktx7*pMGTYUN!SiDU)c`
zBGhk&x_-kIj_;`xg@ya5AQAllWT6u~HYwGOEb0zhC8bJT(|4UJ3Np(%2!;ON^ZzuU
zH86E#TTAtllH$sire@qQR+nqd=;XwALqB?YZUL?~>zb7FTK?1KU5xwAD(YI>y3S<i
z$CWo!FUWOI9R!Ac6w`Oj*;GaNSLIq3=US?!&FC&qgnmj-=|@kjugf)dRaL`xbXj#{
zZGEl_Aq?HvDY>@l+UmCIE+}>V#+=_mcgeM+lhay^eewsGZz9i`P3?`fJ`?cg8&lD=
zU;%EvOO{tsLiUxN$9!#}>a(Pj)9X!sm2mdNiKi3}ojI?)v8}zZWW?|h!;4QE-OhiO
zURgSFc=5>LCC5twveA!D(YgEn`2XywGXrcg-AEV?t@Cq`eCAy?J;+-!DDQ}UKQv%9
zDs&`p`k$VG^iO90LD%I^+;6Y5K!86f?Nq|?jHZ8VdPA5#n{Ygb&_6bPN|=5*;dnkm
z|Jd|%!t}L-<C#eR*!0W7^v4LtGnM|a>G>HZI1<pSgyR`P|Jd|dVgC0B$8$3MW7Fq{
z=|@V#w(0czMUMZelHL?aHw>u!*^=H6Nw0PJFPHQoI$g=PR?>a)Jtpb6TQ!v5u;=!9
zRnn*H^!##H{(F)>L8mWK^@p+0Glc%J`cd+oD(OD?W=ndF&YypQEB|syFV*RFVfkw%
z-Dh8qN%|C>KYx<r|Ei>46-i(0(h1JHtg?bF|3kOapGR2xABsPYB?Ql{_@DZW(?Mo=
zL4MirLFWw*E+%F~S4ru3+VOvac0pLDX6bkpL~M1MKamM=S!%F`a6AX1Z6bWmzM)`w
zzx?lWsnW+t#%Gy22!4vs2tCO-m#Ooof_ov-`DbqNNmp}5Xxl>h262MFPZUe~Vc_B9
zuMG27N;)ksx%6padUF@~k42U>Vw11oJCj-+nfkv(oQQ5?59x59EI(cGqrN(T93-A&
z=pS3AF;(tMLnVE(PR~D+D^>`sQf$qqTcT+bnlgNk)a@#xAF9_Hp*bYp{%FsF0eP;x
z4I<Ah<Z<#+n=AkMs?d;3jz+chdy<}Ji-pK?<X)692y*m~)d`hxzLB>OaGBV%uim8F
zTH)jK6DuU$r~A7l-RI{wNjmpID`)=MEF_ixnxv<-9i{jC5dOjQN&3g-H%3kA$4dGI
zk@Rz!Kebr}H)asLgYS`cC0)H{bVYpXh0i3-=Tjz~`tr@f=e{&PbB7mB6MsXr8+%C0
z^_Ox>bh!&dx%v&Dg!DdN2>e({pFw@e>WA#{EMt#UMw!q&gzt_f|6VSH(iciP|L~9H
zk^fDXzEaX_Bl$0M>FXqYZY13pBJqE=i~K{8zFlm69lo>btPIpf)uC>Q*Fhh~KX`ol
z8Y$^Md!8ZbTZoA*C;um|E^U&2VI+Mzr<1H}#a??N>&9+m-P(n$g;f6D^bf9`j<;=7
z*tW+C&CiL@)#t~qK9eNfSKnGmpBBk)0!h;M3Q70*sk<fJ=chJFdRKmGyYvB{pDKhL
z2Mr(rVaxbGVk62wj}@9r;xuGOHLMaIpXT<E&e}c2n2|DxpTwfaB5i#S_!WX~i_rP%
zN&0?wAN+&IXTJySYtoD8!?yP)P2DK}NJ&rg*Cgv~vAJ*Kd!kPFg*sZ%13D`2ZYgg(
zzB_qZLU}ex`UyI{I!u49oAiGBQN|z`MgQ3P)`$6zm2_X6I!V&c)%o+wm;uROE9q(W
zP5Qb)>~|TyC-kN2`GD}L0G*RlV#h*2&r5n&{a}Zb<+BgsbEMcu8NNs4k$yllX9$gt
z57m42{`dz^nw?R-R|t<ze2<hvwtq#a|GS0HbYf=PN9Hla=Xv3Ce;S`VLOyQ`pD~(G
zW0=10KuQP#Upt>D>63`a$|2)7)we>@=jrr(({U)hUebr^^lVuE4U&GePCqY9f1rzW
z(!)z)=U>P7gg(D$_z>NDLf4hPh|bzQZ9GWuyT<S<L|TQ|9mS#%x_lG(6HT+w)Ffz3
zkWDl<3(b@SO*p4pPm39NPNsis8;GAI9dDNO2X%V>JuEEMX@`_?FTO`)C7W9l>U!`2
z#6afoww!`09u%pZv67w^6H@vtN%z^(5=rMdndP6qjRm0mYa~6*XHfbEN%#4JEt1}q
zFX$)s<m<zQC}*h9_<RBB)Y|=gd{5|9)(eQPO?Z7ajc&QoJ<+Wdy6*UG61t^n{LC^<
zP>8g*h0a$`(&qqPg!0?fP)YZViDi<WHYO7Pg_3?bzB{|kZ*}dxvK#*EB>jm<{tYhw
zvyvW}4@&=|^52m3Ya;oVy8HtUqJ$tANB>xRY&LB|`G-onxBilTmd>wy_(DndjnON+
zNGF?EFZTSu_@1z_UmH0Kk+xa*T#E0m9@Mwhy3)HsbH1kGRT8tVc@W=g=^qD1O8Ux3
zels|du4YL3<Vd<%E1<euejp`4r--@ZbtyPJjJwwgpDT#iwn@I3z!RTM!sq@pK6iwC
zUK2h(U($~kXwi=&<(M_8LSV;AdRM-rQtZpu$B0jx(D-}_(X8o)59#+|k>_N5cY0A{
zz)O<u8|UAZbQ+6Xep#0+1a#1$ln?}S=^v|ivLQ1?<Mp7iLX+0UB;zbeKUedRn2^T*
zWnzOrkGEaLs)8H(E$?6OglRu&=LdxL^f)bKDkurt`S~u&B$?ip^lU^X6JSs|*6yFj
z_qbi=KOXk6k%Ngr*ZP?yG#MhaI=npeCrc#VH$JYB^hr9uinTU$lYfh(FVOk(FJb|x
zuI8mg5X_0|v<y0}2z5VHY~>YXN$BMHus&tHAQ}WTwz>M|uVez!{X$7kvlo(QwUjd<
zE)TWwh_H><3m>0eHg}W0UD6vOa+;S0B<G;RDFMET{;}<*V$@<uU#ipd%|Jo<E4xUi
zdM*(gT!-%oecl%8bB*v}7iZ-#uP(U%ZRjR_OBZsGoIAS7Kllg`;qldTtfZF^k(E!@
z)CvL375kfw?~!`uS8*kYW`)pPkf1SZizMe=QqIlz?#jvUWFDl?jgrpm?pBV;Hx{hw
zcSHZ>dlj7850u2`jc)40M4<DH&qIj`o|EVwTaGasZjZ8V(icj)uRT{vx=-Khy2<}+
z7x@bz@*9#q4E@W=Pkrm7Vc**Kqe#OuivF>6RO<jIO8QYceP(F072TxQOZvxj{yAa(
z8zg;>PS2mg1SI|gl0HPItM_rwOZss-eRjzIZAs^F*w)W1!*Lt#%M}ZPwE7i-=SZ=k
z;rJf0>0DSwrSLdR>$zYME1BxhEa^TwSlvzf`fk!Ucay%ooAg0E`S!<t#ggvRVWp%`
zM_ru_sdui;lJ2d47v)ob-yn9JEr_)NjayR-xFHHbw^it_$M;BE<zMOS>Ah}bIg%LR
z@yU8>AtwjN(}%UExuGr0mh@7cuHx{^B|R<fB=OfudfIy((#58a;vYO;#{ZEzQml4!
zD93AsMCFff`*DW~f@wr#>p?swggk}{O`0r)$X3<^9`!=w^Dj3@dYZnej0YtBYxo|K
zb8RT+<}P@UPPccHK8PoH{x&a`bYGiSN;-Elt4rl0n<d@n16NBro2JdL*1*<FI#<J{
zD<8O7(tYF9c1a(rb=VZ@ZxB!5)Au}(&5bRjj6pCyFJ^Q6e!5^7Il4lm&k{a=Ct@on
z+0>h1S(gh<noY6&ca#2@q;r*Q8ET#WRY~`a>F-IpuPu(G3gb!BWg+lWC7pgnE>g$8
zhIO1PG*dw0Xk?E@A)sZFe!fm8J*imlZlUqD`6fyC^{dyq$={C$%ygS48IP6pMlGY+
zkH8ZOYO6A#@#%VDH)X8sK^YGS%{VQGTBCVh(y!9#`DVXMA+Wb4y(>RAh>bz^vsjx_
z@6wAU-8=qCdYVm=3`@l3PQ>?q_}|%tygMUZ-Yh(Pe$d+em^csE4Gk~EV@nr2D1Apa
z>4QHGB0N4B#!7lb*TyE;n@}0Eh2|7uWOaFo=^KTBE|>Im1u7kND7ejx<HX}Gp-Iyx
zrEiq<%kkZnq1F|*O1jS<n~7d}dl!ObAx{MH`_}o2KgAlw`CJi_VUp0y$M;YM6WCIE
zt)%;8SkX=T-I9Kq=CAg#Z0aWcHA%l(=g(i_<nPCWS-PJi`Hz+KlXZTz-ZV+l(`<$7
zFX=x2v_jH-{rYZ6_xitX(qEJGw7DwD*N>f65TyBNuD_&zQrAB}+#fSZ(!KSUbYJ-^
zB%PN)Y(G)^MDOk<|0YSFpye~o%k!GoB;99!{f1G-^nI#@z>k&m$B4+vM`P53rZ1C@
z%7n&O#zIN=+0aT!C!eOvAb(Z}Xq}{Y<!_!B8eczoThb%`Ki^CMsSf*+Q^w<KhZDO=
zuaI<~4(cU+Bo$)ysNU1uAnCmC)uxj_yfK`kukS{N&5~ZG%P>pxYzx~Zoj+_DYU~-r
z!H!=C#ggvJUn%KTx_sG`R|u?G(%;hQX54s%tclv;W}!*z@5JL_N$)D|+9EU+x*XXn
zKxOQZ^s{t2bWPoc(g)KdAI}u}$LdM#tsN`rqjkFMOQrm?B;Dr|mUNT8M$)Hi{%Rh*
zLDK6Y>1Ogt<!_PngLQgE*k5;aQ~qG?sOjTB@gFPc97b6E$XX7Cn{&m^I`KUc=aAn}
z@5Po0pEfP0+GBo~r2EE(jgs#3ty?AC*A78373{BPp``oxpCRc@#Kh`BHZGB#=1ThM
zIvqNoFo@EZNjit<How{S$9>^0N%ytmMoCYTk9fWzcD@$h6YX$gXb%IJfxq7m?IyiU
z(tUbfDCs;D*?Lxo<*$_ViCRyWnRE(Y){DIkMjRHY$5gl0n@15@A!uI`UUM`rvOBXK
zgY~*YXr^fzH5LpmrG)gjknLa6eSUV9r2F)-MACg@%^FEh>t9s<21)1e*6P!|-U$kk
zzD3d(;JdR+<7au(DCxAH*v`fDUDLVs^L$=;pz?-}AcFKgp=4*3!fOM*M|hFmzZSN0
zv+$uZom~0G5U8BhU8IxD8>E~o@I6vaC^Ll&+{Uj8uLD8r%2M;{_qs_xk_YM_xLW5|
zar3E??&CjO(icVY&tqj!T`%t<e<9M>N_xA_Px@5nDK-iXe^@(^n1b5n4YBjJ_#V+0
z@zMRCgYzKp`Kh6jPCT71m7gk;^n-P}j5pM7&0>!|X}6n&mrt(`OM06wON|*XNxIM1
zyesKEG+3Rf`OHB)sGD;luC6lQDnywhCH*N~KI!w@p`FhX8ebijNP1d~L$<L-(%J1<
z8Rb0#$*@7vtKu@4<6p-9g~k_;z9;EE8IR;(JpFwL$#`lv>9ZyMU@fEA1VL#}9>9LV
zpWjbQD+ms!<it}D9Oc1}_TWQ2c##J`)`K7C!9VW7kN4pGRxYJpCwl0Id+=fpUh2U|
zdhpR6e2fPl>%mX);Iw+2d<ufoJUH$ANInGt?G{Kr1;IoQp7G#kd+>4(KG}m;c<?D6
ze5wbp^x)@u@G1{J(}SPy!9VH2FZAHEJ@`c)e69zt_Tck8c#Q|odGG}ue4z)g^WYbI
z@I@ZH-h(%IaQda0<Wmqdd+<v<c#8*b^Wcj;_@y3vi3h*TgMZ3{^QoIeg$shKJoHz4
z@Z}!-S`U7`2k-FUogVxK4}PNu|BMHx6X(gNAo#2Y|C|TE#e?7K!R=|&XxRn9Z611F
znTitQuY%xC5B(QC_?JBRS3LMV9{fHJ{#6ftzX$)i2Y<+ef5U@+%Y%R0gFoWIH+b;x
zdhka*_+uWN?~F`o$M1XSpYY&MdGH^2@Mk>u4?XyE9{hO^{(=Ypi3fktga6cn|ICBG
z<iUUL!MAwuS3LNu9{g7x{MR1*Hy-?V9{l$n{B;j*Pn$<gs~~vGL;to1|Dy-r?!o`;
z!Qb)V?|SgRdGH+`{GT5DJrDkG4^G#TB%gvH&x03u@O~bAFAx495B^~fzPAV8*Mslx
z!3TQq13dUgJov#L{7?^0tB1*_AUMo}AK}4|^x#K%@S{EW5D$Kg2S3(>f6Rjq_24IX
z@L?YOBoBVF2QTs9BRu#h4?fz1kMZE+JotDIeyRsQ&4Yi!gP-ofdDlR~;4nY+&}TgO
z*&e*igO_{o$sT-)2cPD_?QI{?sucw1dg!Y>_)HIeo(DhQgU|Bd7kKd59{eH?KG%cK
z^We1}e7*-?;K3Jq@QXe8A`jl+!J9nzB_6!hgSUI|OFj5f4}O^k|C9&6!h>Jw!IydP
zt3CK~4}Pr&zutp)c<@hq@J<iD%7fqN!B>0mn>;xE9&qw02yXS@_O_mAo`T>D9{Srn
z_*xHsrw6~wgMZ0`f5n5}lfd^yRq}#id5uyf8?e!P5yJUBFMl@#ErK_jKS5)jd-!87
z`78YR4S)Sm2*|gAoN+(`AI<pQ3H(aN_e<cL82?BDHxcGR34AzffLG`vX~r|to15rk
zJb-MdQb}(!AAaMa&>)ycd;82yG7<bMjF(0*`s2rpS0?bO{PJpc0>6XtixT)Y#_JRK
z+5HK!traE@;-<PJ1mxT8jJGH71Gov7Ch!{>zbS#g$@mu%_{X`)>Fr$f$ua)rD2Tsa
zVSHl(AN^s1o=)ITGX9$czCWAPZxi_WjK7}1A7uOw34GK(1ig{Ke-6Azy_Xp%6n|y>
zXtq*<<P}tK2s&O-aH7K-g#L8kgXFvZIE(3rIQl~*aVq2CdmP&n&IkUb;21}5zg*(s
ze<Sb%)%&K2!hgMo{%PPtg2%ZR5NV;%zvAITcTf=jNkTVOK953|PQ%X-+*;NUp`Yo&
zFBbe^q2qU*_<j}eG<{w#^sfm$zgxxk+kp=W9!u2gK@XqrdHB32_$*Pp^`n3G;0Nq)
z^zf|EH;7zAJ^1N@+Zlt^Pn8E>Ah?Yjt$scw_)4kqNmA}=;6s8(ogRh?PIt3Vd&TL$
zEBGUlW4h4)RPcrDpJaa-(*D;&zZW_V@gKl`5&MvZ&ru$HwBY9mz172H4?b7$dZ9mA
z__qtbR`43ZZx;L!k^d^e9}?VbGLZ9QNP7-=QBW+cDCbFmFMttJy-J0T^#j)cPqWXJ
zLO+`Qx4Dy&ioO&0ko^C3?ZWO6_@jge8ys%i>nFhRU*dTUAj$I{`?DaJEEM}5kWPP(
zhtCn9Cq8jGO9X#j<hLWrIlzm8@cpbEQT{6QEm9%g(+ZjPIneNr^Ep=VGkLs{vtFS8
zga@A`_>Dq;ptR8az|-{emIpr`4wmX0=X1H>ck#Gq?&l<xehGLQ{|z4c{}DW{hrbAJ
z?*%)VnB(~{LL8E3tLW`80|zGw{!hW>=y5Pz@B?|A3<68vEcl6nTfcZ4@S-4mZ@y0W
zZv~!Kufq{q6$RDK{?Q%y84Em(z8pBoKZwU$+}$YjmkIuE48K?KEn>IF2>p{D{#%5;
z4C4<y)~?<W{5rwQOmeUf23C^i1;G!Inq+~e$=~Y1mw51Rd+<L2r*dDz_(0Dr^AThY
zO)vM8z={4;_)&Uny&8ZI39J{EbNxtP=Apk?@XLfx1#`pMLl3@5@TY}7C-lDrUKE(<
zogj1{eh!D>k(_b*62VUt1F`aFJoqOCzgXz4{Wl1Ho8Z<St_PmhUN;N<<3c}G<b1?K
z|3jhQSC~}_{o5Y;_l178&|ANH3_2R=VV&Tg6h5C2JRkm#9=aQVo>jnw)By7DTA`mU
z^zR7%eGmN$LO)d+WRlRo>7oC-(BCBV_X+)A+@CNccsMb>3<I7f=b6B%zHvS^f}a9^
zMvvvc!o%kd5B=kU|5o^v7<R!=J^1T_9|XTekF}qF3O-5j8PeZR!r6C{zgQaZvnE?m
z1w5_3wI2La9{gqx{#6hDU%*M8TgMwgtX=)gL;okCUjsi!&qL-T_&7GQ5ubOCH-NQ=
znSz(W57F~q<|FtL@U;4V*Mq;{!GACO`@v7pQ)@ng(H}MPEEIgM;7!2O%Dr0XpN;XM
zyAY^eC!+t+W5=m~0Ur{4Ghw#}V3S}P|KotC@tGm`OTypU+aeEsjo^EsKhb0D?F)jB
z7JQ3I4t@nZO`g99{f=To_^!|&b+nOlf7mZQ7n+aYeBfz(8if90p||>33w%hhKB1p)
zdgy;6_<^u5daNFHc<_ORM$Sn>Z}spo!P^A4J7X3BPm_O{(7yvaqUY!4BlvD%I{i<8
zQ#(G3_NT|{`LH1dzYBV$XPWs4GJ@OtB2E*07Vsg#g9-gy?4iFx@Zr!0J$5|3*@NFN
z_+>(G$I~Z(7X{(|Lpz?n@1Z}q$kc1A@UilrDELu@EDqmwOW)1}UKEVYGiW$Zc}wW$
z7n+nygy1v`tZD5s132l~o`*hH=obrK41V-jc{&8&Qpj*%`Tx?x|Ib2y4(d%$oB0Sn
za%{RhCjuvV9v6Dcf0~DWq0q<W{FLC0BEPlU8wI~paQO)C@$mny&~Fq%REM7z1%FNO
zZwvkx51$VmXX<sEFtGGPfv2_0c%iQZKYGTSk6?j^eudEAAoM2){e2$#r-c5I82#@(
z^zRG(R-qpy{D*ujUH&n^sT~hNK6*;cM^NdZuMzs&gx=cQ<-mso59CXBd;FQtoD=^z
z{nv%h7U8o@GCu9We=Ybde9~k4`+FYzu#cO1-7WMvlPwqpyeK%u^+(&^mwM=L5qxia
z(qrrUO~K0qxAU48@OKg4Vqxf)nvdY}p+=t7F+R6=@COAae)QOW@r>aA7QE9W2fq{i
z?Ggi6IsY#BDPjl~-v@CCwacfGPS14n5tIl%S`2fZ;O7hes?gsr_@@LfJ>3A7|ILE0
zJ0psJUGSCoq-Tuz2%Zysqu|yK-^AZ({Vosk6$Qt+b`-IK(-;r;!44Gu3q15+Vf^Ec
zkGS>VMaIK@<D%AJzhP8vl72kn$0zvA^WYu8N&jn54n1EtAHiL~hXh|s^rJ_Z&qT-n
zW}*Kr@HGAWgXt$Y`U`}<@Wk|T#|VBF^3ij@`3R;1FA6e_kNq8zD?IdT1b;{PtQJ1s
zWIks*KDJ+Eu@G7mlsjD1!Dn?zKcA3=(ka5{e*8^%oc|95zXs*dGs}DgTLphb@EXDY
zDR`X!0mBXd8<0+q?RP^3e@yTPO>%H1@S<R{lV6g9i-n#(>ABZ@1S<p|B#dWE&ij~8
zMS{-@LSJ8O7}$1vQ}Cw+xBX==@J+Laqkxm%;{Kr&_>f>-!rn4Me}XWs5c%hL@OHr$
z3%&KXHvlgR!gC4-3ZEZ&=zlBttHQ_nlYa_+_z1(GO!ypt`WFRLo!+cnJqVoYJ5T86
z3;kx`Y5LhF^v??YXNCSibo?~>lYtZe3q~43%l}*teZA1zb9GkE8$I;*3VqyfKPvbV
z@#jzrKQ9QrPVgeZU-$6;m(V{a^fq2P2zsY_{Za7Cg%8<5njX#+`in;!LR;=9J@l6d
z{S89@gz*2ghyHG%pDF`|?bko>(EnQK?-lxMg#TV>*EIRbp3?BKz)257#~KFXgino!
z{%WD0C-hbi_j%}lAoMGQ{w(4D7Z3eF*cr+5oX}f8Spqyw{tBUgH%8y!p}$V(kCKZ1
zugLQy!S_AI0GA5>UmiX$2>lA7KVRs#dFbg<NUGPXLXYO-=WyU@^%^ep`%9p`Qs^)6
z&^HSGZ-t)jhNkB`9(w8zY2|(h_DXW@Ee`1l!zMTecpCkM9{g4hexLBaUijM+1y6eD
zf9}Ei!S2)K8Rx+pJop11{B;lh58$MqcpP{j>~BbLZ@#F@%?nNdPV~(ZH`?*#Y!6;5
z_+vtE$CqWmi-Jn${|}UcHhJi`3SM-EA++Pm{|P=<a67&nhW=0#oa^{ozx_0Dl7C%{
z&#wi4U2yB4cL;vS1XC{5#m~X8`?U5N2Aud$6?z-DlzHec68din{aoSykl+WNX@JRs
z|J%do5cCr&_adP`SLk!V)8xEL=+_JV&qY%&dguq9YWQC_$uK@$=xYRjI%9BK?ze!a
zmHQ*1A1sbDD{>xz22G<M1)S=&MChLv`fCNBbhZKJ3jW`M-z~U^74-W=I{%}96aTk_
z-ukiAJoGb#{zx%2QAco%;By7HeC`$eCczhooIeu$AA-*jef|-6Q4pTr947cI^dFM*
zymJhLSA@@%z>9+LTqoQhKQ9AM)8`+B&l6%$)~*JgVfgPW9oo)7J_Ecc2+xNeW!MM*
zV*DbJj(mlA=1m}a8y(|5alxNuJUmZo`IN%`ih}Sw>BoeAEpV#u)F}qAdOm!j!EcJ;
z*8ndH<~n(f6Fy&Ke7M7h3jU4<KLrI91>reR>z5iBuXB7X{vhMY_rLD~Pt*T+7-SmW
z;lb|(UKHe9xrfQO{m~zaf{Pt)<*8tNQ37AhcyeC+Jmd9_-rDVc=nqAK?d7<;PxLmP
z@kU2KUGU31^y?V6))c<K`w8RCj*pdp5c)$=@KuM~cxfc#mpI(YnPt4i;dBo$J)dX1
z&EeM@IM~eiVu#yu_bI1x!}F~cpThVOM=#49!4k$VbGVh~KE~~8z1$arvR`C8JojqH
z&HrQkD#z!`B4<7Nc~Nk!!z%^9h4HH$Zux9ve7VD?3H=G^;6=e>4!8PT!T9wKxAYG%
z-r;cTPu^j?)8SS>qaZ+0aD&6YCgsj!{6>dc`db)Zoxry+{#l0~FMOt;pBDw;`Bv*U
z9$`E@-}*73KYS|D-|F}rEqDjxYaBjA@V6Mh&EY2rJ_ZUY3Klrr%D<NJwGK!4!O#1Q
z-|6rnf-ghE6$M{(_;~r&fq}9p_>#l_F7)p({uPJYc3(W5=<iA3JAkM8ljEz1{ys-v
zB>Zn=yxQRd1%H6?@O-`1^KmnXPZGbA@fybm%NqO~G&5bES-^{eB>f8>`UB5P=Tqgu
z*Ld(>c<_&(pU%G#cu|n_hYvBHT%Y^}<Ka0+gdhAIFpK!u*+39j`#gj3@O-hgx9b=W
z&leYnX1~YyH=Lef_Wb;f@$h^x#Nemwlj-%kz=JRJ;7foP1>rg6A;SL|#vgI=SpSf@
zfao_k+|qxJ@$j6o?MLr0{-~pG6#k1YBtDNj+|qxJ@$Wm_(m%)e6Am9IeDW}06$MW@
z{3^lEW&AS^xBTy7{09z4cjo6L1TaOxGY+@?@j=Fa=y2PQMqNbo&pF)oyDu>Qyu(iv
z{;x6qg2Symle5GpJf}QH=<j1Z>1T${CHn9@vgNaY@t-F6|B~?+6ZrAf#OEc4TfM!*
z_$v;#^;$lU=(jkW@9u@HXVwt@s>3e_M$cau|CPh7pQ)=QdOHgVf>R86@Gj%OcJx;N
zlX67=8;4KGHyK`L{C5tYFMNjLOHuH9hud=RVLUv)Z1DpZ5dB+@-uCM$jKA&htA+n^
z#{cMW+pix3p5~ulVfyWk{$$~^opD>6@O|#F3rU_oJ9^u`ImX{{xb2T$XFS<|-(&n;
zM{oPfqB`QA?7!b-e21eSB61#nG131mfnUz}KOJ5o^p7z9p2MvlJA4uG`M1O2Uij%`
z+?-M&z}EL$jOR&fhx;qGF<#*CLkyc>a6R!4&p}&x7BU{5gPtJt-(@^J?`-*;)<As1
z^U>B$o??7&SMFoN=V~~pq98m6ZR!6Pc$z(wHW7WYzu(CCK*!(ufj1dX_S0`R6Q2Vd
zz3soNFCjeHzm8}j{3DLu+WBLQAMEgHQm^7xq7TngTm5{C@xhMX;-6?E`tUrp)x$3s
z56@GN6#j>{6aA5nkBzjx!T3=QxBSO1Ci?I^b(!#4%J>jRZ~g5r7(d40mQVYo#3wvY
zZR!7;@$ft~!X$p0mk|9>$LB4<Pg+WN(!YI$@e>^V5TPG@8PN}OxE=QwGk%i8D}?@8
z#!q(mS%T006!9r>xb0t$F>X&mg#GAPIOL*Wl%u!(>kEvJaQJB9|32g4IqT_y=dK_=
z;W=x#3w~Z^JUnN8u;Ara5`EGSKh5~5u3Rh6NEmQY5T3ub_-w{M;pjgm{I6g<yl3EK
z!9T}%crLqB@V6MB==fNFc+4^?H#~oB{l@)_hv%=YJpW|8%<-{!+111+Jb!KZT*LTe
zN008z&yN|ebhy>q;A@D_G>0E6^z#^>;_%Z2e~j^S9d65gm+>lxuNC^^mlJ<;%8wx1
zFTTO}d5+%V6)T87Jb!KL`(4KEDH{3xEbu${TB1+-v1Z1@bJ-I`o_{hv+m&lQ%d6KB
zpNkwmN9dPbPxxGiTYpu!lJKOTxrp)byta)ie#3ZpUfcSUh7RJB^fUJ}KHrsV_3$^~
zX@34=pH9cm1CIHo<74&wu!sI{OrP{8i(uGTzjAzRzj%W2iyi)P(c4FEAo?pEj$xFa
zM#dL89AODRFEYN|;nr^#uOdDT4!>CFX9G{u!!i&41?JP__*lE$#`q-;-yr;F-ALt{
zQ>X;la=*uTyQ8;w;b(|GJckZ9#ZM*UNxOZ3@$h`QZQnCi6QA&$HHI^O{)_R|uG|v@
z|IlZNK0NO{T<{wi56@qpEcnZehv%<P6a2iJh)>c!f6Mq~u3RhUqR$b1crM=JFEJjT
zqleq!r{rd$UzXsrjPa`-j^UV}-!mSbf4BbR$XkfdryafZV+$GYbhy?37Z?xE#asXO
z8sp(Pdh6d#zm@o}a(ryPmN9;-!=Dm4UuS%c!!7;L&l8_yd$lnho?9Oxe161uvb_#k
zLwu6-ix^L~`#X%Ub@JG_;&WdhK1qD!ZG_+H=xrSJAmevA+}7)m+ll^54!885X8bD&
z{11$W=ihC6Wze8Qf{l)Tu;^h9<4+~<X2yS*z^`Nc=>&c!<IgAX^^E^Cfj`aoPZId6
zjQ@86{}ba|5_tX{RIgtq@Ix8@mBX#?8V0;j>aIUN!Sugz^g|`_T*hBZ;5p!yr{;4b
z(?99x50b=t8UKO92MYdO#-DY#rGJs}A35CG!yg!b!QuN0pMNm^qQfoyz&lAlFD3Bf
z7=PK}R-UnpzmmWwGyXpgKS0Wz3p`B^*D?K8M{j9v^U!Z%`rkQvE6>Y}|H0vw&zp?D
zp1}W)@wXEApf8dh-gLOtTM^^tmIJDiEjMUusb13DJiMm4ImlixwW@7wHd~u(tFEgb
zQJl@zHMZpz<XW<AP1%}-)h(^ry4GxaV{6@l#$0Xr#hFZRvo!QR%Tk-Aq%?b8uBNT2
zB|ERWHCH}$BuPH1yrFtQE>l%qUR9FKWI~#{hUWT7qcV$)gdy(FJJC^(Ud-jB7ZH+;
z$!2SoEGa1|DFxHInrv%ZOI_oF@|vo)k`mHZ76R6_wU*bAcr`5Cg!=lXn(V^5+FVO0
zTyObI993R50+p?tTr+(#zV*C{p&Cd%VNF8ZubxoeF4Yr~m5j<}8*`UttEtY_XgBCU
zQpwJGTWiQTC0o<f2rakQw3VasnatuD*{ZSGs<zVN`AsdCR=3n<>)LWHR93dFdO>FD
z=<M0;KvB`ks*$9p|8T)d89g!HG1kDTb+Wb9ZPluY655P(0IOLjwsb^x`aIZPE@#x`
zbW&c`HnO?8uBCi(AJm_z8V!?!JTSSok}<9btMGC(1iOQA+3bSGcJ3Ky;>M<yhU)rI
zgv!Ygv8&pwF;$gjsS}r?5GjQlY-%^`dd$sslTmH$&GotRbEfr02P9hgIaQ;wnTmNO
z{C_4hsd?HA>4IaeR?7Rr+_et)QxQ;eakeT~4_{Q$+Q#|?Nqw%hwVacoEvP&Lq6zKr
z&y7vBIg*arr?jNGE?1Mgw60ZbfVxb!t*Xt{o;YNxCTGjffxa`D=~bER2dN^e<D{9|
zuCU`u=+`wEYmdhj<4kvRAF8B2<So3UBs+tQG)r!vyrQ8vvlG_J4ecz{^nXv)X#}OQ
zr6i00$iQJ2lj*NfV&6T<J)JU)l<X*X+Kgh(-CaNK{eXZD;+)55b{^!R#CePnk<mNK
za@DmaWFS@csoz)3E9S1>du2{1U55^tI%#=TwvQfo0_sQlHEpAmt2%aHJP#{vT9wt=
z&I}T8E2{7ALPO5%GWp0!PNSA2*VhAIIjMOD`N}ilEAh1$-;IyhNi~IHkXb?)5@&kY
zlBU?{RTE6P6y3s<O0(sSwYeo(8O3I`8i_Jh=YWj<;sF!_avVV6I)_ZvjcwW7;_CYL
z>b6|1jfrDH>gf7h<ASz@6jo9NRfp|@5YZU2fxhw5hDu^wTVJ`jiaH;J9hWi+aY|`P
zT~jOf$!vYyyq4;grI=~dwXt9v){m)ZTCf1Y^u$tx^c3f3>kSZO&#stu=7fsuw6o5t
z%FM{lm~duAhKieUo(TnPPHv<quaX3>3!-^YTIE@bQUAKi#Tf+Fb>JJLDCv%3QmL79
zM2enNk_HwtND6Ck1&uzlslBnb6_SuLY^4Ov@MH~RRdyazC35LvLQW+mtU+&{uG331
z^YNq<l?F#@FA_v5Z!uGMQSSLI)y>VhmRP072&`Jt66$(dGUUc+Wd<9ge4!pwU2{o$
zT}w_kLC7dQ5136$<2A7)9go!8N))NM1Ji2mL`;`vObepG>ejRxjBLHMx*2YR>y7Y`
z{w%Mo&tMoBmusw^M^VK5@>#7d7%a2d>c(2Q3I5vH)Rx7BfF@~h66{XU7Z>Hq+1Vk2
z1lrKFSjCTZU}hpu#4a|qx|J3Ks2onpWJZyffuxy{ZA+VTkPN}>Sv(j|j<m|?n)>Rx
zhE{GA_zq`ZW2a#8fu}yy1ty(8yd^h(IHnX!mSkZftxb*9^>uAavx|#W_i%ZngER<>
zY)wlJ4ll`j<fX8<Ol8Rk?iiLl$j)rMv<@noo@;GyNXdrQ4_%ZiG_)0`{}|)l*BXd;
z(1xk4!NE|XH4rGB&8@+W;pz}ERfoo{JxqxAwJ@b5)(gXw(o9`lU0=cz%slZQJ7dJn
zy<ImLm1}5jTWT7vFWGrrC$-&6c0q-r%>YwM7$uu%b4wGfzpXCUnk84+SevwIG*%+7
z9ll&6MEq2Uicc~<)WIbq>S%E-i?x-8>Ne9=r^abUw&WJnH8plgG#0C2jg7f_4+|RL
zYZhUZv9Y=#cjhQwQ!@(heQQrFNn0E1t<BhuZv10n5sL?BEcZcbEQ>D6&c|vgHAq}H
z<7~xhbFDQkb<J&1RHT0K3}g+giTTwHb@fXlv{6eLQ-cwqvAr33Vgs>0EGt7r(mtxI
zd_5B>cCd>JRJ<V9maS=TZEI>EC)Qg%ia%D?3x2_TEKQMoz30ac$*c?YK6AQ{D=BW>
zxhldnnI=%R1WVTdqsuVr*5}Z*BN3fJ!`Q}>=^@5qac^t!xUaRi3tliF(HLGn-2_^a
zp5aMw$>^3G5AYaZb1k{X8Xo%1s6EZBmPT^L2LoXi@hBEcsl+55_Xu6wh{dMksw){m
zP1Ic70{4LBU3gui@CcgBM5e1URZ6Z19M5F~0~0aBYoX=hG-GXFQ-gw3XdJ|AsB1*b
zu@k+;@rV~ZjzrJ3v^2GZj)6PB!{a$9FhIPtm?B4}w10<$6YJ}8jcu?_8k@6v_T(lX
zhD7>u4bx|#`}XGS{5q{3VMW7YjFlKtSe8zgc8M@<ZGszAeJErd&1na?(S{&ujDkgs
zQLu<H8f@gHcv+K~4*sL3^N_~hONuMq&>MDEjh2kaHMX|5<nUgs?h=Z8jizgio`|Ud
zn&w@Mm0ZNwt?;OrzNNs{cXLx|dNi<MB7<#BeN&^dOCzt?u9UB{hn^|k?qQ`%il?!F
z6_BsXnulbzvy6_*8!x4#m}d8Nu*AzSBf#5->^OdHXUd|#oyzGCtzEG?T^kAN<Ast*
zMpPe`*?W1S+DHl&v%69A$v34}Eu}VM8=NUFTi2{Y<(tBy%&k=8s&Xxhb1hZVW}sg~
zp)R7MKhnB*m_hX2$_%8JhjX5g4x>R=j7^6R$s-+8!MblMSa;754vkft55#cRgYQv|
zu#re*s4He$n?kP=a<P^?is?<%OC8lUPAJ5vmRxiFQlouWZqh(>!JH#nvT2|xy=@?5
z2%V6~L`-_o7$8q;41!Y{gW#0L0K6+2qd_-@Q%RpSoX*ZGXta+fOefZvP-QJxB(pOU
zvl}56>d6*`IFZ)2%NJe$5jY;^Icka8V^N-z*SjFk6=i1vJl!y8V&>rBPyn;;R8kyv
zAc}x?&l1#5E_xX0u|<OyhY%uS&6@_LzRqrpyHMO>Ep45P(oKva((^>TVqw_cQork@
z1G8AsB_pJq222K8mePub8AKzsGKs#d^V;WQ29c?w7YAYc%i>$sq{i|_T#%`;^)qG)
zYA`b!v9T*JMo_FvD~rTXlSY<#l<|(G4AjQ4nAz0NCdRpqp#*5ln@KdOB`D!cMpfB`
zc<Bh8RMye!&=Q#;hGj;mV!A0AeQ67JRb+*xrRma4q)p<faoI~olJLIV(X>Qfp72Y9
zvhcb^DQ{|X#wT*7qBfkho>cqHn2*#+;RvTujB#Nc5=p?+#c42-fQd+YLVP|Q%N2FP
zkwo9jS`+nhdabj@=h!+e;e}&~316HD%RjIlS=S`u86pWj1Bf~fon-_JR@s1rYY|Hl
zEaHJ9EHJCc&~(<udZ`wboC7-Vq?wfzhchuHmkwDY!s!Gnq47AH>&RA`R;722c*oT9
zsBj?}%bY#gp5|zHZ>3q!!myd#=VzjS<HE5)Dx`EA{M!seNw^eg^qxs5PK9LZbxBt7
zJ<A(X+bt-OI@|52p+H@eY10m8B{3fvCa{MLcfX_-jnzH2iw5n$&EkW5Db@`OYjQlA
zhNauO$6@7FyJ2ixnc0yS=MoQgRk_;vO1v4LuzdhsoP8;n+DePD;lr8+HZx#ziR{9O
zsm0$Ek$62+R${b>BzZE~o*FM)W`M@^gp5M>iuY=^7OB;&Taw{7ya^5qt6P;LRIJJE
z!t06;;c>i=WyIZMSV-JCny7{QNIZ10Lq}{8Ult18m=KahV+f1KjoaedvLg%jQb6zK
za+YgsuY$k{%Lws!2(ftgbtkjGHTA_c?M&@r8vz@q$Xqf~W-qPHxf-l5!j^afVwXwH
z3{Mi{tyD5vGPht|wz_daea`H3N#Woq5<IK`%}w=77c@1d3m}P!%ytUeP~EzSW?re%
zQ(`=4q@#*1qG6DLkqMM&g`)WA3`&Ug6iREEUcbaD1|+N0YWlUXVYeW2HdUk|PcY}L
zL|X5}Kce(x36=BB)XL4SR9TU%y0nrp#97({pE%!=sl)CjT{bq%VevG&;GW1uEfSH*
z%>H7WS;h!+QhtP}8%F%5z`j#ZHMBg;n}mcgqo^FRocKgEO<RgCZfGS~yx_Sgu~IWp
zktCX!tV*d9BbiqxC323DMlgdzMA4(oKDL-n!p&_F;<4a^vrLVx=-QEXuz0+}@i9Rv
zs>Xu||1o&G+EPzDuxRTUzuJiI)sy@}mZ)dV;=Zgq#p;fCx7b!pynDZfh0!4LvKM<a
zrdKtYicB}J!N9nxtsaLC633coyK2b@bNHzVJ3({R4dpf1KZZSDW)mr5AM91BPdgHo
zmRBMmyiljQG(ncivmi~CIatE|xP|1a({JgRwr+GQ-eR^aMQn=Xd4wS*8D~VpUei<w
zMzz#pHN(uDP?1rF+SCIHsd+}X&TDUIuIXK-QLQj`m!})4#=_TNYYAQ<^Hij~sWprL
z3E-OcdX=)dA|uOkVvDsoYc8x&J;{vCICPR;l?h*oB11IN(OIZ5B0Dl8iN2Ue6ZLv2
zMM)Nmel*)e2oy_<$3Z1#nxQ7|=xHCwwQXIINRSXoh{W?c#m34!9ER1E_tofB35yv;
zdp26EL(*9YCyPyF;c%i4u8K~e?OKKsZz-v1oJUNsYm1SQCsxe-`lf0w$P6gD890LK
zi-u(De(#3?(^bvRs$D1#y1!|&UC1-pXcS3EqwT_SlC4JN?2cCB&78YXavuH?-46Z=
zo0@SrHYZ0IaMrSN^5P6mZN$5~qfG4w@eoPbwF;9G<=fX_abFsiF{-Aid1=-b-h{U&
zlWP#KLdcM2bTiIaV;7XvC7ozwLv^#4q^fNMlFR$jy=X6c>;$GgiAYI2am7*x9WDwb
z9%BxZcOj2kI_Z7C<%923?zram)`d7xQ?tkvA8%4K)pb&-Fi$(4^g({?{FbH$%qBR>
z-3jfD3AHx{K_bqtI_)6|kU3d}z-_m-(5QKcYa2}jhq89(QP1W!8z}D9QkrF&w3`)&
zjc&DEpQ^UT99;WuRUOXTk+mk>;%J<8W?S5u+V<2G6JBf_N;e&vCNMkObIInZmj1JL
zrMXKGMAx`m9(ub28!tliofGa=%uez#FD%f1&1xkM9MQSjuD2BPdViQDenzHy27TT5
zJ+X9GoC&}w-YGbRScBUP=y;Ot*gL04#9fu{5)UX4hS0VUYbA8t5jTqPX5T&sb!huu
z-k1SfR1Ksytn{FHxph?T<m>02w{Ra`-#N?fQQnlBHhRUt&aHTg-u<mKWIDAuxd;XE
z7or+|AJVhz_T`WAH|&?><%oUR*h`tlK_-f5XEcX5w1{^fo1K)yGDy?X^2*5T9KLVG
zytae)cg`<O7(0`MbL)l@cZra4=2y4Zx5?oq^RlSBe4~&L@hq;msHT9hmetA@j0+U9
z)wQ*F1KQd&zq~6^`LuN9jO=tfPw82Upr3k_*IjMhe3{0!ZfZETrn<Sh2B#g3uj!85
z4bR;&))7!QGL#mhrq*!z{3r$K<$A<|2Tb1b0t@Fmif~I289VOjG2?kR#f5d~hEP=j
zKBs3gMQl0b4>_p|(Tz$OyznZ?mRAx)cdKOZMi!z^%2rLJXoN1uvOS|a4fLci?oZ<k
zXH$o0f1}%Qj07V|n=C<TX_ihJxc&6CSe(JEsXEqG={g-;8K81cM<r(fiu(A(3-q2l
z>2CVJIhPz8^cVMFAc<v3F240##N9fNC@HCLx)i4t`PBoWL2gL&|J_=s>mXHaxl1Sp
zPrZuC&Z{6zZ{rhl&y$V5cXMsVF3K&1{Wdf^54U@&Q!D$Upf7WQQePC4siB>?G|?X`
zT~=Pz_d&@$=mt_q$!L4ES+yL~FF&VG(&Kf4z5R)Adct)g)?#<(<kYMzrkknU7)EY&
zy1B8eZ_6^)++`64ouVffXTg&qfWQ??)ipU>$%j=XbAqdPS7_0_D>QJ>+nThis!+!+
zC(1}y7jHSA+6SAWL5!AyN=j{|XgSDSSC)Z)8WrB~g?_L{RIWyC3R3on49bJ5E4b<!
zu|n2>cZgkG%|-4uewUNAy}tBG1f5v9gB9Y=jOI3ai^Ab@aziC9PBb&_zP#e?{WLJV
zI1%>|n4`e|>4GsY-XjHvlc?SfobWlA$JDhpH_1gU|6!Gdv&7y?P8Mj^hcnX~WM0}^
z9z2PoWsyq0JgWEZ3v)I|VJAFhw_xwNI5DIv^|l)5-c=@`=Id@z8+r#}FGlMFw<&an
zGAlQ0^<vJCu|$>?!n;7jz0lp=1=?fElH#;w3HUiT5T#A-$2Q<XF1PC(!y6P6os-!4
zd}Cr_(!kRan$BQuqUI#sPFjr{TbRS08&GGa!7YpRXu*f9%T8l?c>$5_$hg#e9YWoF
zOlNaTYI4n3j!2nRVU(r2*v!ld!Qja3bWE!Px(m2E%dZw-#%(nV1!>9gf}Z?^WeS@b
zS@neilXGa_6jI-m%3CaC>CHPe>~5~=y^~eXjCoRwNwTT<M4Hg+=2J`9X_e`5U1au$
zM$I<R-LmH9#$8eaTo;Gi^mzV@er~!sH+gkAUGTU|%80KY;08p*qTvEUtX|RiJ_%^+
zpCVwCm=^~O`*3xjWNfq_^1?_;K3>+a*$}$)s1GGw60*U;VWw}E#HX7f8|)$raD54l
zGL_+?+#U)P<MVqv3hddab&ti(vAOzxAQZ-~!?v_dc$nzm?(cbBo!RA`gtXd~u|0l_
zOr!fW!_45WRqQ!Td%;C9yxC=Kf_FQ|rbVjW#tWE5;{GcC{nER2p3Xb@ymMIgnoft|
zQUXNoLN{2ybh?2$Y!igp`>3U^${d$oCcm#vzZSbIZW!=f4bY-{r0+*=_=bISQ5B_G
zUJLNt@V%$z-nu5EF?3-0&rW*xh-ORedmQW#$CiJ+3WQzyt=+ENOm|a*JtDqVC)LE%
zf>v<x3M2J`@v1Vjml~;Qi&Z<lm_hHe(@QqqagVDhoF%&%P9OZVU21b{NpKCjf*%@X
z3eLUoL`7QDuHP;0E<B~hPufqii&qmz@}4r8PVd$M2&O{|Y|cb5BdX1D_)oSoSxqqL
zCfj=c4H~-UfVS#mU4JKj*@DzY?ntk}m1gBlU$(k^3C|C(Qiu1{sqe-4MV`GS-x)&M
z)ESX+6}B(Q^ckMKR9@?0N*@i~-4r@D2W>F31WYS<OvVdZyJdv0@78-p`0dS-@&>%N
zz{~>EMlOuvm~Ivj#)ea6v-=X9XhK%K2-i~JEDP=w4kyX(7eFF&JhY{G|A;`|2<m-t
z8J&L8`(nuop>g%=sNT#oqrAdiNwvq!o!|GHLklu#PMtAz*VnwI#3#&pwoF#6jJU6}
zWRBD9ED<`zn_xRjj!pEOOCpWRvIUH%8zG=_*cR_ggQ3I<@K(H6C5+J}U=@bnV4InE
z33s*Fuf&i^WDw2MRGJNf4Jwq4ZgcK-OG3mtm0{>6!~B(c*ElMPnu`_Cl^^Ivm)-_}
zua>tp^y-Ly#)!8^Bo!W!TCWeJsx3lI#x6=58Llh124$s11q6S1Bq)T<3$-Wb67@>F
zpuj(eK}#qmjoUBgrAU)v{I<o6HoM;}<ymH6BjKHQkdZqt7`nltPt!U#YS7q;S7%Uv
zPhK3-P+_;i?kO3@LI$;uc@Jr#WF*AUyCBkj?F4T)Ju#sTpOshK?L#|4jNVSmaTv7$
z7s=B7j?VCQcA8(>#WWu=!mj%LAMAXkSHhU08+W!x`iq{XU@z`2n7{5xbC*j4_?LWo
zRTZ~Wz|%=o;J(M3DSQpOXGEcO<yu_4%X0vBAMy9@vUddCd3R1qFv!UkYP`0=#kf2V
z+Ec41kv+A0u3cK{7A$OQXtLVaLwylZ1uq|UHD|QryJz^JsFHp!fae=&zjwArbX-bf
zsyWigYf^}@aIG{iN7?am52>7A(bwnZM;gET--IhE_x&au;;r4X3f0iCM^_c`i=<iZ
zB)+&urWU)U?#;57au3-^q+5D?_8t<AgH>7RrP15hI{1Mc&j`Ic+YO5n9ydj$st7rC
z-JthDEham5p^E0zn2que2AS=e=2a)gIZJ|RPH&@TcQln>64#_`+}IV&^^U?&Ney+F
zj`l@lS7EIax`+&pDzQVuTvt*usunj0nP1T0dzEOKkjY}DUCbqR6=7e*lC=VMz~R!|
zuIF!Gha}DfMV4PvRIv-SjRj}>OJ}>t{xH7N&*IRJP*bPJTpu19V>{Y-*Q+pb)N7PE
z>ZRAOcdr5)>N4inh{FDmX1%+x$>2->6E6thA>oqt)C&T7HA9EWxT+8%y2VAW^_#sb
zvaqjC3`J-bSIWBh2>f77$`XB7d+N+0X$G3GD{%go1+->3O4c(;c`3_zsjIELLr5*%
z^=2usyWz^aimaDKsiWE@M7YyQ+*iBnMPANo`CmDh?$|}wQ^Ua_l^e7hU6d{D=~{O8
z-c_4U=oR%#jpq6u_WJHw+3wt(|LC5R4Msywjk)+jajI6$?w&42-Hbhvm#*_@!=)~S
zW2LdS$@ZU~?UUP66Mq_(8}|HaFD^~M*4z1QJq%QL$5L*@2_wS8(&8@rdGGjI=`LJ`
z#UjH8U>TP7K-0nkPkv;;-XlvKyv+eOFydW$JAM*tCzetdduD2Td@Yp@r^{x6Zr3pP
z)O?uip}Ae`!J|kMAa}pWgU<88T1L|o!=9}JPES)ow!BZj41-;#bmXoiYnB!9{$-kb
zrQ8!`dRELZceHybSz6b7*~WOUOiwp6QY>gsUBXiB>9+_>9n)^Wi6n%l<sz`Ar+v!N
zx2Zd|MTZtA%=ue67mKZXa%NOEO7Z0cExCEs_0{+-%Xyx~6uPCgibKgTCfUuiBeUIP
zmoBM958y<O&g{hULgf8I$`+wMu+F6HB%*yAb~?@{Z2G`gmS@5l!Z@DM^FbWmwvpW6
z)Q3_svExx@D$jO3(T-l_kx&yyfoWn#!;jscg-M#Z(q~?EZMM3lrFv<Weo)vP38PUM
z{IDRPXzH<4VdvAm*?<w9{LpzFJAcA@2iqTtN`}3Co~`MfGh7<#jM*k14U&ZwOp@K^
z9-a-+))Bn28{LARR>h@q)ipJ^q$O*&kY(Gd7i6F?lczi}F%37BaC`5XLLv>QCY=a(
zd4Z_Q_9jOiYx7+kmVO{&$5I<RPNgA1mLPHYqL^vYSwLy=)&HIH|9m@O!kIwTJG&8s
zt_ij$dv<0IDO?eq-JrW4Gjt&Uj6D6cK`8R1X55vX!OpMpbMRI6+@VT4DMq-(`9IVw
zF)um6-fh*RK<7UZbiwsU!lqqsnO&TLnWRsUP*AiB-v{{D>%&DN7!-z=nk7q0N=i!I
z73X!03;ai`!dEx6bgp+RTZia&5z=CP-`=&*!lWIPux=Jc1lf|lG3+uXNFDhS<BQp`
z48h#OXLl=v(J?pFx?Y--^|Y?X5#BBx4IcVDFstRs^cA?CNZo@aI9`+0ohvew_F^W2
zSlqS0{6txG-*$9{E65awRl=)IH$kBmGg|$w<V3)skALm#U_*D_+refRE-z`eJ3DxU
z*C6h?U5LAKjK%)J55O234)qlc#Tg9vH00w#SZg3=XrGQ{03O>ZMr6-l-dLMkl5J~m
zuFsX9Gpp5%`k5-)8c2Wf@dUl((znG2ibb5Bc8h>G4}z7%a^ihXAJ1^|dD;=Iifpc)
z@7^h&g@7ocL<)+e2Tr$J<lR`_w}QJEsu5(m-p<X%%cTo*_072!u4|u4glSACKLn1E
zE=83+2krp2LiXV%GrMT-FD;eRuh7CQoy*yEtL1U-Gh`kdzfIiY^4m~UOACcR#HLaG
z%a$6K%T9HE_lx10F8rl-jgFpJUx&+`B2XEop!m%%#c}METw66CF;L)`^KrTa1^`07
z;-k5}C6`@X*V5KrO|RK)ZQRfPgwU9ZrUkfZd;u46-c+oHQ5aS|uWoS(y-jVc%huFa
zWA;lw#)U<!`Atk%Wd_lNA_doqbfnYfU5wu_tH3YTYZfsD3$;?DATgCiQT*<?=BX7a
zgrk)r1&S&%T6J3N=%U_A-51P==ENj4ySSlCtwma)q=aw5cRvj^L!^teOL<8tQ{lp8
zYAb5ds$|9(Q4j<J@jpE$;QyoYg5bUP&2tf>N&HJ5{CUCq;qw^9=YJG_oWlR2_<UU9
z{qdb1l4q#G5BK21J@`Zqeuctyx!XK=CZEM&c{F{q;8fp}k=N?&YK80ieqQk@RrEjh
z;CTh6T;e}U(H|i==|}VVqz7N2_?)8n+@f$T=Z_VBnxg-k!nHiZNI*RFak`@KRQLpi
z7xiayrq|_8Q+SD@KTmL~?<9rapy)FS|FXi*QuuciK2G6JD*SAPzp3zYg}<lpPbmD*
zy~27;R``huuTc0Hh3j&23LmNH>jjVN;Za4e_4b5^ev6_%SMlGj@aYPFU*VemkPn6R
z)%3?HT+^Sba7{l);kq4L6|UQHrNVVPeoo<9pWjos*3Txv<NDlxKv*v=&#?;E@{}oj
zrqbISg=;w%DqPEXt>AHa)+&14AJ-{d^M6+1+TMPlaNX~2`fym^IZFP!6n>Gy*DE}$
z@K-$eI|`qx=>Ms3t%vs&uIU%=oi67Jg=;x)R=Ae)aS#4;h3j&ErEo3h?-Z`-FW4tt
z&V>rsaxPK0mh;OV{85GLa-USVmh%~fYx;K;UaQ*W=zT-^wY`-pT>Jk;3O`lx`KrRT
zpWLKy?I-`OaP1!k?-$CmQ1L%m;aZ<F6|U{MTH#vHjS8<*{I6E{#R^}g@I?y$vcfh0
zM-{I1|D?iod;MJDn!f-3p&qn;4)Wk73U5$y&QQ4ahZhQd0*Yx;^mizFJs#cdq5p%T
zZ&Q5UQTP~z|HH%QbO}u3@|-6)g%{dB=P6wK!)p|NsVet#3fKPd5rto-=wDU%84B+|
zC~TL@6+TSintrCjuT=C`DO}g<CWY&Mw@Kle|0@dDam(Koex54#r~^XzHJ|Yc*Y<X<
z!mm+$Rw`Wcxl`e~pRQN<3dQFcg=_k^6t4UA-xRL<-4O?d_0sqVh0j&xj#s$uk7p=c
z)6ZA9uJ82<zfST0w!#|~{+Qro=PMN+d?b{=L*WAzewD(HRrq3spR90QuQ>|W^3)0*
zmuH=#zd`Z;j>5G(&nsNZ^RmLVJbx8DUhcjJg?i9@PE`13lsu;?T=(lXh3odZTj4h;
zK2It9a|-{p!f#giUlo3f!Ur52%CG5<QTVNjewe~PukbS!zDD5}D*OuyU!-symtLxH
zE$592*LMDl!nNMsR=C#NK8J+$)p|QY;kPR}Cn#K(`zeL%a&J}m9g5Gl6n>||Usm`R
z75=)ywI2RY;aZ-dhlcgi@>DBa^IxfOP5*?#zpUhWTj84ixWQq$ntqDHb^o0qIQ64@
z6#v^5{k;nRn!<Je{l3C=zk5#My8r$`@OZiZR`i<BQHO=~`l^!WWQFVgTc>cXpIa5K
z?eGzWKcM*kx59Nl`m@5nuIL9G9?Cga;lmZK<(a4OhZKFM!gYJyBsl5q8;brHie9(Z
z8w%I$^?wT2dLD2@D8Fv6;{=bFd#a+>d}b^BVI^mS!gYJCQ@Ga8R)y>K3XTlr{Ep&(
zw8C|}j8(Yyt5X%O`*pR#HT~rZzg3mHLgCsE->z_NKMyNh`{7Lr*M4}j!nK@#P`I|Y
zAs-F(qxE^J!nHsAq{6j7yjbB{&TAE}<y@=q?<)P=uW&8@lM2`J|4ZRo{-H;O_0slG
zrf_W!3ly&HVY$Nf_;Q=VwLFh0T+8!@!gYNI939H3=S>3zr+)N3rJr*Z{YZt+^3dO|
z=$};d_bPmh!oTj}Q&1SnspsPp6#fatXSTwhR`_y-Kd$i4D15rYKd<m-75-I)|4`wN
zEBrZy|4`xDU;S0#TAsWi0Y5Y!)be~-;m<4nM<`s&Q><_;&v=DvdFmCe<+)PfFXV;q
z1y(CumwS)Gb-C*muFL(E!gaZSQuyY)u-v?&P(QldLlmyd9inhu?nJ@kc7B1PKTVZ8
zU*Y2vex1T~xt~|K9!DNk_)Ch<7KQ&z;YS@4*7s$Fk5u>^g`c7DtitDe@GBLr{mFF-
z*Lv$zxTb$e;lEJjzNK(2=id~r<vjA(u)Z1}sc>EHsS4L}PEfd}U!m|{Dmm9H{C^bw
zio$=b@PWsLa{fl)rz`w-3SXpfZC9%mK1$JlQ{mb_e^+p_+utktcRlp~^3Wgou~7ay
z6rbS=*W=Dag=_nts&K9UPbplF7uN_Lm;VQf{%s}CW`*nV;$;t?lRh5SOOF?e6#fat
z|2l<lSNK;1kIVU}qSx*Cw8FK1URU@#ivQmguKmMNLqqxhs_4&9xQ^?}6#jWde}Tev
zT-T)VzbX356t3Ix5rywi^gmPhoeF<X;r~?lQOAe%`hvnwRk)6qW+`09Zw(6nm*TTT
z;adI;3fFP+n+n(Q-oe!1c>3Xg-M%L&T=&zd3O_^1Q=@R*zphmHzZLyw6|Vc;Hx#b@
zzy`tTV?cg5KK@M6@1^i}75-s`|3l$>D}0|}qy?h~9hV-f@O>10vBI_ek5{;Emx~py
z{lg`K$Ln>2qSy8Mj>7j>@@!VPmh)AGYdQa*a4qM+6GJ`htN0fwT>F#L6n=oBpQZ2v
z72crmk0^YJ!nHj2C|vuu%?j6g_&<efIR~E<)=SGdLg8A@a|MsL%R)u3`^yrAYyGcK
zxYqyO3fFr0w!*ca+-G<w|KqA3O;z~eN}qETzERPCQQ?Ov`ui3B--`Y*h3k0lw;uc-
z3fFN+-pQf-x_$RjxTddBxb`!x3fKMj5ryk^c|qaYj}0si<@u=6!w`jUQhK;c;abn@
z6t4C5CxsU({=-Yca<!aiDO}5Wp~7{$w<=uAf33oQpydCo!gV`-RpFY?4-~HF9j_}~
zw^zT?uwL44?;|+%qavk;DT-eE!x<j>&nx<mDL!9TxQ>^;>f!UgqSyZ9v=O2F+HcHK
z_z9}qD;54%rRS9jKT*-&rf?mfJfv_PpFFB?-CzEya9!?UBSZOzt8#}aT$g)>!gaZm
z6|T!&tZ-fKGKCkba&J<&F84l#>vF%Ta9!@}3fJZSL*b>W+<iucdeG$-DqNR4OyRoR
zDT2rCwpP*W{@bi@?dMl3T$lSLg=;^*N#Ubay?(3kQ40U?=&-&TKV0G3f1aXnZJ!ki
z*Ltf__&8PWbqXJ^@C^#r^88TYTAqS2q5Rrz4_3IA=PZSvrpjHc@G%O%L*b_@{6`Ac
z^8A0*eG6bz)z$TYsHmu@Xi=#KwHOs+5&{H84M-$`0Fj`gMJFK{NH8yx2?j;QH!51H
z*iws%iZ&`$s?^d-ZG59uOIzBHwrHuJZE1a!T5YMt_TT%SeP-62*(Wm>;iLam=CNk4
zz4qDX-1EA3Chq}02JAlr9OD^WoQ!`g*k1_vIKZz0{A|Eq0K5$F4*{P5_`p#~-3q`b
z0gidN2yi@)nmzb+fMXu+0vz+u1^Dq0&vyaG_Wzm({~h2szWfPrJWoFZ9PLjyHJKmG
z!zjQ{fPQ--;8P&}4!}<W`-cHX|LXxi2mI`LS~8w0!1Dk{KWBLG>4KAs$bR&%)wqq^
z1or2G|L+5i{nhJ$4~KFcFgh9M#eg3HIL0{~@bf`82KYtbrxWn$V1GT}cwg3Hz;S=<
z9>5#G|C4~D{W`$W|8D`u_VY);vAt~v9PNjkp3EEO=XAg^KVJs?Lde5xz_DCyg7bLv
zWw5^z>}LS}6yR8oKSmtv-vc}fc%L(p<*Ej}0Pq^X#{-V`7XW?^)Yr9u&jdfq0Ivo7
zDZuf1!83r@f&CkRV}JD);MgAeoS7^y;zt6G^?oei*iLc*NBaqY<2?Bs!MT2CLHu`u
zJ<gNw_SnA#_H)3`7Qk_y{1=a((voBzaGrb};5bjd7w~4#eMWG%Tt5SQ?3dmK9OqI0
z1|0Xn4jdB+4&J}QdDPi}w?RDZfS2@2?jzj-IL6ZjcpUuv9B|yn`z_$uK0ox}dyh@V
z-_$D^PXXZQ|8&67|9OC4);sCvYQWLYt$?GSF2Lu3pHt3C#)<v;d4iK^Fdo_O(bRbC
zF9ZAv@P8NJ^8vpfa6BKs?ZKY|9Q*%Yc<}!Kj{XOXOO_Y$0>IIKnFp^19Q%QKz_H(G
z0vzq%1RV4BTfng%KLNZR+STCFWVx^&PX-*zbt>RE9!&y#4*0(SaLijX;28gPfTQj=
z0mnQ%2sq~Ldw`?;KLE%4^glb9hpV8yO#~e6>j7T?_CEw1%e4XUtHJ&Qz%f6EjZemd
z_{o4{xrPIdc{mktw7(K?EZ1FtV;(jGem%s0NLez@8v#EPaO^+N2OQ^_w*rp+-uD5=
zdC?1klVs4(d?w#>eA8pU*@OR4aCaW{5!mBAYEpT!ym-EJdhnY7zZLTH4Zv~U`w-w*
z@81C&&x>aPNBh?RNBgaSqy3%}lI24Cg8@hT;{iweGXcl;HXd+npA~?k{e6IAo*xJN
zHpu4>0LM6A1{~vjA8@qqHBryQ;ecbDg8|2K4FMeOCj)*v#9s~gO@KE8UIP8<Er6q+
zWq_lfCj>u{inkE_{{Zaqy#5E+-wgJ>E0Xy^`(nVq3icBKzXR}#0LOl^0dTax0&ujy
z1Mm*;e=p!zzmIzGX8^ww{JaAA62RXE{4T)%1vu*VpOnlS;>QDy?c@}|v0a@7INDz&
zIM?qj5YNqEkM;FD*e?S6H$3(Snec<_!ULck4hH-%z~wSaVE+ZcbHF|Vx&r~<!-Mw*
zT)OAL|5CtbgCEQf>S8}|64-we{K#@J@Q?U3k9|AfsEhuWdHf@e{t@^2{}Sll3;t!>
zDTx0*z-`_L3dYSo!mk8B%fWsI;D<szUIqC5V1FmzcLRPe;MkrqKM#OC<{xp)58}T3
zp#KLw{t-w2i2MBW`Njw5@geXp!)$<m3-EITYh&LFaBTmN0xr|Tz|UiVSAn000UreT
zO2CJCaE$ZYV1K^H{x-lL2YcB*4B~tO@D8wF1^7*XV|kwe{5xR3H?=)JIM0~Rv4Erh
zX@H~uM!+#YR|Ebe=-vbPQ-Je#0r=o}Rs+uW%JRYZcLDzm;26(=WWxvBWBu}+lMlDN
zU4Uc!F9VMLHv;}Ny|(M|KLh?fz_$aA<vn1JWIR~jL4dCTKVty@KHv?2WBmC06+Zy`
z6=09$`X%7#=TpF+0Y7JQBI)2KU;n%o?6Lnr9Qy~vef`6+fvVB{A^69B=~=*07je`@
z+^38Ff8_CxIQmE2=O6o%Zt#B=l=nHnF9iH~z~=z|0^oB2e-ZFSfWHLzD!}<%u<iVL
zz+VCU7l5w={6oRHUq6D*S?lMYVE-!E?*r#G#yJ>pY;V{<W1MoEOwc}G1OGTK{MduP
z4!B$%4E*qK(b)L0KgW2EgmS$J_QwPMbHK4Z`~vVB!2XwjF9rO60Dl_rp920o;M{lF
z_%{OnE5QE-_^$!~58xXBKg3fn6Ttp0u$RlcK|ZmcnFsc7gZ=Fu{CU8!AA1Mz--4gx
zBu;{Yd74}<4}P17Dcp~32K#a-*Y5zY0~~ev+6N!(2X*;7BYZH9_HP0H4*2JLmHBY(
z58=QC$8l{k;5d%+xo_?N7yNTwTO8y0BJ}g<zZh`ze>&jrg8y>Be-HRHz;V86=g)3=
z@w~uzjxpf}`N8=Tp6`DEU7YXXc`COl1%A*T+b!A;1zl_pqXEZ!RssG;h$jX(*2{dr
zG0)ckj(Ns;Bjy?V2h20(XA8vR%g<oY{S(;ddvMtX4)XbDu*W>3t}oB1`yTi~UBprM
zeXz&%@&|w)2Jz#%dkElIk8)d3+W9yK>^}tmIL@LU?9UND7W`}lKLY{(s|WuGa2$93
z1~`s89|Ml#<|lw-JNY}{xc=P+IIeg83HWq~|5Ly(1^i!tUkNzRne8}rC*Yp}j_aC#
z1O9Wc{}15*3wVV3BI|!&=x-7C%{NW}`;_wwaO^kiIK%xL<{9U2h+hqH4kVv8P8<i(
z{u^MA*NJ`zINHAsIRA#8_5VA-djtLf;Cld$=XD>zedl#pdu*S3g8yS7p1lCa^99$f
zIbgpx*yDN87jW!na2_I;@q>N<=Pk3rKh`^rU;BW6tY7ql^^5pJ;D2B6gY6&f-vE1z
z|F<3-=iwMXmUlnU{Sx@;2Y8VOp9J{+V2}Otfq)+i_6Gru?dM>?$ACTJQvg2%>}voY
z0Qj+hAL_vm103T)9OFS8<M{&k!FUD&J`CbH9B^ER{s#ItT<0DE_UC{f#Opjb&cm@i
zd=c#VH#Tj*f%78XyRbNp%RINVIOYxeXJ5a8{lHP+=U9m6Xut;pj{P3SIT-A*f5veQ
z<HvCg*Y!BAHGuB1;2-PpOMqiPGX(H);0N=3G2q98J@zxXfL{gnCjfpY;JDs@3UKuE
zQ@~FIKYs=MB*6FTWj^5X4t04f<AZV3Ee3oj_~Col_+Wd)xlQun;vImW41VqaJP&Z(
zhr~Fa1bd8=e{;a<o&tW}103^%`;ZvVDRj<SKbW_1fMYxt0FLp@103s%ukl&`i1V0e
zag3AqG%TJE<>I{pi(@=Ix3@UP!{>s<F+Y4RSR8f70gm~p0UYylE#T<qUcj-x!hWNG
zY;6BC*@P3cpF+TK-j05-zbXQIUw>u$VNS<>^siF%CW7v8@N)&=BLKe(@R5K&0XVPC
zZMj|p9Q(b0dGH))w>Zx{1#t9pD&RQJtO9%##1jMjRKTwQ{4~J%x3Ku&^BVm;1UUM6
z25|JV1@O_}e<ZX|tY4f5;(T~?5RHk4_d0BzD*!(O@M^%(Kh8@_z#jL(@V?5Uz|R=4
z$Mxx0!0W*NEWoi{VLVt~J_l{Na6VQFIF4Uu1CHey@4?Fe$9YRR;CP<md~ZCIYXaC~
zekKBr`N6#5dKUAB>)8tMgY(r%fMfiVJ@^#BF+Y`nqb~MKI6uUGbq?g=9Pl$AaO`jI
z1{~*CPXdnZ0ppws{s)6S_5(PNssej#SLXtb?HuP<xbKAXt8+mY=U2^up9lVr1^j%#
zab7na@B*;M{NO%@FF#mcm<OEqV!z>=zoDO2hzINa2Eei2asGz&j`KGx*Gu5%Lde4=
z!14OgKLGzS*zXVhD$b+62sq9Y3IWG*O#&SK&jlREcbvarz2rcg7eSm@?}#4>_7{Ua
z;!(h{J>zwpQQ)T<?6Kd#IOS^}!MKL)p$hz9-ev-xO*^?4?0N2F`*W;!Y!7dNJ;sUa
zky`MB`v7%-&-VCf2Yer}$9)g<gZmzcKLmdE1wYRKj`q0kf$`(M2jaec4;(LWzK8u4
z<_*`yI6uMu0ddS{49bQ1p9MJ1GiL*i^GS@e7V?8}VtdB%5y$;{@IMv&;B|@^;CNjI
z$0@u{f%EF$(;UpU&uhRB?xW&3*Z}e1x_b`bP2dOrj>a&+F9CZT#~VF(6X3Xig4Zu_
zy^ndu_JH#rY!8TIJk6ksIMx^TCoN!K3+2W7!u(@>;rtNm>n8An^>qi}SYJ4Q!+8SE
zD=vjNaeQn8d^-5Y^$7MeIDf!>Dx5#u3Vv|@a1Y>kedGziG0vX=j=FCHj=CQJj=Fr$
z10TGu!E)g`3;mx4_UIqS&34G!1z?Z5{GAj&ST_##{F_dEFn&0_w&x@Nb}k=`WBb8%
z7S5x70`}PcHvo?9YBS*2uKocy`uPvw*xveh)^T{=Vg2HHhxKdM<y_tl$Pcz>v>(sO
zp@Z$`f<5jJ;5du@HkK=gozTI4I>C=`-h$`RJh0DUCv>o%%K^uJ{tCd+KjNi<7vl$U
zygoG_{2T}N*q-q^>9bUKwp~pIdu(qP0FL#G{oa+Ji}+Q5<9Z7FNi5gZV2}Oz0>H69
zzXouex8Qk!{UP?NUx#vG`+pE{Z2yk~j(NcLgTIsG!*jt8)(egoyoYA%1@F7)hWe@j
zKUiOlfMc9>fM>J+5O#b=|2V#%0=j>JdBqtX9Ov8DK^}0vhx;(t-mqO^KCxZZf-bg`
zT|NF{zlZxU*zX~pO*^?B^0TwrN!WV#&FhYZJl_a$V!w^w2f^|pj{6c=?}NcV-cL9N
zaGdAN0vyk~4#3fV0pPfgdOP6Qo}UIB<Hvsf7RbYwz<v?nCj)*P;KhJrJXr7e`vy23
z-41>b|B44+40vDBrLHIPRl@DjUtTc&FMg22`e&$B<^cRr4nNSr_zi%g|2sVX`S()n
zf&PoYPmUO{=~Tec|D7KH_MSa<f&K@ApB(;>4)%XE;OKve$Nxv3`2PlY4m+oVq0azE
z|95%(zXtXg|IYx=Vdr!(^bX+Y|7#xqtHB=qe;4o^c1{OF^8iQxU-$Tb1nklOqk!kI
zb2@tRztrRZE8qwHF9tj(@ZPikZ+QG)27b_gC*axmzuV)#0{o!=>42mETEH>?-vs|?
zzYK7+zXxzU-|d=+Q-<;6dvxu!Kek6d{P$Jufqv{g!1gnKX4Cs99?Qo#mwV#G@>*X#
z`MG~5`FUU``FU_B`B|}({5<6GgXcvyd46~&`T5pP^3&z<6Sn<464KA3WUsa7$G{Kf
zbEU`r+hC99(c^$;<L3#mM?b3oM?b#!zZ25_NsoOQ^ba{A%tJ4lmjKRdY<pD83%1|W
zg7myVUNgRzyymCn@|tn}XOC`qVexVDezSwyb!N~}(P!3vwb<oISuFmp;3W=j`}ArD
zx8JW@;Nbk*h<q$}@ackgJNQDuH#<0gM=m(znV<MyUrBb3gHI5=#KC#5mXB%&w`0r#
z2M;zz$bPwl7fNMzJ9xd|n;raV!S@q={@DKQY>p=faQ<wBGzz|^!v|w~2d~US1>pSI
z>tfH>O!=_(2bs6Q-krtyv$4{+?3|D>{&&0Jc5JnN1~ZwC7r{S&wp@aG18|1yeVkhX
zXZto882<@4+n-JU_!uC0Vq5;VO6-dqe6!%w9Q;$k;|_lCKI}abS>oVB1-}Pyj>qng
ztOcCo>Ax>~p?l8&XZz^^8i~9MINN_L_8$Pw_OrykpVXTz@5cSi2SXivyWkZLUe?dp
zp9?tqkBk3Sz**x)v7ZMx+joln62RI1O|icRaJHW>_G<xW`*-&@A8dB;(FX`Y+LtZw
z<$~up_{)NibMT=D8b6Z&=Xky%?&|?(jX7e!(82E(yvxC#6?~n8_mhEei-XS)ye|hq
zhb>o^;JFUoTTaL_2cIGMIe_!aI|Hw@Rt20jCLe4*SnS|;2>uPg`Q^jnXD#6D=hQ>Y
z2QLB6FV~3u7Qos59kK5#=b0_<fB}Y(>)_)AuW<0ChZ_4v2QNF!;ENo*&le27(!uKm
zf8D{?3I4u=50#0-CxCMiUo-9_1EoK(<=P<j#SXsL;f65X!AA(*>EH((VeFSW_#DCS
z2b|;CB=NimILCCb+-UHwgO3xukMuV-{<z?|4*rpBbd@>yI@t)UcktzM!_-0t-zs>Q
zgXbM>3b4+>FBklM2j49CCxCMvK9oH4m;TR|>!=*_!Qp_j{YPS71UPeM<(Lmn2b}Hy
zZs5oaz}bFdj`<)4INRI%lCKAx?I*|pc^lwt&%eFG$4bE2{#mjAF5qlGMC>;J&i47o
z&;uQB0nYX##C{v#Y~L*Q1Ev3FjQ`y$c(H?b3qIY!-xa(DaMrc=aV`Ly{oj2oJ<xG8
z;B3!({d{x*&i0kZ1#o1YgD(<%i-SKccwZT3*a!dHEO@SiAND2Vzs$kQ1h04Sy9Hn9
z;2Q=1D&Sl$`+F9v0Oxq74>7vy9ejo0A3ONI#~b_40B8U9d%^={JhbI46Z^q{v%S4u
zYsXt_zgX-`9eew`8`Xd_=S{I+;Nbrj{AR#ex7F4!;Oys?Tza5mor7-@{HK7kp9SJ)
zE8y&B;R)=8=3g>C+j4aap6}ov30~>oBTh7aS^<}#AoyT0;L^ng_$t7qiwf}dfOAYs
z#s9AW=W^Nm&$a>1_Gh0IxQX<V`2u5X|Dfa{2XOxEBe6dLaJIL5pk;uw{k22sfsS(k
zXZx4Le<R>*|7)@D0G#b#75l}2v;7$-(*qsf0G#dL5c}1Dv;88m-{9bD1^?K==j5?>
z+H(e+{r^<_50ZHk`{sZBPoW1oMmu<8zQOH0%i6yz_<YBHo8ZeF{QUysXRU*uSZMG~
z4n9}#h|J5Z?k2(a0i4Ta_r8w<oH<7fGyYEoobCT0c_;&%?PrSpIe@eMpT)ivaJFA3
z_VWN|`%lGwDd22>p)Bz32b}Hq;}7ZR2ArX8v40hCwm(wrw*b!2sd6L0Ujb+Plf=HC
z%tQGt|LYX{p$^_9c!h(%CU~QRe<=7O2cI*7MCe%Q;EM!*-N7fzg~9h7{9(cE-&?ow
z=N23P_V2A*e5T+PGLN?S^@2A#_-leMa`2A@U+LgSjWW951)TG2zhATgaMtc8H%e@C
z@aqL1c&PDb<J=^8v4bCQnz5Vi;9nEG)4|^n{2IVH&M_=R$8x|K+E*^HcRTn^g1-tl
z`#D$qYyq61!ZYcCj=r)kVT}K^3ZCoWYXz@x@MB7dM8~;+vu>T}wgS#jbqPJtF%NLI
zuNV6zfHTxpLJxG@1323^iv1eE8TvyBJ<zey!4Df_@NEu0S@40fu3{hj?@7T&JNUt4
zjh`6~ezD;59ekDGHvrD@+iSF4fV1w6<Bb3B0M7Qe@P~A)2b`goO9MEv)xigzZSejB
z%`@BbzfQpq2b}%iBmRp4XK37bdZ1&5gRc;LzJvc+@MR7@sLc3T>)_RbZ*uTE1mEu9
z{}g;rS&wpz9RCv%|8ambblwD`doti`zfSBc0B0zFqOosu@aF_y<ly}(jQw4Jvw!~X
zF(0b|XK3=I0FG>M@H+(m7;sr41cU*yo@O8W8yCT25#Tbl4De}y%hW8u<ABT5Bfzf&
zoa5(v1o>D7xJ&^8d@bNIlm+-Ez-5RC@a=$07aQP%WF60P(nSTh{X6oE%PAY+_V36u
zE=@kbW8jD5?<M=N3jmj<6xiPkINR?j_A3CFstD{~1YC*|;O_%2F9W=v>_c#z@-o1O
z0&ee3;twhSm#v4uz7g=F1H?Qm0z3!sm4FWh{B^*O0sMWyWr-Vn+Fyd>_+<$i;Q4^d
z(lNj*0hgs<fVTpEe1MpT#enAmz6x+z>I9#z2V9mS0lpP*SwaMOe@P<8FH`>j&j(zl
z<^etmaBdI$-3&ga0WMSa0FMJMQ}X~{0=P`I1AH~$GSv?74S*L0h<W%J@L_-tkVe4e
zDgwL+@Zo?@1AGMFall6cz69`Mz*hr43h*BS&Ux!EdD{f|sbK$mz}dc7>?1kGh|6`F
zc^N$B<d`>%k2WuZ$C4cLhVj$Q%iys($Gl<u4D&L0T##elFn*?a89Xk}F>e?zF)xG1
z?i}-m@iFFQ@c3$udBZrzKU(770{B>C5<K=DY~HZ_S%41(T!#GM(+a?4Xb<pKz-0&z
z@Wp_S2mh-8mmxFwbOYe!VE-}TGGqpy4midbar`m_20#(uG6V+rG{9v@3-CDLlLN#&
zECGB9;Hv?z1bhSF=K%gO;8Ot~aIAULo1UrwF9LiT;HLx5^*dt^^WhA@&jtGhfS(8W
za=_0Ayc_W8fNuu;0>EwO%kf_bc#d?+jDH#M62NBwUI+L^fZM;%&VDWiybJ83fUg6*
z8t^TE*8tvE1_|~*6YyNXYXPqSybkb2z+-?f0(=(Ws{o%3_<F$W0pALE1K<N>Fyr{=
z0A2+6C4f%@yb<s?;7x#E2{^Ym{*DtLO95{-Q1G}0@D{+I1DyTvcZc}c1bC}~g2(NE
zUkdo3<INi`ZyVsF0dEJq8t^#a3jpr`d<Ech0e=zj%K(2D@J_({$fSYeoCo-EfL{){
z{k!dKe+A(6U_T%5g@9iPco*PT0lp6Ks{!8v_yWND%H)RQxd!lDz^?_o4Djm!uLt~k
zz!w631K?eN-w60Rz;6P43*ZX@?<<oqj{j!Ba{<2v@G`(}1-u^cMSw2^{5HV50KXmZ
zb%1{b@GXEZ2E4CK7CHW}0-g)_9e`H=ekb6KfG+`j5#V<Lz7p`S0dD_(I>+;Mz_)_^
zQo#Gmq?YZ!0eC*(cLQDt_%{J>1$-Icivhm}@YR6d3-|`W?*sf}z?TC)KqlWD|NVd$
z0sa8s(*S=E@HpTr0AC9DLx8UV{9(X10sbw(w*%e<_#jyfaQu$|J{s^x0iOZ*V}Q>G
zd?nz^0RJ}NYXN^8@J)a}0r+;nR{=ig6!V7T{|?}z0e=$k8Gt_pcnt8p3Fq(Z@o_!i
zs|^%9t^oYIfWHX%(}2GV`1b(slW*Q|{A&O|4)E^-J`V670A2_9Gk{+Y_*%eM0RBV3
zUj+PFz~2S@M}U6-IOmPO`@u)Q0`tt}>NYQf$Dx2f2Y3bG&ja2F_zQq90{lh5R|5VL
z;NJzD<FxneZUp>gu-^{&D}WCwG;g?E>i{1O_^W`=0Q@z;=L7y@z?T93I^b&oe*^GM
zfWHZNWSDuwasCAGeE{b?tdsg03ix`kuK@g~fS(IE``I9V;(-4Q?3V!kbHG;vz5(zb
z0?z*JeTtg_{{`6FO$09QF9FXfGH)3FAHYih-w1d$;J*TV0pPy|d^zC10sKY4Hv#@G
z;BNu`0pMKT?e;txZj3nox50iW;J*dD0`Sd%Hv;}Uz&ikE-2r{fhf4u}2kh4X{=a~4
z1pHmVw*mfpzz2>nZ@6540K6FRKLS1j@GXGP2mDWfF9ZC~fUgDoJ-{~u{yyN5k>(A@
z`2pZLfPV;h3E+PLyc+PWfJgG$=QYJ^X3}%K%{<rJS8cJzn!I?dGakvStBKb{@@BTT
zM*<)(dSO+(a9A|j&>pRAX>O0#G{>W{xiyU)HSt*8+(=%6N|uwW;sph@^)+qLcw0?F
zyuG}(bVOsUd3L<Mv~pr?!eR4eO_juCJtEaLR?e-8lA{)u4)h8}wKl|RW0y6w$BbxO
zM=gamyS6qO>#U8n#-kK}V=P^~FnV6BHr~<}omtZ!E1z6MVRQ~JZ>pIcE3K+2uPTU^
zmKG#z8k$-g#}$?;Wk{I#-JGQnN6Zb>bzxxyrF0@66^+hr?ugcQcJ`P)C)FdPhEY&R
zVK&r8sWKayXP4KeR|1v2HYoX+#>SS~XnjLntS!CdRq>+s%W7K7D;rCxB1grVImgk4
zS>@B)+p6LtqS2b>x@h@?;AL}5JX%gd!-Iwq?`S2<#)eB`<<ls|)L;szxiq!Rh3ab{
zXXRDHqx5M(vHi5By}e;}pc8ylS~{FtR;+YxX;FM$YpirC5vtDS#$g+1&^{#2f?-_0
z(WY3uhMUf=i+Y4VYWhftdPKBpyc0F0G;D>PRajm%jQrENGj$@pN}MuOQ=HuLsiuXG
zD5IKbjFpy7;S+E~TP(<YTWnUWE!JEc)QL&wl&T`H6FE(?^r6>Beo!9`!TGk!n$V6`
zhIBVh?h5j!%$!4KZAC+SJlh27g&z?Vz9sNR=K{I=uS)?2&P^qYelBUl-KE;=B~AR@
zWqNNz`aO1+;ThEM+Z!&Al{Tez7ny`=s!HYT!t^9M!-C<-M*aUmwc5DVv2X6wWYVWa
zr{z<(HZs{EOrDthRHZj`a&F~3%9Pd=W9OtBF*P>3p{4nAoo{n@-RZTXgOsm_scdU$
zjkU!aV(p)+#L^O5lisKfcFi!oqkSx%K@{AuCYnyrbJ&5el!yIzQDdyV-Aoy1?iMd<
zt!Zd0pU59k1(lXk1Disx{3rX4=#mgSAJy8?UQd(A+DkMII!|_K$%fCQ)1x_UV!Eqk
zhsB!fSTxa$n`6{5^5lQ&Oq$TgWHJ|Rh{xJ$Xp)_*lO3vJo;g*GO|QRQsn^<C+Tb*p
zU0lM}IHYv4f1+O)yOf5ZTAbxkR(XEi9J?%9!}Ina=e4C~V3bPYC0E$9i^l6o$z@eJ
z%`Qtz=T3`O71KFam_Mtf?XsG-x<oD0QfqeU<Pp*F9fZ>OUm46H@kIYWjzOIm?D`zQ
zd0{8t;ZvVY|6iOOkrTrvEy*&^?X?9$rMpJT>_%H6R2JaWen)+z&yYiT;`1S!8S6;9
z3BWVfD6b67v^6<#Nk6Sp<~wqVVH?j@dl;Qsbul?zV|20<L{p|rSruRuIhh@cN2j$W
zPkih}sLSec>Rc2|gVXmldL$K$3__n()6p1@*0i?rU=VU9O=+DJrLlo_ZE9$fh#YYF
z;lwE@piP9jI+~}qx6GoU++U1B9^oseMW<GcNIKvN>gP(JQ=>iRV|Z<2tfnnY+KX#z
zT5D<>;`5l4BGpq#c~8ne;P)7!9k5fhdPpiu73NbN+4dRi=+w5f&MU`}iTcv!mbRvv
z#>5yvV+2)XuopqK!fl#{3uWl;F<QNl)Wu~NK*|}KEF=ZRJA1rMQc5d=f@paqL&f}_
z7C02=xM<Z`>9dR;L)8*%1FcLAgc_=mDdPO3);kTSh0$n7b3=1OyrHI%)~0nd?zYa0
z)|97tp~%tER4UXog5czlQKvF}L7H7J8m5&58*H@urVc4{!;VF%r~MAhSkk+K<j9!5
zD%zoR?9vH+K|y27Wii^7Zt0*-acb2lr=d_vcB#H?&xx6R>{6cDQ<raN_PcaWPg1+I
zc*U2*=Fy4O)T(v7yQYwJv`3wKvh(0%R;)YJz-t?M7mC)lJpIE{m8xlkos-wJM}w{Q
z@(DYnL0j*`g+H!!O0ZMUEipMS+LcQ$nuB@U9QD?zg{I;a+qSu58wk#J0c9~iS`}-g
zo!)}>csY*`wz_!1&qD|g8Ps3X42GtSHMKFiOhT8ssQ13KBUU~kSP2&>m!+cdWL9}U
zf)=$C=qd>hM|`P6JH-O=9&$~e2lbPdlf<C411k?MB1czHXv@dj8+18`!QeuRrb&%@
zw^W2aS>SVQw}fLmP&_e%*=TZaq`9Szu5a09w<G5#O?7GKi5ehX18a>3Q%}_6qK}Kw
zMZT7K&h#Nzy}OeS4lmJOv<sodO?2%{TPe`Ag{FY1)0VoJSr{~@&0U&;nF~*TXdaZD
zwqWELLoquN^|9JZqI9{qv?;h)oZ^Abq->Uc1u(gFS1&XO6}iO<E|fLQqWP{|SJq}`
zbmH*L*-Z1Ohc1dvrKwr6--Jyab?TftVN6s?Rbeo54OTj)bL5pbmb!=eW5)TqPZX!i
z!AzNE&ZcB%@svJUfp%2LP&%JZTH#Wrl2n<|CZ2Q1h58I46MZUJno^qUk4ej50o}R~
z%(;WAt|_mWnP0k7lIN~93b_4iiw!()Gbv|PPTs47aXUCQFq^4s3r>sMHxNZhODd0=
zXDKyvE|j{oDJV|uA%az$;v!gsDITbY%<7a*-^~en3%*k!*xR9@%RO&)*X+Ta=JT~R
zJfC-0Tz2%br}XX`Mg8;iph4QT$p67e+8FoWCNp#DME~d=Ts7r|d1=tsBo<U7Ws1H-
zlhsn1i%;eAA^p}3o)egRH`1DtoyzlaH|+K|&G_i%l3?yvF|(kQ|CQP~XL^}>nEUn=
zI*lwg^mLyvY2LB;dr}^ioidfVhs;y|XT$$*IEiWfGNvQmLQ|Ex7}s47l>)gn3zCU;
zK{B<fG^$PWchj^Q%cNe`*)5a(Lc9Oo(A-X!?QtC#ZEb0%Rb9_(x2eHR6)A0IclEfK
z;1M)8rj3%ceT)Bsy61$OWS3HhM?1K5i=bWp2Ms=$CRUZfekgaB+S>YaFTiLj?$J-{
zffLKC9q54Va@>y1Da{2|ZlA+7<!4f~&0LI<^xEbA+)NWu>NltrC&q+b5M5DlcSZ7c
z1FFy-POF_#t#lS@?aHawiLe;qn_e5~4prK?Z;Ca|?3ndASNNP#J`a`UJvZpItNkhK
zfzpEf^h=9Q&CuLf_6VXi9i72yhqe^xlBBwC5NsUubPJ8PZ$P{GRnf%W0S!Zi&NP=Q
zk_wW#I!NpvI9nG@W_d!ZjKq36*evcWZ=&r&TDs6WlKm$p5W{%oSaV6t++B=I_rw-<
zO45QWSG>ZloR%J@_v%dQf|IX!C9luWy}iR>os1R0?JKq1JMY>SFV=CTp4w_jnF>SK
zne39fGPMZF9)-&yI~tVx4E+H00hGE@XLmMTEG6YTsx`u+MY}ezf-eXfwNpH<A-h@)
z>c^j*%i8#!G&sk#JsV$naKC|;o!odwanz}Dd@A>R9`2|<^~$o1OLN!Y?B%PliIc-^
z11ZJuYy_y;O(D_=Xmcy;cttQsYwGf!1gUqRl)2jv+|}p1Jw$M(@a{}0?@gGqD5!U*
z$KbTfc_1|{(U`1f{{Dw&Lm_Bl!Pf{V=>L`-g<={j5;p@T%bA!Q?a*>Fu}RH?JYW3C
z?%D{CTXKgW_IZ@{-4aeg5ygX-Re9FtZpYJ=6whQ%nWRIXu#3n2#Q8I<siD~!>73ls
zXge+Vb`9UmR9?}PUpisO7yMk?yyQ*mu6ADy*3twu9t$S<;nuW?i)@~H|8H96@>Rt;
zx@|isX3!#)hU!!bO;&g1e3(uZxd}8{TSMPffr<F;TC65+TieYY9gU*2ZfclaA8%?g
znQ_j^-Ey|jU>7XkX+rB+#U#^aZk6}+d^}a+Z<YmfTC?*<BObj|76QAaq=nqG^Zk#q
z|3Y&Cx&$9=y_jA*S<u}QA9cwz^2BEOnnyO-pUMd@ikkFOk32=4MDCIej;1C&*>}_E
zP4}9cQ_MF$JG~*b`CXC>`a*zvAJ1;eNXq%0d3e}OQ3kUvIWKu9+E;z_^;gfhoLH`8
zTm$XM)>rcCI^~m=N_<NN^>%#gQQFlw>PUCS4qh-^)b@Py!p_j~+!B+VwKg@-Qfa3p
zjc%rm(m6*{megB;&G!ZihSxRBlJ6Hs%~!Q2(zONJqD?<>of|iHBtlvA20gF6dD*?c
zgNnX0(j07W(SXn2x8deZYb5HdXrQ6Clx(}WNvI@gC)NY)lePyp8zx6RYH=yc+|QFy
zd#%I$u7NY<*_o1Q-;o&3-;qcW{J%?YQ$uOv?x<GkI&sRKJc|o<#oCjv1n?IxK$Aw)
zly76CZ26e4UZiZiCT~7VwVYe2tS5WAfy`{+mC{bU-R1Fb4)dPXaD9U<!(MrDvYV)!
z=nU~ZfmXI@)jh@F_7&M^N@=3u_OLPycHZ4u-0|bi$nJenUpp>Df8_NK_i3f|G#Ssr
zl*<E&-k106slyI#Y)kmW+)@5hcO46NU{81QPKd6xkxzaM4eF^m=I%VIB`gi@7wKWB
zEDgSXVta2m(baJyb4tyW)%x2BSukA@X2DlMDQABAwy@)ZI<mSJdyWU&yQ%xbfdjlf
zEK#Q2G`Z!mu<5^LyLBY3ka&^ln_(vhEof4^dhEa&rui1#UQiaRsWUfm^4{bQZA}K7
z{=6gc-?cl*t9;&t2$ng{2tsAwJzEbvkOx1*#lML4d3H_bdX{JZP1~mYbyB%<9cJfr
zchwCynAQ$yFrM@}qs?v#)w7he7lwM?IGm~#En42gO_SbVB;%VX`MW0t?nao51hlZR
z_f-a}iE}P!4neom(;a;2Hy{Sz*+}^!(C5Cf#C&nf{nl2>R~|mc`Yh#38ZbWYjFoO;
zza4vZ>eT5*0z!iIZ}4r89SPs;z9grsqk<)L@U;m?EkAk||EwVQXQ{uNM_-}hwFP%b
z$_4gN7m!nDzrmdpatWE1_U^tAWgva#0`o#`Q^Z+1BzGeC@;A+esU_0U^DP`ap3;ge
zajQcxC+4w{RvIJP=oj8vnxZwewe;Qj#P_m;-{zool;O~~v{NQ%{7W5nxe(+(t@HW3
zdMR?SIH9=<Z<b_T)7%53*0ycxyQzaLw1fX-+T*lemv2d3KBsm~?vCx}>R0$Sv7S1%
zao$^#cSgSu?1147UMU-2K?m`FzWtQG+TVd*snp#RNDMRF=i$v$bS~2BEciXnY=2#o
z&NQ_zp_Oj3H;oqT;1+F`{VDe$J114ny@qL9bZRe|)&cQdS>7F#<hq5I+NpgP^q{bt
zki}XXH${>H;reV)47b?MrVQ$8+dl{fmuA(zk(y{?a+J~$_tbO1ln8rgwcSt^@BCiP
zJq4X8KKGYe==a*(0i6mbza6(Dr!^02>UR^;PqbZ<Fy}-Z<L;G{D7EuM7bCwvTC-z!
zh9!3!dFoY3=k8Sesw+0R)VAJJo1<BX{US|rSf@c|r`^}IOX{4zV-tLzpTEjaQ?N|m
z{U6sljYe(y3T^oWdYOLH?B{QV$%uHXrE~)Q$BQTUO$Ux(Dy^x45O_*OjiWGH-dq>!
zv_Bj%z1;+7ex-ol1^cw_WNjGje0;9E&4TZ<4GVs4B1%8I&=hNqmrtkoQo`jdN!yr8
znM-VGK|9-_9i^UHBh9UBYs9`M$W*Z3Qy*)jU+WACzeD0wD^vNzA&)6-oJ&7}Iwxu!
zTs5f~=MFf<`t#iB$D2g;v@b_(f%`%@>2}_Joud(?GWh*=dPP6wPCwH<?L0Fo739P3
zpGv89OZ&61JsOP)e$GAkx#k}2QhwOEM@#wT>mF@JRmIxo#@Z%LnPw|aFM`-rWwIM_
zR$~L55<NS!zw6y&WW|&0&!6{bHu8MB@15Fp2F0=b3q|cc8;z`JnN7b>I@@C<t9ZBC
z?XUY!tIE1rh$m<kt`qo(e<0qelSCx&6W^31*GU#FMLeapJ=ag_r~Y`7?alR&{KU^r
zZDFp5)K4>dk@oEI;&1J?W|FPgb<uMJw|x2GdZki&Zu`PdY5Q&jDIfYXfhUIR0zdP6
z7?C__TnF%xpO5F0>i|E~JQNfJzfK<fuo(Tt4rtr%Cn~!zU^klcIhF2yl)~rT!N$CC
z=hGI?tUUVT6`h??>RZ}dn(5ne@p;j?`H?*OJuV*fBYE_vB4T;tC!c#V{q2z2OXNNM
zxr;pcA?tah%g$r<(OGRZO)>gAA8joit@xKqcIfpZb&<$H3bRD8zViGr{lS$1y&@6$
zb2N!(AHPg^{eXXH2>vuhe_#my426Gq2tK7HII#Rjgy1&{AItwSVcF)-{!L2ce-eU!
zy`um35d6go|F96{w}0~w<Nrqp{VqlS%n<sk75>B!{BDK6jj(L%?{(p0`-z9p-=OfH
z55c#8;|lZtatQtwMgRQ}eET<*P=9L({&vwv{yz!JHvfG|ix1>~O7FAfb6>{?^8ZEe
zv*qU~{C%ho&6Yn@;U5r!U###C3c(+z@DC2buM|GE|06>1rz`v~hTvB#{2?Lu^-B3q
z48iAfoewPkoDlr^ihgql{z8R+YY6@lg@0QJ{&I!?)e!uZ3V%rm{u<$9{_hIG?^g8h
z48eb0;olL0zfp;QX$byih0lFzw*Ai*h5uOyKKJ!}VE_4VdY`TSc7=a`i1PO(TRyP<
zUk<_VukgPaf<I8<FAKrXQTPvp;O8p*2Sf1l75;xHpV`)5vBHl~oo34~5k9t`Z-t1z
zLeYOT1b>>sUm1cwL--i~w?pvj75?KP_;KN5`+p(?f4;(B6@q`g@Ui^g3Bg~i=sy{P
z&wV8ysJ}V{e}%$-Dg>W%<?4So1b?l<|6U0GI)%R`1b>6Ve>wzzv%>#D2>$yD|Ctc{
zZNkU)&pFMu|B2YY_iL&#@-cCL7=qtV_^AJE2>t+t|CbQ_K??szA^68B<?jx`&sX@*
zh2W1?;(tB_f1INKLI{4P!hbOYe}=+;DFnY>;lC1s9~VBhzg{86-}#FEt0D9kD*V?%
z@Run3ABW&CSNN}o;ICBpZ-(HnQTUIA;J>Kw-wwfFuke2xg1<@ObDy4V|G7os|1Jdo
zV}<`t2)+#z+kfv6?Z2-S6z30r454rTZaeDl5kh~E=p+A6A@q+^;{S69e!jy0ehB_(
zCI0t9@W(0oJSPx1@$9?)P^s`g2*IDB@IMT}uUGh6L-6AY|F0qV3xtpD=c5q(g^K>)
zLhzR;e4axIoOt%t-*P4XPeSm!6#YIS&cD@){-+`I*DCyfhTy-b@Oe%vaN^mQzt_bO
z`>#Dilz*eb-zx<FU4{Qyi1@cE{Ouw5+ZF!5L-70VX(s-7{_Gv1{QZTG`R_$znuL{j
z_SN4Yh2J{_KUd-J5rSW&l%KDuWE=lzMSsr_`eh3Ltq}D$P2ukqLcdz!?;V2QsPOxS
z;CBii+uyz+_zM(1uSv75zlBQt`-k8!QTPXj;4fGB2Z!LVRQLyl;IC2mhlJq2sPK7B
zpKbovEBr%4@HYt`+s|Pk`0pzEUkJh9s^||4!QZCnA0C3=XRq}B`-l+ye!|E8dr%1e
zKt=z^5d0iP|BE5`Llyo}A^62g{AY#Wmni!Cgcv_66#lUx^rtKQFNNUODf}TJ_^ran
z^Y8c&{7!|R8-l+;iT{KU{6&iXz9H&wiK2f}2>s=X{?HKoE=7O85b>{8_<14pyOsD)
z3Bg~d=<}Xxw&TYJg<lYYzggiIhTy-il)qny{C}+I4-cUq+1vF0*nf`*!SAQ=M~2`J
zRQSaq_{S;y(?am`g^&HusUi5q3V&1xeu)zQ=n(u0g@1Yo{&Xe&GeYpI6@Ezwe!apU
z6N2BW@W+PWcM2cdKVK8cw*R<Z;qMoMzgXdyhTtz#_-BXUcL^Wc|M(F6RSLf>1b>YZ
ze|ZT0iwb{22>yD7KPd!%lT!YQ5d3!){=^Xc_m%i3hv08h_)|jg`$)sV_QTf%vps+M
zDg1Ln@CPXTsUi4-gpcR{{vpQST!nvb2>l|3e_jZFiNZfW1iwPzPY=PLuJA7m!LL*J
z2ZYFftMKJ1xc}gy5c-`8zd8heff9dh2>v2Pzb*uSiK0I%1b?~0uMfdrsqile!C#~B
z8$<A4RQOFH`0EvZa|r$>h2Ii_zeV`+6tv$<L-4mM{LT>kZA$!?hv4_wCw>2DUI>0a
z;bZ?B3&9_#=wA_npQGsWJssJOUqcoC>=687g@0uT{y2qyO$dIa@Ui_Z2*IDO@UIHN
zuU6u}It0H_(Z4nXKd$Jvh2Sqx_y>j<zZNO{{vr5F75>~1@vl($*M;D(5<a${>qGF@
zDExy$l)qbv|KJe(*A@ODA@~~={-O}&e^)90Z6WyYEBd#G;BQm-UkSnQvu}F;zc>WH
zpYXB&pB3Wz<v@jhObGsQ3ZK6dk!}B<uke2#qWz3k_&*H6FH`v63BjMH@E;1nuU7c{
zovLi}*QoGYLhw5kK7S`KTm9=5eqjjyVugQv2>vpKe^dy5m%{&Qi1Tl?@Uj2qdqT6#
z-&#fgju8BHivIl}`0EvYz9%-@_%|u~4}{>qtLWbug1=SKe=r1po1%YL2!5aa();ff
zA^81-kNx-8L+}SG`VWQR=P3GL3&9_%=sz5SU!>?S4Z$x_^uHB?U#94PBLsh%qTdyQ
zKSR;KI|RR8(SIZazg5xyW(fX#MgOr7{Oc9{dqVIREBfCK!C$KA-y4FzLeYOB1b?NX
z|9A-g8b$v*A^6>j{;ClC*A@LIL-02!`e!NQcMf&41V`j@t?6{>akKD$IVk}JFK7yy
zavVwTcuXrvK_ij%Z?V@%WcnHA1HN~de}Bb}=K~EK8A8u&NkvOJp1vUEZQ_mbns^%-
zN-x>xj`9nL%RcvV3TE{Wq|fkh^}kFXYW$ZZ{t-wPTZGP|H$na!{oFwYC=+AO-_a!G
z=I>hZ>Bj#r(LW5u#1<j`ofs|tgDx~yhoG_8B6Oc%y`A`v6TX`-_x*F0k51`zuJCj0
zgh@Vk-bOYG-z|UH#fFe8Jp1H?8TmPVpyj_+@^9NI=l@F-yqkZn6E2gh-zxe?TVZ*2
z_3dvGl{g<PRP=fN?&|aJY-sw6v(&F5vR3}(iv9_T{tcq<gdbTY`khYsZTuF#L-=m~
za-+tg$r{SDt8<$t{xuSRzVNvI_%~UszO7gOO&$6_t^U3y`nehOpY!N%QSz6k=pRmT
zY5LEK{yayYZSfdDe69W>{9`M0R0ofdVE;Z}(dX}UYWgFEm`Q)FN55Lp=k=?b|I4W3
z*7R42ewV~=pG>LjyGX?DiMr=cx9E3^Dc66IqW^+Ne|n7}9-Nd4UU95=@b}EL_~&HF
zKgYwLFZ@jTuOPlw{|k;XnW~mxx%|ZxsGI-)c=SKXGXBYQpD(#hJAd|`X@oPyUru~2
z{>@7Krz!F8O%oSQe}U-p_>PCkN)qW!d`-XPXk%&n3C`c?ivDDe{*$6VBPkWUa`nqS
z`qM=p`!D|eG`Ie4^5`E>YlLMOO+?}9U+d9dDEei><noVE^uO=XuNVC#31#!b)#v*(
zwfwIaeLH@zKF?p>@^AI%Zx?<0Jwh9XtN)%yzbwaC@^3Ei!TP0&{t&uPh2XUIUr`^>
zBAMF%VB%}#j~r`+tBspLf4rjqwnzUZ(LYi6_K9P~<5wR2YSG8`U#{pMP8Fh+f2-)9
zjAHa!(wRWVd-z8+7?Vu=xQ9Pc_?i0eXFdFjgrBMYzE6Cu{yLTVo2=xohOTpH`TJ#-
z@$+>qjlU(!_#Y#_7XL;i{&ST0>uH}))1NuV)Za<`AslY~*AidTFFwv#@|eX3pMN}8
zrE~{}ZI^F(^l!h!*bNtZ`{e3x^ys&K$yj3ld#<8ChStd(qC0<mQS^_p!t(6uk0!oW
z{^g=?%gN<GU(x4%3Qhl=EcKuA=&w=qFHrPzX@gbMk2IPB4{^%Rws_p*;SUl1MQBW~
z-TW;jzLvlBO8w1H;y+-2J^t%Oe{cr<eTc8=M~0Y4vHmVr^sn&fKP38Ja`fH&J>ucN
zCVY4Q!p+|s9{#U|pQ-(xbAX<|ZNkrU;&=5ch_B^uppw5@C4WEj=nrW!!u*@Tc)0p+
zc=Yo{f1{B3{EI32C6r*6aL@lUn+-A3`16>De@>SCcRl>tEcqw(*W>TVlHcOt-;^c)
z`yT$?!Y{<iqt|Zz@sD3?`F~ybncDww4}X*Jr)JR4C%)Ex`yOv1#q+;eX+M{H^z&Nu
z_T!fSIS;=?_?hze4-dah_)%IP<KgOm<SBoSl)t|a`21;8%6}@IAX@$Xtj(z2gyQtt
z)gMlLE&ur^7)u<#`8QqN`NKSq{srwum_AN9I95D<;NdrV_-_1rAEKB4D&e1iV)WYO
z_a?qp{%R>dw!coL{KX#qF3~T{px@@<|62GJ8Td`a*W&L~>hB6A{zp9eL*hobGK2mK
zkA9b;f2E@Twnu-i=s%D_|5qOUjiTQzd_I4!R`jP2(A&?z4nxe8|0?2Z`CodXX=!-=
zT%+jU?$NIk{V7iQ$wkU>vqyiO=$DB#m;X9Ne~&};@~;;CO!fb7kADA?(#y|#-ERLe
z(xcyJt_eI-`3s4!<-bJqvHUkF`g1(`RiZyUCEF%f2*o`53q>FMkDC?!r#<=$ML$#j
z*@rGrk=wNS)7`><6oaMLrdE>Re?0Lom-rWpDYu_RO8g@|`r|G$#7yzGdidvM$$!bi
zug{Wy$QShdT`v4g<HrHS*V<qHP?Kq_|F0_fyVIk;Li97OA8z;Pmnr&pD*C-CK&|~e
zFZ!9*pO<?0TZEtK`duUOwft2p@qbN;|2>a>-%iv11}B?(@XBrffAHvcD*8(m{qqmk
z^LL`?pPWH|D)F`QFIM#LR`j3n=$|k8#g0C?NI4$$=y!=ej$g|Z{eeg5<zFoNgHzPf
z`=1pa{*%JzYZiF8^>-ifwft?A_;LU1J|+G&bOQ!Uxa-dk=NZ+1pg6sD^`9cXrr$r$
zSZ)+P_n-GG`a=il`hU3G5HpRx#}i-E-y-^0e-A49&v^7lT#=pr(;oeSr<n4i{zHm>
z*%$Tl-zfUWNdD}T@oL}EH4Wlx<u4Qcfnv(}|CXY^#-raQ`X?r(f>-1s<#@`YU#;jr
zqUit8qyIC}cl%$r{O@@5JC*!Drsxl*0fx)uw*PIS@AhAA`3DhS%YT<r{%<S#Z65t0
z^G%xfa0K1*H+l5CMW27OjSsH>ClvkF9{m%qG`vaXDe>s)KjG0|mv1bw{qg<#?)-O~
zNB=U>KR=;tUO4H9{LQ1kS@d!K`;?+zNdq+dbnE|3(I4#SyXAk>!~cu$GtHkLBEHss
zatqS)_p}m!UXC9BaaWnZGsS<chhHlEO!L?GJ^b^9FWX=y7<%Mf<MGEFz5FFoei;UX
z_WJ{+{H;_#_UYE&OQN5t|GI?uTK?B4`CqH(ulMNxCCmKnaf}{+ud7X#GUe~zp7_@*
z`TLO)f2l{mMf68uWzlPLk#dv}U&~)vVS4-Jd!5|#|0a)qm*~q=LeqFnyp3Gz(XSSL
zY(Fn3`tNx3a~Bv5cm3_^zva>2DEip{yrk$~eym>qouZ#<{?kExE&n;gOr$vfctz3g
zb)2rhPV^5nX-GV}<-gOz-za=aPs-u)ZzsMMf2G8a<Hu`C{JrS{7r|-g|ECL#?9deT
z^!EFiN55Xt=fCOXw%;m`{*Y^oaHjtAB@e$?_#>V8-TZYEU(4SDrT%}S#D6?Zun11e
zUrUzpU*X|jlO_KX5C6_A`DY%l$N#YKGxZ;*5?{;TD#>59<e%qH8+xVJ{~@`${*Y@8
z@l@g4C%66%Aik#GzsOi(`~Rh)|A<GwTJ-rlFL=26D?IwSqF*h1F8@YFznwOS2u^E1
zeQz|X$Dla9cJ-Tyua$q{NMniR|FxojAPw-E{)wV5)96GLuKvEn*YuZ*KK7rR6#bVy
z`VWi#Q3+-9!qp#tk{<ty!q3$Ik0rhq|9U0<-zxDx;L#r-7tY2w0XuIa_jvRp#l~_K
zR}LNAetxIumrw`IChq+0yqg1BWR`hKJi7X)5nn6+s!_(WT9~Z=zl#3XJ^E`!KU4i3
zO$$UV{$FRwKZ5vL{QXZg@nie{gBHI>f1Bu^p2(be;pXoSkAAMA&wmrJulTcZ{o12H
z{1#*A>T|B}_=QKmMD+3e`?I2-lc(puP4urpF?#LlA4z;I|E-Gt`-*;zNB?i4PsK|)
zT>Tjy{pCvjKUDOWd-QW|HL|CqsHc~It%pBF_?hM}eMx}J<etAZ!q2q+-GlgA{?{nw
z|41qSmp%Gl6a7r<m-9UO>lOWv75!g$^nW7ygEQoRy+?nGqW^bAe=MCK1gGVHYnJ+_
z6JN`J<h1nuXPct`xJUn>MW)~d8Or~NM}MHA|EZ$?H;?{U(Vvt-|3i;{zUb4(!NKFl
zc13?C6;R9nS497U4Eh%lU(0{B=y!ttzZLyodGxo4ex~!cU!flVr&-qD-o)49->B4I
zFUp}ieoXM_pLClkI9=XMIXKsNT<hVF5q_rjccmx(txEiTl=wG#^xH&#3<gWD%~_QM
zi-zg>UoHGh^N&-AujRk*XrpAuX>PxJEAe-G^nd2bzZ?IQB0c^s!e5&#YVgYCPawV)
ze~!ezSoj?OzDoQ9X@JqrzZJI|Vy65ZLVQhsm6E@HivBGg{pUrWy7!dBZNHCs_#X*B
z)B68mPyFj7e(b*vRN_Bqgr2_>zhc79w0`bKd@X<5L?8RFgB1NwJ^GJ|zB_*;7b(Xl
z9{twSjU|@<5JmrCO0d>`wut_e6t(p8_kQAQ<zKGoAFAl*6zlrM((n(<p#O-6KRHYO
znKVJt%3mjZ_xy3&@2SMs%D-O9kNppSSJmzRH+%H26@BU+QVvtAN$3RHVA0}#TKLPH
zfL;D^#Mk2ABJnQ}KKDO^l=xru=uf@F#F(l6E<R0<zh3xd$)X0Y-1sjbz7~J|nZ`0-
z_#8ifCC<(Nw><i*M1N=o{RceyOGO{+f3Tvz|7gAZn>_h*sxz|M!~ZDD_@5xYmcLa>
z{QQ+7H-AS{2c@;YqwX|`t8((^#(xCyHT`v>Z|k4yZ-}D*l1INy^#APWlZ%w2+oRvV
z#8`HTHS6==ly}R&@C?2DGnN?Q;1sp={<H6yI{zx+XS)8q2l2K1t&#Zg`ZwRw=f;1j
zNB`QpOyCt6;&1fmcgw~Zo_{AR`fqyl-xU3`9eua`yz0^4s_64A0dD!5O7#2>_?i)(
z<mi)&l%u{x&wtKXV~OWKUy^k7Hxgeve`-X3M2ecRMd;@q{bEI*xAa~8abtA-rJ{c@
ziqUJg{6F&WAI*|qI9AtREBvV$^iL+f*8VG%^7EFkTmA<<`Uia72sdQVzt^K*FZ$U2
zc}v#SKk_WS{GFnIXa@Z|J^b5+pQ--#9;fRs_we2GZ@7p5r0|D0@w@yQ4}YWZWg92q
z#pTZ+ejoZ&y1RtkQptapAl!fRkmBb51&@B+QbUX<Jen8eBIS72qhE5Cu`Cm7*5@wC
z)$d)Z=YON<)ATUqaLfOhM}MK{WB<dDtADmf|DbOe*-ZNfV~DTif4QPxs_1X<=#Lfs
zOzrms8X!0)?*8kvEcw@Z__MMs|CPko%D+Y_f4NfrS3LSlMZYDb_S5^{=RNxCMIZa0
ziHiOg$Lsmq`)(sl!)wanw!eYI*UBFmM`CoK{v<{JN{{~8qJLb9dV2Za@bKpdKU4pC
zES;cQ`?*^9ncDwR#MjE7FXhMc?;NH4vpo8%M1Pr6emDO$9{n=W?-D-uKUIqU{T}^_
zZyMrZjy}0aIZi3p^EcDOcjI60;dcr@)A?UELD#=U_$Q`Bo8ErTBED9CTb25ouH^3t
zkN#@Wr{Ou}aP#-5N53z3mUQ6xbD^R?ZlYfPZK6NW5p>>0&LqB8{$kO$<0`kG8H#=Z
zEfBQxr~kdC*cX|n#G|V}l=zx{=XhgD%`-Sy|6)advq!&K^fT>W{l=r;E&7=MYDNE6
zS|DiUe^&G>6D2n<OsSIKjl|c=zg5wnspua*S=T?{KBHmtXBA!j0mRqzbIOb*mcLHX
zf6SwQp6I*huY3M)_weh5pQ-<eQ3Y%Hze@N+Y{BK(Eq^ufwenXg<*!%D|C~pEh3Frj
zLH{UfAX@xC7XEC9@8<7t;%o6Qkoc>G&*#r2O8kpF`i094agOlqldFG|M}M=T-=yfj
z;L%?u`kBVxXFd8QJlUcH$KMu3Kj$1h|8I!?n!ro)!7cxh#MkmaUG%pKmGgh8qQBIm
zf5ZKTm?{5vdi2XCq?f;4(eFD|FaKY%)Zc^nTKTIL{SHNcu1EiZ2Tb{|Or}0~<>voV
zkAA1<cM6~Lf0?4c(xd-N(LdPHCl@Kl*|fpQF}drHEgrrb|F1p#PlbO?iki_v=oiG-
z^1oHepD)H-{wwHTUwLoOi_@p+@y~zI7-lN}cRc*tg?|YKORp(}lw&3FwfJ**u|kI(
zzc~J@l=u%mSC9Xnp7`DTH+uN{tuSGBn5V>}%b!hrE&h5X{%e%@H+l3Ih<;H**}O1W
zNrM05(O)I{ww^hE*D3mEpQq<<wdiMBe~cl%R{nLO-zA~4{tb%$LXUpsLxy-}vZ%o;
zH~-gp^jj-Pj1Fx7H!1pm^5`!X{o?{J$p_;#`To@NJ^2&<p-I!=mCOIChySYZGxdLq
zh_B^;xs)IKzgv~^uk+}i{jdq#J^$VO516i(f4cDF8Onbk@wNB|@@4@Yc>dq6#DBL(
z|8>znF@yeH9{p<3A1Hiozl#<9zk2llF8Zfr(0|{f-zoaoe(zB9OE1v#Kjd3Rm@aRn
z9ONS9C?UR<|1PEcOBDT|c=T&U|AiDa6DvZmdGxzQAN!B5Df*{f=qbMtGqvCAJp5we
z55{2WwVS`+d-xX$KQ9A+Gx4?j*H1P|*#7QT%759H_3|$ieVQJm9B%w=#Mkr}h<>%O
zx&1Fw^pBmP>;Fddk4jNbum7Wnujy}A%73q-|DZ?zpQ4|s{tu%K3hvX~`P+Vvn7}i|
ze-QDt__rzX-><}fmq-7EEcF+A^!raCF*>mQJgDez^XQKkeRuqF`~RAYP5$;Uawci?
zSS|eA1Y%zFb>7b)zLvjSiN9Lxx&1w?#DA+te_@vTH+u9JD*9cDKL1WX=fo}lsx0*%
z^XP9;^dD99H+u9pW~u*kkA7JtiP2FVJeu#XtW@-SNA>bY9yP>F_5Ybize~}7T+tum
z(a+6Ne=za2_Scs;>*=Tt9!>dIDf*K=`juJgmwWW<75yg_{kb0f&MfsW_2{ot^j9nT
z-}LA&&r+ZNPK1{K+^OmLe_GM+_UNz6QvVr`{z65cf6LtVU$$TUqep*hmiq5_^tXsU
z&i{U(=<iPrRO^2RK4uzjj<jF<WaCe~uh#QFkS`X|Q5HO!_P<uqFRa$}i?h@}nfO}$
zS1bC@D*Dqs`qM?<){_(?QGfP*l}Eoz(eGCDuN3{>CSBHTq*e3>BoOnWzw`cqYCV4o
zvyA^9;%oWas>J_-694m}@5aAe^bd66b=%K7p7>W~8UI_J_=~5Rgkt-9S&4t|8k0Xa
z{`Fbrf2i=?@q0^_@gGloE&mIY_+M4xpW=x>veG2poxi&6r_B@pK;dU<|4p9w*D3M8
zuEhUUPyG3!e?W%zv&s{HNtW?H=83=mx#{iaCrbQ3_rzbFW&Z!}iN7<;`2XsOf4UO?
z&y@HNpQ*S1#aYHbTKI1J@5(a%k;K>9|8gb%Unud<@WkIO`kDHl`JVXKXBq!xp7^&Y
z@o!Y(U*?H_OP2Ak^~Ap|%lN<Ni9i253YHG+KYv4z?Z0im@V4l?{b&Dgn-ljS^OSgW
z`=3ayK7Qp2-?g{;*5SWA@pnr6`C|An#s0Pu|6tK~<1g{(yYY<m#9t}=TpOr7yYZh+
ze69U=Df$1M68}t3{GFnosr_H;iGN|1@n7kQf2$JzyGr~Idg5P|W&U6E#NX}VyZQf-
zC;sB|DOftN{rpjh|9?I4uNVDH<5%xGz5Q>_GXBpz@z*Qy|5=Iu7}0mz|5nk@)PBZ#
z;*UIT8oZlt_x<U_??a{~Cf$Zak4q(f+t2X%`+*XFv*_D;vJU!+ex3#7xtH^NneZL6
z$Oz%PxaC{?CgSf+Z=CQW#lp|AhVtx||31-o`O}5pIWpCO%fFlWeaNIF)hx0~^0!nH
z!1?=#{#m}wE0@RBW>@QfZyc_hZk|6OqXA^>^7o;S_b?_Yk4w)mnHqjy3LLC85#jMc
z<CooNqFP1e!^6#gU2JB@?7Z5%mQ!+qBi}s1YlDm^DhjY+BZn6nlj?o1F0DAbcdw+!
zUXe4>;$!WueUlNC1TRY>{UZlP{&wI|pPpNG^Y6DXR(A9AWw-8WUiG)HZYB7Y;N!%n
zH{*vlbaxC$*d{(mn7k5%v-qMHtdiKi5(JTs-x|50d*0x(+awI5Ty{hEfp>Ku`1E=q
zC%oSp0mnCAxh)aMx!cNa?w{_xEQKItr4ruI9X~k1O%xdT>G^>V;bqy)S8jQwbUPRB
zy-By0ZZE5)m`k^m^;&=6(~;}DJNDvt?@dl<^=F%<!N<YN+I7Z!9hnzDA2;SlUst-l
zmr!nvj4Ite|DhDu7rhXPOq)7pdURar*mK7RiA_9=KkKYhb8^p}+0h*D$SD|>H!Lsz
z<Pjag+rp~~i}Lb|@(NCn4~WF)A<qvu{o^N}%jZ=$W43+UwS2G3r$%~p_V0CMzrFh|
zrsg+@Z1^7^bNHe3fc`i3K5PHIde@MJ`D`@fbOh(E{d`LBaloBnK8}pxXZv|)^7Hxf
z`4{o?Y01x*$>%|gmOnB1`C9pWDDrEQpKp@Seg3!0=ldalY?41nPQ$D5^WJlffpFa?
zru2#Y^*=7o@Apv8WX6M&BZb0!*g-+<8JJQY9EZ{4L6N=WU9#^xHo*HN`a-T_K8olc
z`{@_FGwp$2o-VkZJ6iwT+75;|gSsb-ZYc=b5j~|GGw7Z5fgiMa@Od750pYA`_3T)%
zSnzA<nUA0?(es1!Pt$#raP~uIP;dlwPp^JR{}|sKpfqmC^LoKQmiIwhqStTJKh6K|
z#Xd*chV}m^!TIlj@)5Ktdj5d^v2K~*L0e)286+anXnVY-Egp?GG{qv(_Lh#e+E}!$
zr6r#7CfXQlCevuZ;ur1lwpdLQy$X<Mthr`pV=PkJ*iw5*Bs#ug%Gfa#(J5!2T~#_Q
zI&I9@iqdF=80@4yUf0q=&V^Xl&>k?O(T4UEUv-h$v3RU`Zo;xXMnTrJ5t@MLwF}K^
z>}ao#%rZ~$hT2HHrIzg5>szRdvl<#>(dHT|XoTB0AKXs&rGMN1V~#@@q~k>T$Ddi;
z=9zImTP&VSulZnGZsQg&V2}>B=d;D)r!q(f<J{&gUd|vLjPFnXEN-tgyY?5cF&&KW
zP5-QY2ZMCD_-zJG!|xWHXBONie<pc&KyWS>w?pgyNx@zJ&v@{k0gmN;&x6~J%PsE#
z(tcgs{w+0*lg}v|=LurZ_`ZM-13&zkwZ9y2tY7|pZ9Z5R>oEZ7fj{QF*&|0@a6b8;
zJxb(-#plTTY6rho-Y;-)+n+3V@XhkR+re#rVn4UKw%-T>CyvE!zhOVOxa~J0dF}I>
z;x#krIo@WT>+P$ySYu6IJk}YH<ki*0Ya)3w+uI{~Z7t?a@F~B{qgQ#<LDV!x@@iX}
znqtjFXl{we@@QgkGW9~#b(r_Fn>+Ga+ge&<ZSi^Jh~3BPqqEwAGgk`wIiGTf&vlm^
z$&AAi^AzFVwZ+4E8#$6b<n~j7M)Z1%I4t1=(!u94bM5$M$CV+1W7{Dp_&ptdb`Mvd
z#|if7^81Re)v<o8zJ1UA6Z;f%3r8&9j@R}BSN{y*yZZLKF|MBbeiZSw{N+l=Y~$zr
zaY`-U;*&)`pPuo^kpjsQFY%F$-#*hVdO`UU2J%8~F>&EE+u3Bn{jQroxx^mHaXi@g
zEzILE$Kvu^1+af(!`i$2%jp9xe<hN?jY8!7@m#?2ZT>WErr6(hEs;15AdGcfKFhdu
iPf%nFcb;_Ee%!oE&$VxjJCHkTI&L;kiAP&+7WjYn+McHX

literal 0
HcmV?d00001

diff --git a/b/trax-config-version.cmake b/b/trax-config-version.cmake
new file mode 100644
index 0000000..aa36258
--- /dev/null
+++ b/b/trax-config-version.cmake
@@ -0,0 +1,65 @@
+# This is a basic version file for the Config-mode of find_package().
+# It is used by write_basic_package_version_file() as input file for configure_file()
+# to create a version-file which can be installed along a config.cmake file.
+#
+# The created file sets PACKAGE_VERSION_EXACT if the current version string and
+# the requested version string are exactly the same and it sets
+# PACKAGE_VERSION_COMPATIBLE if the current version is >= requested version,
+# but only if the requested major version is the same as the current one.
+# The variable CVF_VERSION must be set before calling configure_file().
+
+
+set(PACKAGE_VERSION "4.0.2")
+
+if(PACKAGE_VERSION VERSION_LESS PACKAGE_FIND_VERSION)
+  set(PACKAGE_VERSION_COMPATIBLE FALSE)
+else()
+
+  if("4.0.2" MATCHES "^([0-9]+)\\.")
+    set(CVF_VERSION_MAJOR "${CMAKE_MATCH_1}")
+    if(NOT CVF_VERSION_MAJOR VERSION_EQUAL 0)
+      string(REGEX REPLACE "^0+" "" CVF_VERSION_MAJOR "${CVF_VERSION_MAJOR}")
+    endif()
+  else()
+    set(CVF_VERSION_MAJOR "4.0.2")
+  endif()
+
+  if(PACKAGE_FIND_VERSION_RANGE)
+    # both endpoints of the range must have the expected major version
+    math (EXPR CVF_VERSION_MAJOR_NEXT "${CVF_VERSION_MAJOR} + 1")
+    if (NOT PACKAGE_FIND_VERSION_MIN_MAJOR STREQUAL CVF_VERSION_MAJOR
+        OR ((PACKAGE_FIND_VERSION_RANGE_MAX STREQUAL "INCLUDE" AND NOT PACKAGE_FIND_VERSION_MAX_MAJOR STREQUAL CVF_VERSION_MAJOR)
+          OR (PACKAGE_FIND_VERSION_RANGE_MAX STREQUAL "EXCLUDE" AND NOT PACKAGE_FIND_VERSION_MAX VERSION_LESS_EQUAL CVF_VERSION_MAJOR_NEXT)))
+      set(PACKAGE_VERSION_COMPATIBLE FALSE)
+    elseif(PACKAGE_FIND_VERSION_MIN_MAJOR STREQUAL CVF_VERSION_MAJOR
+        AND ((PACKAGE_FIND_VERSION_RANGE_MAX STREQUAL "INCLUDE" AND PACKAGE_VERSION VERSION_LESS_EQUAL PACKAGE_FIND_VERSION_MAX)
+        OR (PACKAGE_FIND_VERSION_RANGE_MAX STREQUAL "EXCLUDE" AND PACKAGE_VERSION VERSION_LESS PACKAGE_FIND_VERSION_MAX)))
+      set(PACKAGE_VERSION_COMPATIBLE TRUE)
+    else()
+      set(PACKAGE_VERSION_COMPATIBLE FALSE)
+    endif()
+  else()
+    if(PACKAGE_FIND_VERSION_MAJOR STREQUAL CVF_VERSION_MAJOR)
+      set(PACKAGE_VERSION_COMPATIBLE TRUE)
+    else()
+      set(PACKAGE_VERSION_COMPATIBLE FALSE)
+    endif()
+
+    if(PACKAGE_FIND_VERSION STREQUAL PACKAGE_VERSION)
+      set(PACKAGE_VERSION_EXACT TRUE)
+    endif()
+  endif()
+endif()
+
+
+# if the installed or the using project don't have CMAKE_SIZEOF_VOID_P set, ignore it:
+if("${CMAKE_SIZEOF_VOID_P}" STREQUAL "" OR "8" STREQUAL "")
+  return()
+endif()
+
+# check that the installed version has the same 32/64bit-ness as the one which is currently searching:
+if(NOT CMAKE_SIZEOF_VOID_P STREQUAL "8")
+  math(EXPR installedBits "8 * 8")
+  set(PACKAGE_VERSION "${PACKAGE_VERSION} (${installedBits}bit)")
+  set(PACKAGE_VERSION_UNSUITABLE TRUE)
+endif()
diff --git a/b/trax-config.cmake b/b/trax-config.cmake
new file mode 100644
index 0000000..11b6318
--- /dev/null
+++ b/b/trax-config.cmake
@@ -0,0 +1,70 @@
+#  CMake config file for the TraX library
+#
+#  It defines the following variables:
+#    TRAX_INCLUDE_DIRS - list of include directories
+#    TRAX_LIBRARIES    - list of libraries to link against
+#    TRAX_LIBRARY_DIRS - list of library directories
+
+
+####### Expanded from @PACKAGE_INIT@ by configure_package_config_file() #######
+####### Any changes to this file will be overwritten by the next CMake run ####
+####### The input file was trax-config.cmake.in                            ########
+
+get_filename_component(PACKAGE_PREFIX_DIR "${CMAKE_CURRENT_LIST_DIR}/../../../" ABSOLUTE)
+
+macro(set_and_check _var _file)
+  set(${_var} "${_file}")
+  if(NOT EXISTS "${_file}")
+    message(FATAL_ERROR "File or directory ${_file} referenced by variable ${_var} does not exist !")
+  endif()
+endmacro()
+
+macro(check_required_components _NAME)
+  foreach(comp ${${_NAME}_FIND_COMPONENTS})
+    if(NOT ${_NAME}_${comp}_FOUND)
+      if(${_NAME}_FIND_REQUIRED_${comp})
+        set(${_NAME}_FOUND FALSE)
+      endif()
+    endif()
+  endforeach()
+endmacro()
+
+####################################################################################
+
+# Compute paths
+get_filename_component(trax_CMAKE_DIR "${CMAKE_CURRENT_LIST_FILE}" PATH)
+set(TRAX_LIBRARIES "")
+
+IF(NOT trax_FIND_COMPONENTS)
+  SET(trax_FIND_COMPONENTS core)
+ENDIF()
+
+FOREACH(COMPONENT ${trax_FIND_COMPONENTS})
+IF(NOT EXISTS ${trax_CMAKE_DIR}/trax-component-${COMPONENT}.cmake)
+  SET(trax_${COMPONENT}_FOUND 0)
+  IF(trax_FIND_REQUIRED_${COMPONENT})
+	MESSAGE(FATAL_ERROR "TraX component ${COMPONENT} not available.")
+  ENDIF()
+ELSE()
+  INCLUDE("${trax_CMAKE_DIR}/trax-component-${COMPONENT}.cmake")
+  SET(trax_${COMPONENT}_FOUND 1)
+ENDIF()
+ENDFOREACH()
+
+IF (trax_core_FOUND)
+LIST(APPEND TRAX_LIBRARIES "trax")
+ENDIF()
+
+IF (trax_client_FOUND)
+LIST(APPEND TRAX_LIBRARIES "trax_client")
+ENDIF()
+
+IF (trax_opencv_FOUND)
+LIST(APPEND TRAX_LIBRARIES "trax_opencv")
+ENDIF()
+
+SET(TRAX_INCLUDE_DIRS "${PACKAGE_PREFIX_DIR}/include" "${PACKAGE_PREFIX_DIR}/include/trax")
+SET(TRAX_LIBRARY_DIRS "${PACKAGE_PREFIX_DIR}/lib")
+
+set(TRAX_FOUND TRUE)
+
diff --git a/src/neutral.h b/src/neutral.h
new file mode 100644
index 0000000..2fe788f
--- /dev/null
+++ b/src/neutral.h
@@ -0,0 +1,70 @@
+/* -*- Mode: C; indent-tabs-mode: nil; c-basic-offset: 4; tab-width: 4 -*- */
+
+/* The text of the protocol is the same in every locale, the program that uses the library may have selected any. */
+
+#ifndef __NEUTRAL_H
+#define __NEUTRAL_H
+
+#include <stdlib.h>
+#include <string.h>
+#include <locale.h>
+
+#if defined(__APPLE__)
+#include <xlocale.h>
+#endif
+
+#include "buffer.h"
+
+/* Numbers that are printed or parsed between these two calls have a decimal point */
+
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+
+typedef struct neutral_numbers {
+    int mode;
+    char* previous;
+} neutral_numbers;
+
+static __INLINE neutral_numbers neutral_numbers_begin() {
+    neutral_numbers state;
+    state.mode = _configthreadlocale(_ENABLE_PER_THREAD_LOCALE);
+    state.previous = _strdup(setlocale(LC_NUMERIC, NULL));
+    setlocale(LC_NUMERIC, "C");
+    return state;
+}
+
+static __INLINE void neutral_numbers_end(neutral_numbers state) {
+    setlocale(LC_NUMERIC, state.previous);
+    free(state.previous);
+    _configthreadlocale(state.mode);
+}
+
+#else
+
+typedef struct neutral_numbers {
+    locale_t numbers;
+    locale_t previous;
+} neutral_numbers;
+
+static __INLINE neutral_numbers neutral_numbers_begin() {
+    neutral_numbers state;
+    state.numbers = newlocale(LC_NUMERIC_MASK, "C", (locale_t) 0);
+    state.previous = state.numbers ? uselocale(state.numbers) : (locale_t) 0;
+    return state;
+}
+
+static __INLINE void neutral_numbers_end(neutral_numbers state) {
+    if (!state.numbers) return;
+    uselocale(state.previous);
+    freelocale(state.numbers);
+}
+
+#endif
+
+static __INLINE double neutral_parse_number(const char* text, char** end) {
+    neutral_numbers state = neutral_numbers_begin();
+    double value = strtod(text, end);
+    neutral_numbers_end(state);
+    return value;
+}
+
+#endif
diff --git a/src/region.c b/src/region.c
index e271c47..3116b42 100644
--- a/src/region.c
+++ b/src/region.c
@@ -10,6 +10,7 @@
 
 #include "region.h"
 #include "buffer.h"
+#include "neutral.h"
 
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(_MSC_VER)
 #ifndef isnan
@@ -298,6 +299,9 @@ int _parse_sequence(const char* buffer, double** data) {
 	double* numbers = (double*) malloc(sizeof(double) * (strlen(buffer) + 1));
 
 	const char* pch = buffer;
+
+	neutral_numbers state = neutral_numbers_begin();
+
 	for (i = 0; ; i++) {
 
 		if (pch) {
@@ -316,6 +320,8 @@ int _parse_sequence(const char* buffer, double** data) {
 		pch = _str_find(pch, ',');
 	}
 
+	neutral_numbers_end(state);
+
 	if (i > 0) {
 		int j;
 		*data = (double*) malloc(sizeof(double) * i);
@@ -482,11 +488,14 @@ char* region_string(region_container* region) {
 	int i;
 	char* result = NULL;
 	string_buffer *buffer;
+	neutral_numbers state;
 
 	if (!region) return NULL;
 
 	buffer = buffer_create(32);
 
+	state = neutral_numbers_begin();
+
 	if (region->type == SPECIAL) {
 
 		buffer_append(buffer, "%d", region->data.special);
@@ -536,6 +545,8 @@ char* region_string(region_container* region) {
 		}
 	}
 
+	neutral_numbers_end(state);
+
 	if (buffer_size(buffer) > 0)
 		result = buffer_extract(buffer);
 	buffer_destroy(&buffer);
diff --git a/src/trax.c b/src/trax.c
index f38dbb3..db0e046 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -11,6 +11,7 @@
 #include "region.h"
 #include "strmap.h"
 #include "buffer.h"
+#include "neutral.h"
 #include "message.h"
 #include "base64.h"
 #include "debug.h"
@@ -2029,7 +2030,9 @@ void trax_properties_set_int(trax_properties* properties, const char* key, int v
 void trax_properties_set_float(trax_properties* properties, const char* key, float value) {
 
     char tmp[128];
+    neutral_numbers state = neutral_numbers_begin();
     sprintf(tmp, "%f", value);
+    neutral_numbers_end(state);
     trax_properties_set(properties, key, tmp);
 
 }
@@ -2062,7 +2065,7 @@ int trax_properties_get_int(const trax_properties* properties, const char* key,
     if (value == NULL) return def;
 
     if (value[0] != '\0') {
-        ret = (int) strtod(value, &end);
+        ret = (int) neutral_parse_number(value, &end);
         ret = (*end == '\0' && end != value) ? ret : def;
     }
 
@@ -2081,7 +2084,7 @@ float trax_properties_get_float(const trax_properties* properties, const char* k
     if (value == NULL) return def;
 
     if (value[0] != '\0') {
-        ret = (float) strtod(value, &end);
+        ret = (float) neutral_parse_number(value, &end);
         ret = (*end == '\0' && end != value) ? ret : def;
     }
 
-- 
2.43.0


From 0f4e1c077b47abf10dc255f45e01420868f5e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:07 +0000
Subject: [PATCH 106/112] fix: Names of messages, formats and property keys are
 recognized alike in every locale

---
 src/message.c | 17 +++++++++--------
 src/neutral.h | 18 ++++++++++++++++++
 src/trax.c    | 10 +++++-----
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/message.c b/src/message.c
index c051939..4b2dea5 100644
--- a/src/message.c
+++ b/src/message.c
@@ -1,5 +1,6 @@
 /* -*- Mode: C++; indent-tabs-mode: nil; c-basic-offset: 4; tab-width: 4 -*- */
 #include "message.h"
+#include "neutral.h"
 #include "debug.h"
 
 #define PARSE_STATE_TYPE 0
@@ -75,7 +76,7 @@ int __is_valid_key(char* c, int len) {
     if (len > MAX_KEY_LENGTH) return 0;
 
     for (i = 0; i < len; i++) {
-        if (!(isalnum(c[i]) || c[i] == '.' || c[i] == '_')) return 0;
+        if (!(neutral_alphanumeric(c[i]) || c[i] == '.' || c[i] == '_')) return 0;
     }
 
     return 1;
@@ -83,12 +84,12 @@ int __is_valid_key(char* c, int len) {
 
 int __parse_message_type(const char *str) {
     
-    if (strcmpi(str, "hello") == 0) return TRAX_HELLO;
-    if (strcmpi(str, "initialize") == 0) return TRAX_INITIALIZE;
-    if (strcmpi(str, "state") == 0) return TRAX_STATE; // Compatibility reasons
-    if (strcmpi(str, "status") == 0) return TRAX_STATE;
-    if (strcmpi(str, "frame") == 0) return TRAX_FRAME;
-    if (strcmpi(str, "quit") == 0) return TRAX_QUIT;
+    if (neutral_same_name(str, "hello")) return TRAX_HELLO;
+    if (neutral_same_name(str, "initialize")) return TRAX_INITIALIZE;
+    if (neutral_same_name(str, "state")) return TRAX_STATE; // Compatibility reasons
+    if (neutral_same_name(str, "status")) return TRAX_STATE;
+    if (neutral_same_name(str, "frame")) return TRAX_FRAME;
+    if (neutral_same_name(str, "quit")) return TRAX_QUIT;
 
     return -1;
 }
@@ -327,7 +328,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
         switch (stream->input.state) {
             case PARSE_STATE_TYPE: { // Parsing message type
 
-                if (isalnum(chr)) {
+                if (neutral_alphanumeric(chr)) {
 
                     buffer_push(stream->input.key_buffer, chr);
 
diff --git a/src/neutral.h b/src/neutral.h
index 2fe788f..b22953d 100644
--- a/src/neutral.h
+++ b/src/neutral.h
@@ -60,6 +60,24 @@ static __INLINE void neutral_numbers_end(neutral_numbers state) {
 
 #endif
 
+/* Letters and digits of the protocol */
+
+static __INLINE int neutral_alphanumeric(char c) {
+    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9');
+}
+
+/* Compares two names regardless of the case of their letters */
+static __INLINE int neutral_same_name(const char* a, const char* b) {
+
+    for (; ; a++, b++) {
+        char x = (*a >= 'A' && *a <= 'Z') ? *a - 'A' + 'a' : *a;
+        char y = (*b >= 'A' && *b <= 'Z') ? *b - 'A' + 'a' : *b;
+        if (x != y) return 0;
+        if (x == '\0') return 1;
+    }
+
+}
+
 static __INLINE double neutral_parse_number(const char* text, char** end) {
     neutral_numbers state = neutral_numbers_begin();
     double value = strtod(text, end);
diff --git a/src/trax.c b/src/trax.c
index db0e046..92128c0 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -159,10 +159,10 @@ end:
 
 int decode_buffer_format(char* name) {
 
-    if (strcmpi(name, "image/jpeg") == 0)
+    if (neutral_same_name(name, "image/jpeg"))
         return TRAX_IMAGE_BUFFER_JPEG;
 
-    if (strcmpi(name, "image/png") == 0)
+    if (neutral_same_name(name, "image/png"))
         return TRAX_IMAGE_BUFFER_PNG;
 
     return TRAX_IMAGE_BUFFER_ILLEGAL;
@@ -172,13 +172,13 @@ int decode_buffer_format(char* name) {
 
 int decode_memory_format(char* name) {
 
-    if (strcmpi(name, "rgb") == 0)
+    if (neutral_same_name(name, "rgb"))
         return TRAX_IMAGE_MEMORY_RGB;
 
-    if (strcmpi(name, "gray8") == 0)
+    if (neutral_same_name(name, "gray8"))
         return TRAX_IMAGE_MEMORY_GRAY8;
 
-    if (strcmpi(name, "gray16") == 0)
+    if (neutral_same_name(name, "gray16"))
         return TRAX_IMAGE_MEMORY_GRAY16;
 
     return TRAX_IMAGE_MEMORY_ILLEGAL;
-- 
2.43.0


From 0b15c2eac745ef84add4f2316f9ec298ffc4d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 107/112] fix: Clients that are set up in several threads at
 once disturbed each other

---
 src/trax.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 92128c0..030850d 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -16,6 +16,10 @@
 #include "base64.h"
 #include "debug.h"
 
+#if defined(_MSC_VER)
+#define strtok_r strtok_s
+#endif
+
 #define VALIDATE_HANDLE(H) assert(((H)->flags & TRAX_FLAG_VALID))
 #define VALIDATE_SERVER_HANDLE(H) assert(((H)->flags & TRAX_FLAG_VALID) && ((H)->flags & TRAX_FLAG_SERVER))
 #define VALIDATE_CLIENT_HANDLE(H) assert(((H)->flags & TRAX_FLAG_VALID) && !((H)->flags & TRAX_FLAG_SERVER))
@@ -377,8 +381,8 @@ int image_formats_decode(char *str) {
 
     int formats = 0;
 
-    char *pch;
-    pch = strtok (str, " ;");
+    char *pch, *rest = NULL;
+    pch = strtok_r (str, " ;", &rest);
     while (pch != NULL) {
         if (strcmp(pch, "path") == 0)
             formats |= TRAX_IMAGE_PATH;
@@ -392,7 +396,7 @@ int image_formats_decode(char *str) {
             continue; // Skip empty
         else return -1;
 
-        pch = strtok (NULL, ";");
+        pch = strtok_r (NULL, ";", &rest);
     }
 
     return formats;
@@ -423,8 +427,8 @@ int region_formats_decode(char *str) {
 
     int formats = 0;
 
-    char *pch;
-    pch = strtok (str, " ;");
+    char *pch, *rest = NULL;
+    pch = strtok_r (str, " ;", &rest);
     while (pch != NULL) {
 
         if (strcmp(pch, "rectangle") == 0)
@@ -437,7 +441,7 @@ int region_formats_decode(char *str) {
             continue; // Skip empty
         else return -1;
 
-        pch = strtok (NULL, ";");
+        pch = strtok_r (NULL, ";", &rest);
     }
 
     return formats;
@@ -480,8 +484,8 @@ int channels_decode(char *str) {
 
     int channels = 0;
 
-    char *pch;
-    pch = strtok (str, " ;");
+    char *pch, *rest = NULL;
+    pch = strtok_r (str, " ;", &rest);
     while (pch != NULL) {
 
         if (strcmp(pch, "color") == 0)
@@ -495,7 +499,7 @@ int channels_decode(char *str) {
             continue; // Skip empty
         else return -1;
 
-        pch = strtok (NULL, ";");
+        pch = strtok_r (NULL, ";", &rest);
     }
 
     return channels;
-- 
2.43.0


From 7256f814a44c4112cda4f9c72e00a5d7cdde3491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 108/112] fix: Trackers started in several threads at once
 could get the port of another

---
 support/client/client.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index d03ebff..6738e00 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -290,6 +290,8 @@ private:
 };
 
 int next_available_socket_port = TRAX_DEFAULT_PORT;
+
+static Mutex socket_port_mutex;
 class TrackerProcess::State : public Synchronized {
 public:
 	State(const string& command, const map<std::string, std::string> environment, ConnectionMode connection, VerbosityMode verbosity, int timeout, string directory, ostream *log):
@@ -312,17 +314,20 @@ public:
 			// Try to create a listening socket by looking for a free port number.
 			int attempts = 10;
 			while (attempts--) {
-				socket_id = create_server_socket(next_available_socket_port++);
-				if (next_available_socket_port > 65535)
-					next_available_socket_port = TRAX_DEFAULT_PORT;
+				// Other threads may look for a port at the same time
+				MUTEX_SYNCHRONIZE(socket_port_mutex) {
+					socket_port = next_available_socket_port++;
+					if (next_available_socket_port > 65535)
+						next_available_socket_port = TRAX_DEFAULT_PORT;
+				}
+
+				socket_id = create_server_socket(socket_port);
 
 				if (socket_id > 0) break;
 			}
 			if (socket_id < 0)
 				throw std::runtime_error("Unable to configure TCP server socket.");
 
-			socket_port = next_available_socket_port-1;
-
 			print_debug("Socket opened successfully on port %d.", socket_port);
 
 		}
-- 
2.43.0


From 93dcc3996df42dba8cbc138ca5dc809a40ffdd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:41 +0000
Subject: [PATCH 109/112] fix: Starting a tracker in a directory of its own
 moved the whole program there for a moment

---
 support/client/process.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index aeac027..880bfcc 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -19,6 +19,14 @@
 
 extern char **environ;
 
+#if defined(__GLIBC__) && defined(__GLIBC_PREREQ)
+#if __GLIBC_PREREQ(2, 29)
+#define SPAWN_DIRECTORY
+#endif
+#endif
+
+#ifndef SPAWN_DIRECTORY
+
 const string __getcwd()
 {
     size_t buf_size = 1024;
@@ -45,6 +53,8 @@ const string __getcwd()
 
 #endif
 
+#endif
+
 #if !(defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER))
 
 // Processes are started one at a time, so that they do not inherit the streams of each other
@@ -410,6 +420,23 @@ bool Process::start() {
 
         vars_c[vars.size()] = NULL;
 
+#ifdef SPAWN_DIRECTORY
+
+        // Only the process changes its directory
+        if (directory.size() > 0) {
+            if (access((directory + "/.").c_str(), X_OK) == -1 || posix_spawn_file_actions_addchdir_np(&action, directory.c_str()))
+                std::cerr << "Error: unable to switch to working directory" << std::endl;
+        }
+
+        if (posix_spawnp(&pid, program, &action, NULL, arguments, vars_c.data())) {
+            running = true;
+            cleanup();
+            pid = 0;
+            return false;
+        }
+
+#else
+
         string cwd = __getcwd();
 
 #define CHDIR_SOFT(D) \
@@ -430,6 +457,8 @@ bool Process::start() {
 
         if (directory.size() > 0) CHDIR_SOFT(cwd);
 
+#endif
+
         // The end of the process is only noticed if nobody else holds its ends of the streams
         close_stream(out[0]);
         close_stream(in[1]);
-- 
2.43.0


From e13c98ebf5260b11ced56a6dc57b9848bb44babe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:32 +0000
Subject: [PATCH 110/112] fix: The MATLAB and Octave client function did not
 notice interrupts in recent versions of Octave

---
 support/matlab/traxclient.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/support/matlab/traxclient.cpp b/support/matlab/traxclient.cpp
index 1d0777e..9397cb2 100644
--- a/support/matlab/traxclient.cpp
+++ b/support/matlab/traxclient.cpp
@@ -77,7 +77,8 @@ extern bool utIsInterruptPending();
 		octave_interrupted = true;
 	}
 
-	#define IS_INTERRUPTED (octave_interrupted) // (octave_interrupt_state != 0)
+	// Recent versions of Octave receive signals in a thread of their own and only count interrupts.
+	#define IS_INTERRUPTED (octave_interrupted || octave_interrupt_state > 0)
 
 #endif
 
@@ -481,7 +482,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 		}
 
 #ifdef OCTAVE
-		if (interrupted) octave_handle_signal();
+		if (interrupted || IS_INTERRUPTED) octave_handle_signal();
 #endif
 		MEX_ERROR(e.what());
 
-- 
2.43.0


From bae85a13272f5c11a6b90e6e5da460387e1ca1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:50 +0000
Subject: [PATCH 111/112] fix: URLs with digits or capital letters in their
 scheme were taken for paths

---
 src/trax.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 030850d..f3fd998 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -121,8 +121,10 @@ char* parse_uri(char* buffer) {
 
     for (; i < MAX_URI_SCHEME; i++) {
         if ((buffer[i] >= 'a' && buffer[i] <= 'z') || buffer[i] == '+' || buffer[i] == '.' || buffer[i] == '-') continue;
+        if ((buffer[i] >= 'A' && buffer[i] <= 'Z') || (i > 0 && buffer[i] >= '0' && buffer[i] <= '9')) continue;
 
         if (buffer[i] == ':') {
+            if (i == 1 && buffer[0] >= 'A' && buffer[0] <= 'Z') return NULL; // A drive letter
             buffer[i] = 0; // Insert a stop char so that we can compare the prefix
             return buffer + i + 1;
         }
@@ -314,9 +316,9 @@ trax_image* image_decode(char* buffer) {
         return result;
     }
 
-    if (strcmp(buffer, "file") == 0) {
+    if (neutral_same_name(buffer, "file")) {
         result = trax_image_create_path(buffer + (compare_prefix(resource, "//") ? 7 : 5));
-    } else if (strcmp(buffer, "image") == 0) {
+    } else if (neutral_same_name(buffer, "image")) {
         long width, height;
         int outlen, depth, format, channels;
         char* token;
@@ -350,7 +352,7 @@ trax_image* image_decode(char* buffer) {
         result->data = (char*) malloc(sizeof(char) * (outlen + 1)); // Decoder appends a zero
         base64decode((unsigned char*)result->data, resource);
 
-    } else if (strcmp(buffer, "data") == 0) {
+    } else if (neutral_same_name(buffer, "data")) {
         int format, outlen;
         char* token;
 
-- 
2.43.0


From fea46b74a7a683fe61ebb71ca7ea34a4b3a86248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:55 +0000
Subject: [PATCH 112/112] fix: JPEG images without a JFIF header were refused

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index f3fd998..a50346d 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -139,10 +139,10 @@ char* parse_uri(char* buffer) {
 int verify_image_format(const char* buffer) {
 
     int i;
-    char jpeg_prefix[] = { (char) 255, (char) 216, (char) 255, (char) 224 };
+    char jpeg_prefix[] = { (char) 255, (char) 216, (char) 255 }; // Followed by a marker of any segment
     char png_prefix[] = { (char) 137, (char) 80, (char) 78, (char) 71 };
 
-    for (i = 0; i < 4; i++) {
+    for (i = 0; i < 3; i++) {
         if (buffer[i] != jpeg_prefix[i])
             goto png;
     }
-- 
2.43.0

