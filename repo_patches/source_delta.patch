From 148174f09a4761ba17495029434f3d1b07102040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 001/107] fix: keep tag pointer arrays in the event tag arena
 aligned

---
 src/event.c | 7 +++++++
 src/nip13.c | 7 +++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/event.c b/src/event.c
index 733e358..b442681 100644
--- a/src/event.c
+++ b/src/event.c
@@ -158,6 +158,13 @@ nostr_error_t nostr_event_add_tag(nostr_event* event, const char** values, size_
         strings_size += slen;
     }
 
+    /* Keep the arena's fill level a multiple of the pointer size, so that the
+     * next tag's pointer array is suitably aligned. */
+    if (strings_size > SIZE_MAX - (sizeof(char*) - 1)) {
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+    strings_size = (strings_size + sizeof(char*) - 1) / sizeof(char*) * sizeof(char*);
+
     if (values_size > SIZE_MAX - strings_size) {
         return NOSTR_ERR_INVALID_PARAM;
     }
diff --git a/src/nip13.c b/src/nip13.c
index 0adc5e6..b2cfc3c 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -117,13 +117,16 @@ static char* arena_strdup(nostr_event* event, const char* str)
     }
 
     size_t len = strlen(str) + 1;
+    /* Keep the arena's fill level a multiple of the pointer size, so that
+     * pointer arrays allocated from it are suitably aligned. */
+    size_t alloc_size = (len + sizeof(char*) - 1) / sizeof(char*) * sizeof(char*);
 
-    if (arena_ensure_capacity(event, len) != 0) {
+    if (arena_ensure_capacity(event, alloc_size) != 0) {
         return NULL;
     }
 
     char* ptr = (char*)event->tag_arena->memory + event->tag_arena->used;
-    event->tag_arena->used += len;
+    event->tag_arena->used += alloc_size;
     memcpy(ptr, str, len);
     return ptr;
 }
-- 
2.43.0


From 8cb524b4078edf93130fc086f47b12b9739684a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 002/107] fix: print created_at as an integer whatever its size

---
 src/event.c          | 15 +++++++++++++--
 src/relay_protocol.c |  6 +++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/event.c b/src/event.c
index b442681..9c6ddba 100644
--- a/src/event.c
+++ b/src/event.c
@@ -287,6 +287,17 @@ static char* escape_json_string(const char* input)
 }
 #endif
 
+#ifdef NOSTR_FEATURE_JSON_ENHANCED
+/* cJSON numbers are doubles: they print large values in exponent notation and
+ * cannot hold every 64-bit timestamp. */
+static cJSON* create_int64_item(int64_t value)
+{
+    char buf[24];
+    snprintf(buf, sizeof(buf), "%" PRId64, value);
+    return cJSON_CreateRaw(buf);
+}
+#endif
+
 static char* serialize_for_id(const nostr_event* event)
 {
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
@@ -301,7 +312,7 @@ static char* serialize_for_id(const nostr_event* event)
     cJSON* serialization = cJSON_CreateArray();
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
     cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->created_at));
+    cJSON_AddItemToArray(serialization, create_int64_item(event->created_at));
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
 
     cJSON* tags_array = cJSON_CreateArray();
@@ -415,7 +426,7 @@ nostr_error_t nostr_event_to_json(const nostr_event* event, char** json)
     hex_buffer[64] = '\0';
     cJSON_AddStringToObject(root, "pubkey", hex_buffer);
 
-    cJSON_AddNumberToObject(root, "created_at", event->created_at);
+    cJSON_AddItemToObject(root, "created_at", create_int64_item(event->created_at));
     cJSON_AddNumberToObject(root, "kind", event->kind);
 
     cJSON* tags_array = cJSON_CreateArray();
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index a698e1b..d204d7f 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -8,6 +8,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <time.h>
+#include <inttypes.h>
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
@@ -329,7 +330,10 @@ nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, ch
 
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
     cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber((double)event->created_at));
+
+    char created_at[24];
+    snprintf(created_at, sizeof(created_at), "%" PRId64, event->created_at);
+    cJSON_AddItemToArray(serialization, cJSON_CreateRaw(created_at));
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
 
     cJSON* tags_array = cJSON_CreateArray();
-- 
2.43.0


From 75c5ff3994777d26e63b277d0b290a79b13f0964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 003/107] fix: report allocation failures while serializing an
 event

---
 src/event.c          | 91 +++++++++++++++++++++++++++++---------------
 src/relay_protocol.c | 43 ++++++++++++---------
 2 files changed, 86 insertions(+), 48 deletions(-)

diff --git a/src/event.c b/src/event.c
index 9c6ddba..69a0c94 100644
--- a/src/event.c
+++ b/src/event.c
@@ -296,6 +296,45 @@ static cJSON* create_int64_item(int64_t value)
     snprintf(buf, sizeof(buf), "%" PRId64, value);
     return cJSON_CreateRaw(buf);
 }
+
+static bool append_item(cJSON* array, cJSON* item)
+{
+    if (!array || !item || !cJSON_AddItemToArray(array, item)) {
+        cJSON_Delete(item);
+        return false;
+    }
+    return true;
+}
+
+static bool add_member(cJSON* object, const char* name, cJSON* item)
+{
+    if (!item || !cJSON_AddItemToObject(object, name, item)) {
+        cJSON_Delete(item);
+        return false;
+    }
+    return true;
+}
+
+static cJSON* create_tags_item(const nostr_event* event)
+{
+    cJSON* tags_array = cJSON_CreateArray();
+    bool ok = tags_array != NULL;
+
+    for (size_t i = 0; ok && i < event->tags_count; i++) {
+        cJSON* tag_array = cJSON_CreateArray();
+        ok = append_item(tags_array, tag_array);
+        for (size_t j = 0; ok && j < event->tags[i].count; j++) {
+            const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
+            ok = append_item(tag_array, cJSON_CreateString(tag_value));
+        }
+    }
+
+    if (!ok) {
+        cJSON_Delete(tags_array);
+        return NULL;
+    }
+    return tags_array;
+}
 #endif
 
 static char* serialize_for_id(const nostr_event* event)
@@ -310,22 +349,15 @@ static char* serialize_for_id(const nostr_event* event)
     pubkey_hex[64] = '\0';
 
     cJSON* serialization = cJSON_CreateArray();
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-    cJSON_AddItemToArray(serialization, create_int64_item(event->created_at));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
-
-    cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
-        cJSON* tag_array = cJSON_CreateArray();
-        for (size_t j = 0; j < event->tags[i].count; j++) {
-            const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
-        }
-        cJSON_AddItemToArray(tags_array, tag_array);
+    if (!append_item(serialization, cJSON_CreateNumber(0)) ||
+        !append_item(serialization, cJSON_CreateString(pubkey_hex)) ||
+        !append_item(serialization, create_int64_item(event->created_at)) ||
+        !append_item(serialization, cJSON_CreateNumber(event->kind)) ||
+        !append_item(serialization, create_tags_item(event)) ||
+        !append_item(serialization, cJSON_CreateString(content))) {
+        cJSON_Delete(serialization);
+        return NULL;
     }
-    cJSON_AddItemToArray(serialization, tags_array);
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(content));
 
     char* result = cJSON_PrintUnformatted(serialization);
 
@@ -413,40 +445,37 @@ nostr_error_t nostr_event_to_json(const nostr_event* event, char** json)
     }
 
     char hex_buffer[129];  // 64 bytes * 2 + null terminator
+    bool ok = true;
     
     for (int i = 0; i < NOSTR_ID_SIZE; i++) {
         sprintf(hex_buffer + i * 2, "%02x", event->id[i]);
     }
     hex_buffer[64] = '\0';
-    cJSON_AddStringToObject(root, "id", hex_buffer);
+    ok = ok && cJSON_AddStringToObject(root, "id", hex_buffer);
 
     for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
         sprintf(hex_buffer + i * 2, "%02x", event->pubkey.data[i]);
     }
     hex_buffer[64] = '\0';
-    cJSON_AddStringToObject(root, "pubkey", hex_buffer);
+    ok = ok && cJSON_AddStringToObject(root, "pubkey", hex_buffer);
 
-    cJSON_AddItemToObject(root, "created_at", create_int64_item(event->created_at));
-    cJSON_AddNumberToObject(root, "kind", event->kind);
+    ok = ok && add_member(root, "created_at", create_int64_item(event->created_at));
+    ok = ok && cJSON_AddNumberToObject(root, "kind", event->kind);
 
-    cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
-        cJSON* tag_array = cJSON_CreateArray();
-        for (size_t j = 0; j < event->tags[i].count; j++) {
-            const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
-        }
-        cJSON_AddItemToArray(tags_array, tag_array);
-    }
-    cJSON_AddItemToObject(root, "tags", tags_array);
+    ok = ok && add_member(root, "tags", create_tags_item(event));
 
-    cJSON_AddStringToObject(root, "content", event->content ? event->content : "");
+    ok = ok && cJSON_AddStringToObject(root, "content", event->content ? event->content : "");
 
     for (int i = 0; i < NOSTR_SIG_SIZE; i++) {
         sprintf(hex_buffer + i * 2, "%02x", event->sig[i]);
     }
     hex_buffer[128] = '\0';
-    cJSON_AddStringToObject(root, "sig", hex_buffer);
+    ok = ok && cJSON_AddStringToObject(root, "sig", hex_buffer);
+
+    if (!ok) {
+        cJSON_Delete(root);
+        return NOSTR_ERR_MEMORY;
+    }
 
     *json = cJSON_Print(root);
     cJSON_Delete(root);
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index d204d7f..6d6c961 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -311,6 +311,15 @@ nostr_relay_error_t nostr_event_parse(const char* json, size_t json_len, nostr_e
     }
 }
 
+static bool append_item(cJSON* array, cJSON* item)
+{
+    if (!array || !item || !cJSON_AddItemToArray(array, item)) {
+        cJSON_Delete(item);
+        return false;
+    }
+    return true;
+}
+
 nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, char* buf, size_t buf_size, size_t* out_len)
 {
     if (!event || !buf || buf_size == 0) {
@@ -323,31 +332,31 @@ nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, ch
     }
     pubkey_hex[64] = '\0';
 
-    cJSON* serialization = cJSON_CreateArray();
-    if (!serialization) {
-        return NOSTR_RELAY_ERR_MEMORY;
-    }
-
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-
     char created_at[24];
     snprintf(created_at, sizeof(created_at), "%" PRId64, event->created_at);
-    cJSON_AddItemToArray(serialization, cJSON_CreateRaw(created_at));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
 
-    cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
+    cJSON* serialization = cJSON_CreateArray();
+    bool ok = append_item(serialization, cJSON_CreateNumber(0)) &&
+              append_item(serialization, cJSON_CreateString(pubkey_hex)) &&
+              append_item(serialization, cJSON_CreateRaw(created_at)) &&
+              append_item(serialization, cJSON_CreateNumber(event->kind));
+
+    cJSON* tags_array = ok ? cJSON_CreateArray() : NULL;
+    ok = ok && append_item(serialization, tags_array);
+    for (size_t i = 0; ok && i < event->tags_count; i++) {
         cJSON* tag_array = cJSON_CreateArray();
-        for (size_t j = 0; j < event->tags[i].count; j++) {
+        ok = append_item(tags_array, tag_array);
+        for (size_t j = 0; ok && j < event->tags[i].count; j++) {
             const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
+            ok = append_item(tag_array, cJSON_CreateString(tag_value));
         }
-        cJSON_AddItemToArray(tags_array, tag_array);
     }
-    cJSON_AddItemToArray(serialization, tags_array);
 
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(event->content ? event->content : ""));
+    ok = ok && append_item(serialization, cJSON_CreateString(event->content ? event->content : ""));
+    if (!ok) {
+        cJSON_Delete(serialization);
+        return NOSTR_RELAY_ERR_MEMORY;
+    }
 
     char* json_str = cJSON_PrintUnformatted(serialization);
     cJSON_Delete(serialization);
-- 
2.43.0


From 9b6002186f5a829efb85e6224a767ae2d9259482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:56 +0000
Subject: [PATCH 004/107] fix: honour json_len in nostr_event_parse

---
 src/relay_protocol.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 6d6c961..97c29d3 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -289,13 +289,18 @@ bool nostr_event_is_expired_now(const nostr_event* event)
 
 nostr_relay_error_t nostr_event_parse(const char* json, size_t json_len, nostr_event** event)
 {
-    (void)json_len;
-
     if (!json || !event) {
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
-    nostr_error_t err = nostr_event_from_json(json, event);
+    /* The caller's buffer need not be NUL-terminated. */
+    char* text = strndup(json, json_len);
+    if (!text) {
+        return NOSTR_RELAY_ERR_MEMORY;
+    }
+
+    nostr_error_t err = nostr_event_from_json(text, event);
+    free(text);
 
     switch (err) {
         case NOSTR_OK:
-- 
2.43.0


From aa6f240e2d0d7a3898576a1ba37f598f7579ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:13 +0000
Subject: [PATCH 005/107] fix: reject event JSON with mistyped or out-of-range
 members

---
 src/event.c | 79 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 66 insertions(+), 13 deletions(-)

diff --git a/src/event.c b/src/event.c
index 69a0c94..bd602cf 100644
--- a/src/event.c
+++ b/src/event.c
@@ -488,17 +488,65 @@ nostr_error_t nostr_event_to_json(const nostr_event* event, char** json)
 
 static int hex_to_bytes(const char* hex, unsigned char* bytes, size_t bytes_len)
 {
-    if (strlen(hex) != bytes_len * 2) {
-        return 0;
+    return strlen(hex) == bytes_len * 2 &&
+           nostr_hex_decode(hex, bytes, bytes_len) == (int)bytes_len;
+}
+
+#ifdef NOSTR_FEATURE_JSON_ENHANCED
+/* Whether the number is an integer in [min, max]. */
+static bool is_integer_between(const cJSON* item, double min, double max)
+{
+    double value = item->valuedouble;
+    return value >= min && value <= max && (double)(int64_t)value == value;
+}
+
+/* A member may be absent or null, but not of another type than its own. */
+static bool has_valid_members(const cJSON* root)
+{
+    static const char* const strings[] = {"id", "pubkey", "content", "sig"};
+    const double max_safe_integer = 9007199254740991.0;
+
+    for (size_t i = 0; i < sizeof(strings) / sizeof(strings[0]); i++) {
+        const cJSON* item = cJSON_GetObjectItemCaseSensitive(root, strings[i]);
+        if (item && !cJSON_IsNull(item) && !cJSON_IsString(item)) {
+            return false;
+        }
+    }
+
+    const cJSON* created_at = cJSON_GetObjectItemCaseSensitive(root, "created_at");
+    if (created_at && !cJSON_IsNull(created_at) &&
+        !(cJSON_IsNumber(created_at) && is_integer_between(created_at, -max_safe_integer, max_safe_integer))) {
+        return false;
+    }
+
+    const cJSON* kind = cJSON_GetObjectItemCaseSensitive(root, "kind");
+    if (kind && !cJSON_IsNull(kind) &&
+        !(cJSON_IsNumber(kind) && is_integer_between(kind, 0, UINT16_MAX))) {
+        return false;
     }
 
-    for (size_t i = 0; i < bytes_len; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &bytes[i]) != 1) {
-            return 0;
+    const cJSON* tags = cJSON_GetObjectItemCaseSensitive(root, "tags");
+    if (!tags || cJSON_IsNull(tags)) {
+        return true;
+    }
+    if (!cJSON_IsArray(tags)) {
+        return false;
+    }
+    const cJSON* tag;
+    cJSON_ArrayForEach(tag, tags) {
+        const cJSON* value;
+        if (!cJSON_IsArray(tag) || !tag->child) {
+            return false;
+        }
+        cJSON_ArrayForEach(value, tag) {
+            if (!cJSON_IsString(value)) {
+                return false;
+            }
         }
     }
-    return 1;
+    return true;
 }
+#endif
 
 nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
 {
@@ -512,6 +560,11 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         return NOSTR_ERR_JSON_PARSE;
     }
 
+    if (!cJSON_IsObject(root) || !has_valid_members(root)) {
+        cJSON_Delete(root);
+        return NOSTR_ERR_INVALID_EVENT;
+    }
+
     *event = calloc(1, sizeof(nostr_event));
     if (!*event) {
         cJSON_Delete(root);
@@ -524,7 +577,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         return NOSTR_ERR_MEMORY;
     }
 
-    cJSON* id_json = cJSON_GetObjectItem(root, "id");
+    cJSON* id_json = cJSON_GetObjectItemCaseSensitive(root, "id");
     if (id_json && cJSON_IsString(id_json)) {
         if (!hex_to_bytes(id_json->valuestring, (*event)->id, NOSTR_ID_SIZE)) {
             nostr_event_destroy(*event);
@@ -533,7 +586,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         }
     }
 
-    cJSON* pubkey_json = cJSON_GetObjectItem(root, "pubkey");
+    cJSON* pubkey_json = cJSON_GetObjectItemCaseSensitive(root, "pubkey");
     if (pubkey_json && cJSON_IsString(pubkey_json)) {
         if (!hex_to_bytes(pubkey_json->valuestring, (*event)->pubkey.data, NOSTR_PUBKEY_SIZE)) {
             nostr_event_destroy(*event);
@@ -542,17 +595,17 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         }
     }
 
-    cJSON* created_at_json = cJSON_GetObjectItem(root, "created_at");
+    cJSON* created_at_json = cJSON_GetObjectItemCaseSensitive(root, "created_at");
     if (created_at_json && cJSON_IsNumber(created_at_json)) {
         (*event)->created_at = (int64_t)created_at_json->valuedouble;
     }
 
-    cJSON* kind_json = cJSON_GetObjectItem(root, "kind");
+    cJSON* kind_json = cJSON_GetObjectItemCaseSensitive(root, "kind");
     if (kind_json && cJSON_IsNumber(kind_json)) {
         (*event)->kind = (uint16_t)kind_json->valueint;
     }
 
-    cJSON* content_json = cJSON_GetObjectItem(root, "content");
+    cJSON* content_json = cJSON_GetObjectItemCaseSensitive(root, "content");
     if (content_json && cJSON_IsString(content_json)) {
         const nostr_config* cfg = nostr_config_get_current();
         if (cfg && strlen(content_json->valuestring) > cfg->max_content_size) {
@@ -568,7 +621,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         }
     }
 
-    cJSON* tags_json = cJSON_GetObjectItem(root, "tags");
+    cJSON* tags_json = cJSON_GetObjectItemCaseSensitive(root, "tags");
     if (tags_json && cJSON_IsArray(tags_json)) {
         int tags_count = cJSON_GetArraySize(tags_json);
         const nostr_config* config = nostr_config_get_current();
@@ -621,7 +674,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         }
     }
 
-    cJSON* sig_json = cJSON_GetObjectItem(root, "sig");
+    cJSON* sig_json = cJSON_GetObjectItemCaseSensitive(root, "sig");
     if (sig_json && cJSON_IsString(sig_json)) {
         if (!hex_to_bytes(sig_json->valuestring, (*event)->sig, NOSTR_SIG_SIZE)) {
             nostr_event_destroy(*event);
-- 
2.43.0


From 321d48cff8f5ffb5be9e9b64edbb2ca8ebcdce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:13 +0000
Subject: [PATCH 006/107] fix: do not leave a dangling event pointer behind on
 failure

---
 src/event.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/event.c b/src/event.c
index bd602cf..f85c91a 100644
--- a/src/event.c
+++ b/src/event.c
@@ -97,6 +97,7 @@ nostr_error_t nostr_event_create(nostr_event** event)
 
     if (tag_arena_create(&(*event)->tag_arena, 1024) != NOSTR_OK) {
         free(*event);
+        *event = NULL;
         return NOSTR_ERR_MEMORY;
     }
 
@@ -548,6 +549,14 @@ static bool has_valid_members(const cJSON* root)
 }
 #endif
 
+#ifdef NOSTR_FEATURE_JSON_ENHANCED
+static void discard_event(nostr_event** event)
+{
+    nostr_event_destroy(*event);
+    *event = NULL;
+}
+#endif
+
 nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
 {
     if (!json || !event) {
@@ -555,6 +564,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
     }
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
+    *event = NULL;
     cJSON* root = cJSON_Parse(json);
     if (!root) {
         return NOSTR_ERR_JSON_PARSE;
@@ -573,6 +583,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
     
     if (tag_arena_create(&(*event)->tag_arena, 1024) != NOSTR_OK) {
         free(*event);
+        *event = NULL;
         cJSON_Delete(root);
         return NOSTR_ERR_MEMORY;
     }
@@ -580,7 +591,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
     cJSON* id_json = cJSON_GetObjectItemCaseSensitive(root, "id");
     if (id_json && cJSON_IsString(id_json)) {
         if (!hex_to_bytes(id_json->valuestring, (*event)->id, NOSTR_ID_SIZE)) {
-            nostr_event_destroy(*event);
+            discard_event(event);
             cJSON_Delete(root);
             return NOSTR_ERR_INVALID_EVENT;
         }
@@ -589,7 +600,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
     cJSON* pubkey_json = cJSON_GetObjectItemCaseSensitive(root, "pubkey");
     if (pubkey_json && cJSON_IsString(pubkey_json)) {
         if (!hex_to_bytes(pubkey_json->valuestring, (*event)->pubkey.data, NOSTR_PUBKEY_SIZE)) {
-            nostr_event_destroy(*event);
+            discard_event(event);
             cJSON_Delete(root);
             return NOSTR_ERR_INVALID_EVENT;
         }
@@ -609,13 +620,13 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
     if (content_json && cJSON_IsString(content_json)) {
         const nostr_config* cfg = nostr_config_get_current();
         if (cfg && strlen(content_json->valuestring) > cfg->max_content_size) {
-            nostr_event_destroy(*event);
+            discard_event(event);
             cJSON_Delete(root);
             return NOSTR_ERR_INVALID_PARAM;
         }
         (*event)->content = strdup(content_json->valuestring);
         if (!(*event)->content) {
-            nostr_event_destroy(*event);
+            discard_event(event);
             cJSON_Delete(root);
             return NOSTR_ERR_MEMORY;
         }
@@ -626,14 +637,14 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         int tags_count = cJSON_GetArraySize(tags_json);
         const nostr_config* config = nostr_config_get_current();
         if (config && tags_count > (int)config->max_tags) {
-            nostr_event_destroy(*event);
+            discard_event(event);
             cJSON_Delete(root);
             return NOSTR_ERR_INVALID_PARAM;
         }
         if (tags_count > 0) {
             (*event)->tags = calloc(tags_count, sizeof(nostr_tag));
             if (!(*event)->tags) {
-                nostr_event_destroy(*event);
+                discard_event(event);
                 cJSON_Delete(root);
                 return NOSTR_ERR_MEMORY;
             }
@@ -646,7 +657,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
                     if (tag_size > 0) {
                         const char** temp_values = malloc(sizeof(char*) * tag_size);
                         if (!temp_values) {
-                            nostr_event_destroy(*event);
+                            discard_event(event);
                             cJSON_Delete(root);
                             return NOSTR_ERR_MEMORY;
                         }
@@ -662,7 +673,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
                         
                         if (nostr_event_add_tag(*event, temp_values, tag_size) != NOSTR_OK) {
                             free(temp_values);
-                            nostr_event_destroy(*event);
+                            discard_event(event);
                             cJSON_Delete(root);
                             return NOSTR_ERR_MEMORY;
                         }
@@ -677,7 +688,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
     cJSON* sig_json = cJSON_GetObjectItemCaseSensitive(root, "sig");
     if (sig_json && cJSON_IsString(sig_json)) {
         if (!hex_to_bytes(sig_json->valuestring, (*event)->sig, NOSTR_SIG_SIZE)) {
-            nostr_event_destroy(*event);
+            discard_event(event);
             cJSON_Delete(root);
             return NOSTR_ERR_INVALID_EVENT;
         }
-- 
2.43.0


From ab4cbf98d61fbaee0233c1b6bb4dfb2a3ba10f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:10 +0000
Subject: [PATCH 007/107] fix: let tag values and content alias the event they
 are added to

---
 src/event.c | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/event.c b/src/event.c
index f85c91a..61ff7ea 100644
--- a/src/event.c
+++ b/src/event.c
@@ -123,12 +123,13 @@ nostr_error_t nostr_event_set_content(nostr_event* event, const char* content)
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    free(event->content);
-    event->content = strdup(content);
-    if (!event->content) {
+    char* copy = strdup(content);
+    if (!copy) {
         return NOSTR_ERR_MEMORY;
     }
 
+    free(event->content);
+    event->content = copy;
     return NOSTR_OK;
 }
 
@@ -171,6 +172,15 @@ nostr_error_t nostr_event_add_tag(nostr_event* event, const char** values, size_
     }
     size_t total_size = values_size + strings_size;
     
+    nostr_tag* new_tags = realloc(event->tags, sizeof(nostr_tag) * (event->tags_count + 1));
+    if (!new_tags) {
+        return NOSTR_ERR_MEMORY;
+    }
+    event->tags = new_tags;
+
+    /* The values may belong to this event, so the outgrown arena is only
+     * freed once they have been copied. */
+    void* outgrown_memory = NULL;
     if (event->tag_arena->used + total_size > event->tag_arena->capacity) {
         size_t new_capacity = event->tag_arena->capacity;
         size_t required = event->tag_arena->used + total_size;
@@ -181,42 +191,38 @@ nostr_error_t nostr_event_add_tag(nostr_event* event, const char** values, size_
         }
         
         void* old_memory = event->tag_arena->memory;
-        void* new_memory = realloc(event->tag_arena->memory, new_capacity);
+        void* new_memory = malloc(new_capacity);
         if (!new_memory) {
             return NOSTR_ERR_MEMORY;
         }
-
-        if (new_memory != old_memory) {
-            ptrdiff_t offset = (char*)new_memory - (char*)old_memory;
-            for (size_t i = 0; i < event->tags_count; i++) {
-                event->tags[i].values = (char**)((char*)event->tags[i].values + offset);
-                for (size_t j = 0; j < event->tags[i].count; j++) {
-                    if (event->tags[i].values[j]) {
-                        event->tags[i].values[j] += offset;
-                    }
+        memcpy(new_memory, old_memory, event->tag_arena->used);
+
+        ptrdiff_t offset = (char*)new_memory - (char*)old_memory;
+        for (size_t i = 0; i < event->tags_count; i++) {
+            event->tags[i].values = (char**)((char*)event->tags[i].values + offset);
+            for (size_t j = 0; j < event->tags[i].count; j++) {
+                if (event->tags[i].values[j]) {
+                    event->tags[i].values[j] += offset;
                 }
             }
         }
+        outgrown_memory = old_memory;
 
         event->tag_arena->memory = new_memory;
         event->tag_arena->capacity = new_capacity;
     }
 
-    nostr_tag* new_tags = realloc(event->tags, sizeof(nostr_tag) * (event->tags_count + 1));
-    if (!new_tags) {
-        return NOSTR_ERR_MEMORY;
-    }
-    event->tags = new_tags;
-
     nostr_tag* tag = &event->tags[event->tags_count];
     
     tag->values = (char**)tag_arena_alloc(event->tag_arena, values_size);
     if (!tag->values) {
+        free(outgrown_memory);
         return NOSTR_ERR_MEMORY;
     }
     
     char* string_storage = (char*)tag_arena_alloc(event->tag_arena, strings_size);
     if (!string_storage) {
+        free(outgrown_memory);
         return NOSTR_ERR_MEMORY;
     }
     
@@ -227,6 +233,7 @@ nostr_error_t nostr_event_add_tag(nostr_event* event, const char** values, size_
         tag->values[i] = string_storage;
         string_storage += len;
     }
+    free(outgrown_memory);
 
     event->tags_count++;
     return NOSTR_OK;
-- 
2.43.0


From 570cd0726d5347d8ea68cc1c8987bcb1f24996ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 008/107] fix: return the x-coordinate from nostr_key_ecdh as
 documented

---
 src/key.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/key.c b/src/key.c
index 8b511ed..6096b49 100644
--- a/src/key.c
+++ b/src/key.c
@@ -438,6 +438,18 @@ nostr_error_t nostr_privkey_to_hex(const nostr_privkey* privkey, char* hex, size
     return NOSTR_OK;
 }
 
+#if defined(HAVE_SECP256K1) && !defined(HAVE_NOSCRYPT)
+/* An x-only public key leaves the sign of the shared point open, so that only
+ * its x-coordinate is the same for both sides. */
+static int ecdh_copy_x(unsigned char* output, const unsigned char* x32, const unsigned char* y32, void* data)
+{
+    (void)y32;
+    (void)data;
+    memcpy(output, x32, 32);
+    return 1;
+}
+#endif
+
 nostr_error_t nostr_key_ecdh(const nostr_privkey* privkey, const nostr_key* pubkey, uint8_t shared_secret[32])
 {
     if (!privkey || !pubkey || !shared_secret) {
@@ -479,7 +491,7 @@ nostr_error_t nostr_key_ecdh(const nostr_privkey* privkey, const nostr_key* pubk
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    if (!secp256k1_ecdh(secp256k1_ctx, shared_secret, &secp_pubkey, privkey->data, NULL, NULL)) {
+    if (!secp256k1_ecdh(secp256k1_ctx, shared_secret, &secp_pubkey, privkey->data, ecdh_copy_x, NULL)) {
         return NOSTR_ERR_INVALID_KEY;
     }
 #else
-- 
2.43.0


From 8bb84eb19de6fc73947a4f698bca51af161fe771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 009/107] fix: accept only hex digits when importing keys

---
 src/key.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/key.c b/src/key.c
index 6096b49..8de758c 100644
--- a/src/key.c
+++ b/src/key.c
@@ -385,10 +385,8 @@ nostr_error_t nostr_key_from_hex(const char* hex, nostr_key* key) {
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &key->data[i]) != 1) {
-            return NOSTR_ERR_INVALID_KEY;
-        }
+    if (nostr_hex_decode(hex, key->data, NOSTR_PUBKEY_SIZE) != NOSTR_PUBKEY_SIZE) {
+        return NOSTR_ERR_INVALID_KEY;
     }
     
     return NOSTR_OK;
@@ -416,10 +414,8 @@ nostr_error_t nostr_privkey_from_hex(const char* hex, nostr_privkey* privkey) {
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    for (int i = 0; i < NOSTR_PRIVKEY_SIZE; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &privkey->data[i]) != 1) {
-            return NOSTR_ERR_INVALID_KEY;
-        }
+    if (nostr_hex_decode(hex, privkey->data, NOSTR_PRIVKEY_SIZE) != NOSTR_PRIVKEY_SIZE) {
+        return NOSTR_ERR_INVALID_KEY;
     }
     
     return NOSTR_OK;
-- 
2.43.0


From 2f0a7be9e5e22572ae6568689774394cbf5840f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:54 +0000
Subject: [PATCH 010/107] fix: never leave a key pair in use with mismatched
 keys

---
 src/key.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/key.c b/src/key.c
index 8de758c..4494b39 100644
--- a/src/key.c
+++ b/src/key.c
@@ -516,6 +516,7 @@ nostr_error_t nostr_keypair_generate(nostr_keypair* keypair)
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    keypair->initialized = 0;
     nostr_error_t err = nostr_key_generate(&keypair->privkey, &keypair->pubkey);
     if (err != NOSTR_OK) {
         return err;
@@ -531,12 +532,13 @@ nostr_error_t nostr_keypair_from_private_hex(nostr_keypair* keypair, const char*
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    nostr_error_t err = nostr_privkey_from_hex(privkey_hex, &keypair->privkey);
-    if (err != NOSTR_OK) {
-        return err;
+    nostr_privkey privkey;
+    nostr_error_t err = nostr_privkey_from_hex(privkey_hex, &privkey);
+    if (err == NOSTR_OK) {
+        err = nostr_keypair_from_private_key(keypair, &privkey);
     }
-    
-    return nostr_keypair_from_private_key(keypair, &keypair->privkey);
+    secure_wipe(&privkey, sizeof(privkey));
+    return err;
 }
 
 nostr_error_t nostr_keypair_from_private_key(nostr_keypair* keypair, const nostr_privkey* privkey)
@@ -552,7 +554,9 @@ nostr_error_t nostr_keypair_from_private_key(nostr_keypair* keypair, const nostr
         }
     }
     
-    memcpy(&keypair->privkey, privkey, sizeof(nostr_privkey));
+    /* Not usable again until both keys are in place. */
+    keypair->initialized = 0;
+    memmove(&keypair->privkey, privkey, sizeof(nostr_privkey));
     
 #ifdef HAVE_NOSCRYPT
     NCSecretKey nc_secret;
-- 
2.43.0


From 0a38efd43794137015667a9f3a529fecbd9a1625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:54 +0000
Subject: [PATCH 011/107] fix: bound bech32 decoding by the longest and
 shortest possible string

---
 src/bech32.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/bech32.c b/src/bech32.c
index 5bb58d9..67117df 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -9,6 +9,8 @@
 
 const char BECH32_CHARSET[33] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
 
+#define BECH32_MAX_LEN 90
+
 const uint32_t BECH32_GENERATOR[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
 
 uint32_t bech32_polymod(const uint8_t* values, size_t len) {
@@ -156,7 +158,7 @@ nostr_error_t nostr_key_from_bech32(const char* bech32, nostr_key* key) {
     }
     
     size_t len = strlen(bech32);
-    if (len < 8 || len > 90) {
+    if (len < 8 || len > BECH32_MAX_LEN) {
         return NOSTR_ERR_ENCODING;
     }
     
@@ -179,7 +181,7 @@ nostr_error_t nostr_key_from_bech32(const char* bech32, nostr_key* key) {
     strncpy(hrp, bech32, sep);
     hrp[sep] = '\0';
     
-    uint8_t data[84];
+    uint8_t data[BECH32_MAX_LEN];
     for (int i = sep + 1; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
@@ -246,11 +248,11 @@ nostr_error_t nostr_privkey_from_bech32(const char* bech32, nostr_privkey* privk
     }
     
     size_t len = strlen(bech32);
-    if (len < 8 || len > 90) {
+    if (len < 5 + 6 || len > BECH32_MAX_LEN) {
         return NOSTR_ERR_ENCODING;
     }
     
-    uint8_t data[84];
+    uint8_t data[BECH32_MAX_LEN];
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
@@ -317,11 +319,11 @@ nostr_error_t nostr_event_id_from_bech32(const char* bech32, uint8_t* id) {
     }
     
     size_t len = strlen(bech32);
-    if (len < 8 || len > 90) {
+    if (len < 5 + 6 || len > BECH32_MAX_LEN) {
         return NOSTR_ERR_ENCODING;
     }
     
-    uint8_t data[84];
+    uint8_t data[BECH32_MAX_LEN];
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
-- 
2.43.0


From e292afb4891672f35caddb040530a49569253b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:28 +0000
Subject: [PATCH 012/107] fix: refuse bech32 strings whose prefix is not
 lower-case printable ASCII

---
 src/bech32.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bech32.c b/src/bech32.c
index 67117df..35a6c97 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -180,6 +180,12 @@ nostr_error_t nostr_key_from_bech32(const char* bech32, nostr_key* key) {
     }
     strncpy(hrp, bech32, sep);
     hrp[sep] = '\0';
+
+    for (int i = 0; i < sep; i++) {
+        if (hrp[i] < 33 || hrp[i] > 126 || (hrp[i] >= 'A' && hrp[i] <= 'Z')) {
+            return NOSTR_ERR_ENCODING;
+        }
+    }
     
     uint8_t data[BECH32_MAX_LEN];
     for (int i = sep + 1; i < len; i++) {
-- 
2.43.0


From 1501319a9cab253a041a5a8b8e8d7ce4d29ff2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:42 +0000
Subject: [PATCH 013/107] fix: encode naddr with an empty identifier as NIP-19
 requires

---
 src/nip21.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip21.c b/src/nip21.c
index e3e783d..7073140 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -183,7 +183,7 @@ static size_t build_tlv(uint8_t* out, size_t out_size,
                         const uint32_t* kind) {
     size_t pos = 0;
 
-    if (special && special_len > 0) {
+    if (special) {
         if (special_len > 255) return 0;
         if (pos + 2 + special_len > out_size) return 0;
         out[pos++] = TLV_SPECIAL;
-- 
2.43.0


From fe7b97f9ee0cfb0282edcadc8a24dd1ece997d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:27 +0000
Subject: [PATCH 014/107] fix: never drop relays silently when encoding NIP-19
 entities

---
 src/nip21.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/nip21.c b/src/nip21.c
index 7073140..f919d1d 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -12,6 +12,9 @@
 #define TLV_AUTHOR  2
 #define TLV_KIND    3
 
+/* Special, relay, author and kind records, each as long as can be. */
+#define TLV_MAX_LEN ((2 + 255) * (1 + NOSTR_URI_MAX_RELAYS) + (2 + 32) + (2 + 4))
+
 static nostr_error_t decode_bech32_to_bytes(const char* bech32, const char* expected_hrp,
                                             uint8_t* out, size_t out_size, size_t* out_len) {
     if (!bech32 || !out) return NOSTR_ERR_INVALID_PARAM;
@@ -197,7 +200,7 @@ static size_t build_tlv(uint8_t* out, size_t out_size,
             relay_count = NOSTR_URI_MAX_RELAYS;
         for (size_t i = 0; i < relay_count && relays[i]; i++) {
             size_t rlen = strlen(relays[i]);
-            if (rlen > 255 || pos + 2 + rlen > out_size) continue;
+            if (rlen > 255 || pos + 2 + rlen > out_size) return 0;
             out[pos++] = TLV_RELAY;
             out[pos++] = (uint8_t)rlen;
             memcpy(out + pos, relays[i], rlen);
@@ -229,7 +232,7 @@ static size_t build_tlv(uint8_t* out, size_t out_size,
 nostr_error_t nostr_nprofile_encode(const nostr_nprofile* profile, char* bech32, size_t bech32_size) {
     if (!profile || !bech32) return NOSTR_ERR_INVALID_PARAM;
 
-    uint8_t tlv[4096];
+    uint8_t tlv[TLV_MAX_LEN];
     size_t tlv_len = build_tlv(tlv, sizeof(tlv),
                                profile->pubkey.data, 32,
                                profile->relays, profile->relay_count,
@@ -244,7 +247,7 @@ nostr_error_t nostr_nprofile_decode(const char* bech32, nostr_nprofile* profile)
 
     memset(profile, 0, sizeof(nostr_nprofile));
 
-    uint8_t data[4096];
+    uint8_t data[TLV_MAX_LEN];
     size_t data_len;
     nostr_error_t err = decode_bech32_to_bytes(bech32, "nprofile", data, sizeof(data), &data_len);
     if (err != NOSTR_OK) return err;
@@ -279,7 +282,7 @@ void nostr_nprofile_free(nostr_nprofile* profile) {
 nostr_error_t nostr_nevent_encode(const nostr_nevent* nevent, char* bech32, size_t bech32_size) {
     if (!nevent || !bech32) return NOSTR_ERR_INVALID_PARAM;
 
-    uint8_t tlv[4096];
+    uint8_t tlv[TLV_MAX_LEN];
     size_t tlv_len = build_tlv(tlv, sizeof(tlv),
                                nevent->id, 32,
                                nevent->relays, nevent->relay_count,
@@ -295,7 +298,7 @@ nostr_error_t nostr_nevent_decode(const char* bech32, nostr_nevent* nevent) {
 
     memset(nevent, 0, sizeof(nostr_nevent));
 
-    uint8_t data[4096];
+    uint8_t data[TLV_MAX_LEN];
     size_t data_len;
     nostr_error_t err = decode_bech32_to_bytes(bech32, "nevent", data, sizeof(data), &data_len);
     if (err != NOSTR_OK) return err;
@@ -323,7 +326,7 @@ void nostr_nevent_free(nostr_nevent* nevent) {
 nostr_error_t nostr_naddr_encode(const nostr_naddr* addr, char* bech32, size_t bech32_size) {
     if (!addr || !bech32) return NOSTR_ERR_INVALID_PARAM;
 
-    uint8_t tlv[4096];
+    uint8_t tlv[TLV_MAX_LEN];
     size_t id_len = strnlen(addr->identifier, NOSTR_URI_MAX_IDENTIFIER_LEN);
     size_t tlv_len = build_tlv(tlv, sizeof(tlv),
                                (const uint8_t*)addr->identifier, id_len,
@@ -339,7 +342,7 @@ nostr_error_t nostr_naddr_decode(const char* bech32, nostr_naddr* addr) {
 
     memset(addr, 0, sizeof(nostr_naddr));
 
-    uint8_t data[4096];
+    uint8_t data[TLV_MAX_LEN];
     size_t data_len;
     nostr_error_t err = decode_bech32_to_bytes(bech32, "naddr", data, sizeof(data), &data_len);
     if (err != NOSTR_OK) return err;
-- 
2.43.0


From e8cdeb0510c83f9b164129c772dca7e882ead151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:37 +0000
Subject: [PATCH 015/107] fix: match tag filters against every tag of an event

---
 src/relay_filter.c | 60 ++++++++++++++++------------------------------
 1 file changed, 21 insertions(+), 39 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index 6ef4301..6f82d5e 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -343,6 +343,23 @@ static bool hex_starts_with(const char* hex, size_t hex_len, const char* prefix)
     return strncmp(hex, prefix, prefix_len) == 0;
 }
 
+/* Looks at every tag of the event: contact lists have more tags than a filter may have values. */
+static bool has_tag_with_value(const nostr_event* event, const char* tag_name, char** values, size_t values_count)
+{
+    for (size_t i = 0; event->tags && i < event->tags_count; i++) {
+        const nostr_tag* tag = &event->tags[i];
+        if (tag->count < 2 || !tag->values[0] || !tag->values[1] || strcmp(tag->values[0], tag_name) != 0) {
+            continue;
+        }
+        for (size_t j = 0; j < values_count; j++) {
+            if (strcmp(tag->values[1], values[j]) == 0) {
+                return true;
+            }
+        }
+    }
+    return false;
+}
+
 bool nostr_filter_matches(const nostr_filter_t* filter, const nostr_event* event)
 {
     if (!filter || !event) return false;
@@ -393,53 +410,18 @@ bool nostr_filter_matches(const nostr_filter_t* filter, const nostr_event* event
     }
 
     if (filter->e_tags_count > 0) {
-        bool matched = false;
-        const char* e_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t e_count = nostr_event_get_tag_values(event, "e", e_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
-        for (size_t i = 0; i < filter->e_tags_count && !matched; i++) {
-            for (size_t j = 0; j < e_count; j++) {
-                if (e_values[j] && strcmp(e_values[j], filter->e_tags[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
-        }
-        if (!matched) return false;
+        if (!has_tag_with_value(event, "e", filter->e_tags, filter->e_tags_count)) return false;
     }
 
     if (filter->p_tags_count > 0) {
-        bool matched = false;
-        const char* p_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t p_count = nostr_event_get_tag_values(event, "p", p_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
-        for (size_t i = 0; i < filter->p_tags_count && !matched; i++) {
-            for (size_t j = 0; j < p_count; j++) {
-                if (p_values[j] && strcmp(p_values[j], filter->p_tags[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
-        }
-        if (!matched) return false;
+        if (!has_tag_with_value(event, "p", filter->p_tags, filter->p_tags_count)) return false;
     }
 
     for (size_t t = 0; t < filter->generic_tags_count; t++) {
         char tag_name[2] = { filter->generic_tags[t].tag_name, '\0' };
 
-        const char* tag_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t tag_count = nostr_event_get_tag_values(event, tag_name, tag_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
-        bool matched = false;
-        for (size_t i = 0; i < filter->generic_tags[t].values_count && !matched; i++) {
-            for (size_t j = 0; j < tag_count; j++) {
-                if (tag_values[j] && strcmp(tag_values[j], filter->generic_tags[t].values[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
-        }
-        if (!matched) return false;
+        if (!has_tag_with_value(event, tag_name, filter->generic_tags[t].values,
+                                filter->generic_tags[t].values_count)) return false;
     }
 
     return true;
-- 
2.43.0


From 1d786aaf8996925a1c8470ffa691166aead3eff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:01 +0000
Subject: [PATCH 016/107] fix: tell upper- and lower-case filter keys apart

---
 src/relay_filter.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index 6f82d5e..a55f8f6 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -110,19 +110,19 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
 
     nostr_relay_error_t err;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "ids"), &filter->ids, &filter->ids_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "ids"), &filter->ids, &filter->ids_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "authors"), &filter->authors, &filter->authors_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "authors"), &filter->authors, &filter->authors_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_int_array(cJSON_GetObjectItem(root, "kinds"), &filter->kinds, &filter->kinds_count);
+    err = parse_int_array(cJSON_GetObjectItemCaseSensitive(root, "kinds"), &filter->kinds, &filter->kinds_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "#e"), &filter->e_tags, &filter->e_tags_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "#e"), &filter->e_tags, &filter->e_tags_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "#p"), &filter->p_tags, &filter->p_tags_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "#p"), &filter->p_tags, &filter->p_tags_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
     size_t generic_count = 0;
@@ -167,22 +167,22 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
         filter->generic_tags_count = generic_count;
     }
 
-    cJSON* since = cJSON_GetObjectItem(root, "since");
+    cJSON* since = cJSON_GetObjectItemCaseSensitive(root, "since");
     if (since && cJSON_IsNumber(since)) {
         filter->since = (int64_t)since->valuedouble;
     }
 
-    cJSON* until = cJSON_GetObjectItem(root, "until");
+    cJSON* until = cJSON_GetObjectItemCaseSensitive(root, "until");
     if (until && cJSON_IsNumber(until)) {
         filter->until = (int64_t)until->valuedouble;
     }
 
-    cJSON* limit = cJSON_GetObjectItem(root, "limit");
+    cJSON* limit = cJSON_GetObjectItemCaseSensitive(root, "limit");
     if (limit && cJSON_IsNumber(limit)) {
         filter->limit = limit->valueint;
     }
 
-    cJSON* search = cJSON_GetObjectItem(root, "search");
+    cJSON* search = cJSON_GetObjectItemCaseSensitive(root, "search");
     if (search && cJSON_IsString(search) && search->valuestring) {
         if (strlen(search->valuestring) > NOSTR_DEFAULT_MAX_CONTENT_LENGTH) {
             err = NOSTR_RELAY_ERR_INVALID_JSON;
-- 
2.43.0


From 64f89cf0d42237090d2a2566764f87364af32f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:01 +0000
Subject: [PATCH 017/107] fix: refuse filters that are not objects or have
 ill-typed members

---
 src/relay_filter.c | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index a55f8f6..bb37298 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -17,7 +17,11 @@
 
 static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_t* out_count)
 {
-    if (!arr || !cJSON_IsArray(arr)) {
+    if (arr && !cJSON_IsArray(arr) && !cJSON_IsNull(arr)) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
+    if (!arr || cJSON_IsNull(arr)) {
         *out_arr = NULL;
         *out_count = 0;
         return NOSTR_RELAY_OK;
@@ -34,6 +38,12 @@ static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
+    for (int i = 0; i < count; i++) {
+        if (!cJSON_IsString(cJSON_GetArrayItem(arr, i))) {
+            return NOSTR_RELAY_ERR_INVALID_JSON;
+        }
+    }
+
     *out_arr = calloc((size_t)count, sizeof(char*));
     if (!*out_arr) {
         return NOSTR_RELAY_ERR_MEMORY;
@@ -62,7 +72,11 @@ static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_
 
 static nostr_relay_error_t parse_int_array(cJSON* arr, int32_t** out_arr, size_t* out_count)
 {
-    if (!arr || !cJSON_IsArray(arr)) {
+    if (arr && !cJSON_IsArray(arr) && !cJSON_IsNull(arr)) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
+    if (!arr || cJSON_IsNull(arr)) {
         *out_arr = NULL;
         *out_count = 0;
         return NOSTR_RELAY_OK;
@@ -79,6 +93,13 @@ static nostr_relay_error_t parse_int_array(cJSON* arr, int32_t** out_arr, size_t
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
+    for (int i = 0; i < count; i++) {
+        cJSON* item = cJSON_GetArrayItem(arr, i);
+        if (!cJSON_IsNumber(item) || item->valuedouble != (double)item->valueint) {
+            return NOSTR_RELAY_ERR_INVALID_JSON;
+        }
+    }
+
     *out_arr = calloc((size_t)count, sizeof(int32_t));
     if (!*out_arr) {
         return NOSTR_RELAY_ERR_MEMORY;
@@ -104,7 +125,8 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
     memset(filter, 0, sizeof(nostr_filter_t));
 
     cJSON* root = (json_len > 0) ? cJSON_ParseWithLength(json, json_len) : cJSON_Parse(json);
-    if (!root) {
+    if (!cJSON_IsObject(root)) {
+        cJSON_Delete(root);
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
@@ -168,16 +190,28 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
     }
 
     cJSON* since = cJSON_GetObjectItemCaseSensitive(root, "since");
+    if (since && !cJSON_IsNumber(since) && !cJSON_IsNull(since)) {
+        err = NOSTR_RELAY_ERR_INVALID_JSON;
+        goto cleanup;
+    }
     if (since && cJSON_IsNumber(since)) {
         filter->since = (int64_t)since->valuedouble;
     }
 
     cJSON* until = cJSON_GetObjectItemCaseSensitive(root, "until");
+    if (until && !cJSON_IsNumber(until) && !cJSON_IsNull(until)) {
+        err = NOSTR_RELAY_ERR_INVALID_JSON;
+        goto cleanup;
+    }
     if (until && cJSON_IsNumber(until)) {
         filter->until = (int64_t)until->valuedouble;
     }
 
     cJSON* limit = cJSON_GetObjectItemCaseSensitive(root, "limit");
+    if (limit && !cJSON_IsNumber(limit) && !cJSON_IsNull(limit)) {
+        err = NOSTR_RELAY_ERR_INVALID_JSON;
+        goto cleanup;
+    }
     if (limit && cJSON_IsNumber(limit)) {
         filter->limit = limit->valueint;
     }
-- 
2.43.0


From 043ece88f67abbfa9de2920a3e199f5cbddf382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:01 +0000
Subject: [PATCH 018/107] fix: keep filter timestamps beyond the int64 range at
 its ends

---
 src/relay_filter.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index bb37298..c59ec72 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -116,6 +116,13 @@ static nostr_relay_error_t parse_int_array(cJSON* arr, int32_t** out_arr, size_t
     return NOSTR_RELAY_OK;
 }
 
+static int64_t clamp_timestamp(double value)
+{
+    if (value >= 9223372036854775808.0) return INT64_MAX;
+    if (value <= -9223372036854775808.0) return INT64_MIN;
+    return (int64_t)value;
+}
+
 nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_filter_t* filter)
 {
     if (!json || !filter) {
@@ -195,7 +202,7 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
         goto cleanup;
     }
     if (since && cJSON_IsNumber(since)) {
-        filter->since = (int64_t)since->valuedouble;
+        filter->since = clamp_timestamp(since->valuedouble);
     }
 
     cJSON* until = cJSON_GetObjectItemCaseSensitive(root, "until");
@@ -204,7 +211,7 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
         goto cleanup;
     }
     if (until && cJSON_IsNumber(until)) {
-        filter->until = (int64_t)until->valuedouble;
+        filter->until = clamp_timestamp(until->valuedouble);
     }
 
     cJSON* limit = cJSON_GetObjectItemCaseSensitive(root, "limit");
-- 
2.43.0


From 02f5e4b16f47e8d5a3abc602bda70c17ac9964c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:56 +0000
Subject: [PATCH 019/107] fix: keep timestamps of parsed client messages exact

---
 src/relay_message.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/relay_message.c b/src/relay_message.c
index 9a8ff3a..90fe88a 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -6,6 +6,8 @@
 #include "../include/nostr_relay_protocol.h"
 #include <stdlib.h>
 #include <string.h>
+#include <stdio.h>
+#include <inttypes.h>
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
@@ -13,6 +15,26 @@
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 
+/* cJSON prints only 15 digits of larger integers; print the timestamp itself so that it survives. */
+static bool keep_timestamp_exact(cJSON* object, const char* name)
+{
+    const double max_safe_integer = 9007199254740991.0;
+    cJSON* item = cJSON_GetObjectItemCaseSensitive(object, name);
+    if (!cJSON_IsNumber(item) || item->valuedouble > max_safe_integer || item->valuedouble < -max_safe_integer ||
+        item->valuedouble != (double)(int64_t)item->valuedouble) {
+        return true;
+    }
+
+    char text[24];
+    snprintf(text, sizeof(text), "%" PRId64, (int64_t)item->valuedouble);
+    cJSON* exact = cJSON_CreateRaw(text);
+    if (!exact || !cJSON_ReplaceItemInObjectCaseSensitive(object, name, exact)) {
+        cJSON_Delete(exact);
+        return false;
+    }
+    return true;
+}
+
 static nostr_relay_error_t parse_filters(cJSON* root, int start_idx, int arr_size,
                                           nostr_filter_t** out_filters, size_t* out_count)
 {
@@ -35,7 +57,10 @@ static nostr_relay_error_t parse_filters(cJSON* root, int start_idx, int arr_siz
     *out_count = 0;
     for (int i = start_idx; i < arr_size; i++) {
         cJSON* filter_json = cJSON_GetArrayItem(root, i);
-        char* filter_str = cJSON_PrintUnformatted(filter_json);
+        char* filter_str = NULL;
+        if (keep_timestamp_exact(filter_json, "since") && keep_timestamp_exact(filter_json, "until")) {
+            filter_str = cJSON_PrintUnformatted(filter_json);
+        }
         if (!filter_str) {
             for (size_t j = 0; j < *out_count; j++) {
                 nostr_filter_free(&(*out_filters)[j]);
@@ -115,7 +140,7 @@ nostr_relay_error_t nostr_client_msg_parse(const char* json, size_t json_len, no
         }
 
         cJSON* event_json = cJSON_GetArrayItem(root, 1);
-        char* event_str = cJSON_PrintUnformatted(event_json);
+        char* event_str = keep_timestamp_exact(event_json, "created_at") ? cJSON_PrintUnformatted(event_json) : NULL;
         if (!event_str) {
             cJSON_Delete(root);
             return NOSTR_RELAY_ERR_MEMORY;
@@ -189,7 +214,7 @@ nostr_relay_error_t nostr_client_msg_parse(const char* json, size_t json_len, no
         }
 
         cJSON* event_json = cJSON_GetArrayItem(root, 1);
-        char* event_str = cJSON_PrintUnformatted(event_json);
+        char* event_str = keep_timestamp_exact(event_json, "created_at") ? cJSON_PrintUnformatted(event_json) : NULL;
         if (!event_str) {
             cJSON_Delete(root);
             return NOSTR_RELAY_ERR_MEMORY;
-- 
2.43.0


From d9446e6f781a04d5e88d386ec54cf4be506983fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:56 +0000
Subject: [PATCH 020/107] fix: do not cut UTF-8 characters when shortening
 relay messages

---
 src/relay_message.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/relay_message.c b/src/relay_message.c
index 90fe88a..9f4a370 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -319,6 +319,20 @@ void nostr_client_msg_free(nostr_client_msg_t* msg)
     memset(msg, 0, sizeof(nostr_client_msg_t));
 }
 
+/* Copies at most max bytes without cutting a UTF-8 character in two. */
+static void copy_text(char* dst, const char* src, size_t max)
+{
+    size_t len = strlen(src);
+    if (len > max) {
+        len = max;
+        while (len > 0 && ((unsigned char)src[len] & 0xC0) == 0x80) {
+            len--;
+        }
+    }
+    memcpy(dst, src, len);
+    dst[len] = '\0';
+}
+
 void nostr_relay_msg_event(nostr_relay_msg_t* msg, const char* sub_id, const nostr_event* event)
 {
     if (!msg) return;
@@ -342,8 +356,7 @@ void nostr_relay_msg_ok(nostr_relay_msg_t* msg, const char* event_id, bool succe
     }
     msg->data.ok.success = success;
     if (message) {
-        strncpy(msg->data.ok.message, message, 255);
-        msg->data.ok.message[255] = '\0';
+        copy_text(msg->data.ok.message, message, 255);
     }
 }
 
@@ -368,8 +381,7 @@ void nostr_relay_msg_closed(nostr_relay_msg_t* msg, const char* sub_id, const ch
         msg->data.closed.subscription_id[64] = '\0';
     }
     if (message) {
-        strncpy(msg->data.closed.message, message, 255);
-        msg->data.closed.message[255] = '\0';
+        copy_text(msg->data.closed.message, message, 255);
     }
 }
 
@@ -379,8 +391,7 @@ void nostr_relay_msg_notice(nostr_relay_msg_t* msg, const char* message)
     memset(msg, 0, sizeof(nostr_relay_msg_t));
     msg->type = NOSTR_RELAY_MSG_NOTICE;
     if (message) {
-        strncpy(msg->data.notice.message, message, 255);
-        msg->data.notice.message[255] = '\0';
+        copy_text(msg->data.notice.message, message, 255);
     }
 }
 
@@ -390,8 +401,7 @@ void nostr_relay_msg_auth(nostr_relay_msg_t* msg, const char* challenge)
     memset(msg, 0, sizeof(nostr_relay_msg_t));
     msg->type = NOSTR_RELAY_MSG_AUTH;
     if (challenge) {
-        strncpy(msg->data.auth.challenge, challenge, 127);
-        msg->data.auth.challenge[127] = '\0';
+        copy_text(msg->data.auth.challenge, challenge, 127);
     }
 }
 
-- 
2.43.0


From be9ee818ba384d3f3cfdd83579587dcb66bffa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:52 +0000
Subject: [PATCH 021/107] fix: serialize event timestamps and counts of relay
 messages exactly

---
 src/relay_message.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/relay_message.c b/src/relay_message.c
index 9f4a370..241b78b 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -445,7 +445,7 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
-            cJSON* event_obj = cJSON_Parse(event_json);
+            cJSON* event_obj = cJSON_CreateRaw(event_json);
             free(event_json);
             if (!event_obj) {
                 cJSON_Delete(root);
@@ -491,7 +491,9 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
-            cJSON_AddNumberToObject(count_obj, "count", (double)msg->data.count.count);
+            char count_text[24];
+            snprintf(count_text, sizeof(count_text), "%" PRId64, msg->data.count.count);
+            cJSON_AddRawToObject(count_obj, "count", count_text);
             if (msg->data.count.approximate) {
                 cJSON_AddBoolToObject(count_obj, "approximate", cJSON_True);
             }
-- 
2.43.0


From 7bb2a9cbd32aa48579680ced0d28460c7ee1fdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:52 +0000
Subject: [PATCH 022/107] fix: accept any timestamp when the future limit
 overflows

---
 src/relay_protocol.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 97c29d3..9a88394 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -109,6 +109,9 @@ bool nostr_validate_subscription_id(const char* sub_id)
 bool nostr_validate_timestamp(int64_t timestamp, int64_t max_future_seconds)
 {
     int64_t now = nostr_timestamp_now();
+    if (max_future_seconds > INT64_MAX - now) {
+        return true;
+    }
     return timestamp <= (now + max_future_seconds);
 }
 
-- 
2.43.0


From f7d49f9cd705187ae4565d3795c9c6b0d7efc4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:52 +0000
Subject: [PATCH 023/107] fix: authorize deletion by address whatever the
 d-tag's length

---
 src/relay_protocol.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 9a88394..06a934b 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -680,15 +680,14 @@ bool nostr_deletion_authorized_address(const nostr_deletion_request_t* request,
         d_tag = "";
     }
 
-    char target_address[256];
-    int written = snprintf(target_address, sizeof(target_address), "%d:%s:%s",
-                          target_event->kind, target_pubkey, d_tag);
-    if (written < 0 || (size_t)written >= sizeof(target_address)) {
-        return false;
-    }
+    /* The d-tag may be of any length, so compare it apart from the rest of the address. */
+    char address_prefix[96];
+    snprintf(address_prefix, sizeof(address_prefix), "%d:%s:", target_event->kind, target_pubkey);
+    size_t prefix_len = strlen(address_prefix);
 
     for (size_t i = 0; i < request->addresses_count; i++) {
-        if (strcmp(request->addresses[i], target_address) == 0) {
+        if (strncmp(request->addresses[i], address_prefix, prefix_len) == 0 &&
+            strcmp(request->addresses[i] + prefix_len, d_tag) == 0) {
             return true;
         }
     }
-- 
2.43.0


From b0df9f8fdfb2423bad3b53d89960f6b320c60910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:37 +0000
Subject: [PATCH 024/107] fix: refuse filters whose search member is not a
 string

---
 src/relay_filter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index c59ec72..c65400d 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -224,6 +224,10 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
     }
 
     cJSON* search = cJSON_GetObjectItemCaseSensitive(root, "search");
+    if (search && !cJSON_IsString(search) && !cJSON_IsNull(search)) {
+        err = NOSTR_RELAY_ERR_INVALID_JSON;
+        goto cleanup;
+    }
     if (search && cJSON_IsString(search) && search->valuestring) {
         if (strlen(search->valuestring) > NOSTR_DEFAULT_MAX_CONTENT_LENGTH) {
             err = NOSTR_RELAY_ERR_INVALID_JSON;
-- 
2.43.0


From 34c83720931c239097c4bb2720544e3c0a0d5057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:37 +0000
Subject: [PATCH 025/107] fix: let nostr_relay_info_set_nips take a part of the
 current list

---
 src/relay_nip11.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/relay_nip11.c b/src/relay_nip11.c
index 46e8e77..9951a8d 100644
--- a/src/relay_nip11.c
+++ b/src/relay_nip11.c
@@ -46,20 +46,24 @@ nostr_relay_error_t nostr_relay_info_set_nips(nostr_relay_info_t* info, const in
         return NOSTR_RELAY_ERR_MISSING_FIELD;
     }
 
-    free(info->supported_nips);
-    info->supported_nips = NULL;
-    info->supported_nips_count = 0;
-
     if (count == 0 || !nips) {
+        free(info->supported_nips);
+        info->supported_nips = NULL;
+        info->supported_nips_count = 0;
         return NOSTR_RELAY_OK;
     }
 
+    if (count > SIZE_MAX / sizeof(int32_t)) {
+        return NOSTR_RELAY_ERR_MEMORY;
+    }
     int32_t* copy = malloc(count * sizeof(int32_t));
     if (!copy) {
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
+    /* nips may be part of the list that is replaced. */
     memcpy(copy, nips, count * sizeof(int32_t));
+    free(info->supported_nips);
     info->supported_nips = copy;
     info->supported_nips_count = count;
     return NOSTR_RELAY_OK;
-- 
2.43.0


From 23d9a66dce3710066b734fadd40137ade1bf3f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:23 +0000
Subject: [PATCH 026/107] fix: look up NIP-05 names and relays as members of
 their own objects

---
 src/nip05.c | 66 ++++++++++++++++++++++++++---------------------------
 1 file changed, 32 insertions(+), 34 deletions(-)

diff --git a/src/nip05.c b/src/nip05.c
index b6438bb..37c24e5 100644
--- a/src/nip05.c
+++ b/src/nip05.c
@@ -52,9 +52,8 @@ static int is_valid_domain(const char* s, size_t len) {
     return has_dot;
 }
 
-static const char* skip_ws_and_colon(const char* p) {
-    if (!p) return p;
-    while (*p == ' ' || *p == ':' || *p == '\n' || *p == '\t' || *p == '\r') p++;
+static const char* skip_ws(const char* p) {
+    while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++;
     return p;
 }
 
@@ -70,19 +69,32 @@ static int is_escaped_quote(const char* json, const char* p) {
     return backslashes % 2 == 1;
 }
 
-static const char* json_strstr(const char* json, const char* needle) {
-    if (!json || !needle) return NULL;
-
-    int in_string = 0;
-    size_t needle_len = strlen(needle);
-
-    for (const char* p = json; *p; p++) {
-        if (!in_string && strncmp(p, needle, needle_len) == 0) {
-            return p;
-        }
-        if (*p == '"' && !is_escaped_quote(json, p)) {
-            in_string = !in_string;
+/* Returns the value of a member of the object that json starts with (members
+ * of nested objects do not count), or NULL. */
+static const char* find_member(const char* json, const char* key) {
+    if (!json || !key) return NULL;
+
+    size_t key_len = strlen(key);
+    int depth = 0;
+
+    for (const char* p = skip_ws(json); *p; p++) {
+        if (*p == '{' || *p == '[') {
+            depth++;
+        } else if (*p == '}' || *p == ']') {
+            if (--depth <= 0) return NULL;
+        } else if (*p == '"') {
+            const char* start = ++p;
+            while (*p && *p != '"') {
+                if (*p == '\\' && p[1]) p++;
+                p++;
+            }
+            if (!*p) return NULL;
+            if (depth == 1 && (size_t)(p - start) == key_len && memcmp(start, key, key_len) == 0) {
+                const char* value = skip_ws(p + 1);
+                if (*value == ':') return skip_ws(value + 1);
+            }
         }
+        if (depth == 0) return NULL;
     }
     return NULL;
 }
@@ -180,19 +192,12 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
         if (name[i] == '"' || name[i] == '\\') return NOSTR_ERR_INVALID_PARAM;
     }
 
-    const char* names_pos = json_strstr(json, "\"names\"");
+    const char* names_pos = find_member(json, "names");
     if (!names_pos) return NOSTR_ERR_NOT_FOUND;
-
-    names_pos = skip_ws_and_colon(names_pos + 7);
     if (*names_pos != '{') return NOSTR_ERR_JSON_PARSE;
 
-    char search_name[NIP05_MAX_NAME_LEN + 4];
-    snprintf(search_name, sizeof(search_name), "\"%s\"", name);
-
-    const char* name_pos = json_strstr(names_pos, search_name);
+    const char* name_pos = find_member(names_pos, name);
     if (!name_pos) return NOSTR_ERR_NOT_FOUND;
-
-    name_pos = skip_ws_and_colon(name_pos + strlen(search_name));
     if (*name_pos != '"') return NOSTR_ERR_JSON_PARSE;
     name_pos++;
 
@@ -208,26 +213,19 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
 
     if (!relays || !relay_count) return NOSTR_OK;
 
-    const char* relays_pos = json_strstr(json, "\"relays\"");
+    const char* relays_pos = find_member(json, "relays");
     if (!relays_pos) return NOSTR_OK;
-
-    relays_pos = skip_ws_and_colon(relays_pos + 8);
     if (*relays_pos != '{') return NOSTR_OK;
 
-    char pubkey_search[68];
-    snprintf(pubkey_search, sizeof(pubkey_search), "\"%s\"", pubkey_hex);
-
-    const char* pubkey_relays = json_strstr(relays_pos, pubkey_search);
+    const char* pubkey_relays = find_member(relays_pos, pubkey_hex);
     if (!pubkey_relays) return NOSTR_OK;
-
-    pubkey_relays = skip_ws_and_colon(pubkey_relays + strlen(pubkey_search));
     if (*pubkey_relays != '[') return NOSTR_OK;
     pubkey_relays++;
 
     size_t count = 0;
     const char* p = pubkey_relays;
     int in_string = 0;
-    while (*p && *p != ']') {
+    while (*p && (in_string || *p != ']')) {
         if (*p == '"' && !is_escaped_quote(pubkey_relays, p)) {
             in_string = !in_string;
             if (!in_string) count++;
-- 
2.43.0


From 58ccc440efaa4d85edd196e80f412e9fb9b30fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:23 +0000
Subject: [PATCH 027/107] fix: read NIP-05 relay URLs whose slashes are escaped

---
 src/nip05.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/nip05.c b/src/nip05.c
index 37c24e5..da53b19 100644
--- a/src/nip05.c
+++ b/src/nip05.c
@@ -251,19 +251,24 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
         if (*p != '"') break;
 
         size_t relay_len = p - relay_start;
-        if (!is_valid_relay_url(relay_start, relay_len)) {
-            p++;
-            continue;
-        }
-        relay_array[idx] = malloc(relay_len + 1);
-        if (!relay_array[idx]) {
+        char* relay = malloc(relay_len + 1);
+        if (!relay) {
             nostr_nip05_free_relays(relay_array, idx);
             return NOSTR_ERR_MEMORY;
         }
-        memcpy(relay_array[idx], relay_start, relay_len);
-        relay_array[idx][relay_len] = '\0';
-        idx++;
+        /* Slashes may be escaped in JSON. */
+        size_t len = 0;
+        for (size_t i = 0; i < relay_len; i++) {
+            if (relay_start[i] == '\\' && i + 1 < relay_len && relay_start[i + 1] == '/') i++;
+            relay[len++] = relay_start[i];
+        }
+        relay[len] = '\0';
         p++;
+        if (!is_valid_relay_url(relay, len)) {
+            free(relay);
+            continue;
+        }
+        relay_array[idx++] = relay;
     }
 
     *relays = relay_array;
-- 
2.43.0


From c654a27b838ce5da0f649e99a076debe9eb4350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:23 +0000
Subject: [PATCH 028/107] fix: report the relay hint of the reposted event only

---
 src/nip18.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nip18.c b/src/nip18.c
index 593fdaf..ecbb64c 100644
--- a/src/nip18.c
+++ b/src/nip18.c
@@ -143,8 +143,7 @@ nostr_error_t nostr_repost_parse(const nostr_event* event, char* reposted_event_
 
         if (strcmp(name, "e") == 0) {
             found_e_id = value;
-            if (tag->count >= 3 && tag->values[2])
-                found_relay = tag->values[2];
+            found_relay = (tag->count >= 3) ? tag->values[2] : NULL;
         } else if (strcmp(name, "p") == 0) {
             found_p_key = value;
         } else if (strcmp(name, "k") == 0) {
-- 
2.43.0


From 0680a059632a0492412e539458e60d25ba1a1753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:23 +0000
Subject: [PATCH 029/107] fix: do not write past a nonce tag that has no value

---
 src/nip13.c | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/src/nip13.c b/src/nip13.c
index b2cfc3c..b34ce88 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -160,33 +160,23 @@ nostr_error_t nostr_nip13_add_nonce_tag(nostr_event* event, uint64_t nonce_value
         // Update existing nonce tag
         // Note: Old strings remain in arena (can't be individually freed) but will be
         // cleaned up when the event is destroyed. This is acceptable for mining workloads.
-        char* new_nonce = arena_strdup(event, nonce_str);
-        if (!new_nonce) {
+        // Reserve room for everything first, so that the tag is never left half updated
+        if (arena_ensure_capacity(event, 3 * sizeof(char*) + sizeof(nonce_str) + sizeof(target_str)) != 0) {
             return NOSTR_ERR_MEMORY;
         }
-        event->tags[nonce_idx].values[1] = new_nonce;
 
-        if (target_difficulty > 0) {
-            if (event->tags[nonce_idx].count < 3) {
-                // Need to expand values array - allocate new array from arena
-                size_t new_values_size = 3 * sizeof(char*);
-                if (arena_ensure_capacity(event, new_values_size) != 0) {
-                    return NOSTR_ERR_MEMORY;
-                }
-                char** new_values = (char**)((char*)event->tag_arena->memory + event->tag_arena->used);
-                event->tag_arena->used += new_values_size;
-                new_values[0] = event->tags[nonce_idx].values[0];
-                new_values[1] = event->tags[nonce_idx].values[1];
-                new_values[2] = NULL;
-                event->tags[nonce_idx].values = new_values;
-                event->tags[nonce_idx].count = 3;
-            }
+        if (event->tags[nonce_idx].count < count) {
+            // Need to expand values array - allocate new array from arena
+            char** new_values = (char**)((char*)event->tag_arena->memory + event->tag_arena->used);
+            event->tag_arena->used += count * sizeof(char*);
+            new_values[0] = event->tags[nonce_idx].values[0];
+            event->tags[nonce_idx].values = new_values;
+            event->tags[nonce_idx].count = count;
+        }
 
-            char* new_target = arena_strdup(event, target_str);
-            if (!new_target) {
-                return NOSTR_ERR_MEMORY;
-            }
-            event->tags[nonce_idx].values[2] = new_target;
+        event->tags[nonce_idx].values[1] = arena_strdup(event, nonce_str);
+        if (target_difficulty > 0) {
+            event->tags[nonce_idx].values[2] = arena_strdup(event, target_str);
         } else {
             event->tags[nonce_idx].count = 2;
         }
-- 
2.43.0


From c0d70466ac40d738a74d1d6db96dff489ca41bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:23 +0000
Subject: [PATCH 030/107] fix: enforce committed difficulties beyond the int
 range

---
 src/nip13.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip13.c b/src/nip13.c
index b34ce88..729ab62 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -259,7 +259,7 @@ nostr_error_t nostr_nip13_verify_pow(const nostr_event* event, int min_difficult
     }
     
     if (event->tags[nonce_idx].count >= 3 && event->tags[nonce_idx].values[2]) {
-        int committed_difficulty = atoi(event->tags[nonce_idx].values[2]);
+        long committed_difficulty = strtol(event->tags[nonce_idx].values[2], NULL, 10);
         if (committed_difficulty > 0 && difficulty < committed_difficulty) {
             return NOSTR_ERR_INVALID_EVENT;
         }
-- 
2.43.0


From 0b1e5173b519bce09f3714bd5b8fd006bbfa40b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:47 +0000
Subject: [PATCH 031/107] fix: refuse malformed numbers and separators in
 delegation conditions

---
 src/nip26.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/nip26.c b/src/nip26.c
index 269412f..1e9ecd4 100644
--- a/src/nip26.c
+++ b/src/nip26.c
@@ -76,6 +76,11 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
     int parsed = 0;
 
     while (*p) {
+        if (parsed > 0 && *p != '&') {
+            cleanup_conditions(out);
+            return 0;
+        }
+
         if (++iterations > NIP26_MAX_CONDITIONS) {
             cleanup_conditions(out);
             return 0;
@@ -92,7 +97,7 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
             char *endptr;
             errno = 0;
             unsigned long val = strtoul(p, &endptr, 10);
-            if (errno != 0 || endptr == p || val > UINT16_MAX) {
+            if (errno != 0 || !isdigit((unsigned char)*p) || val > UINT16_MAX) {
                 cleanup_conditions(out);
                 return 0;
             }
@@ -117,7 +122,7 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
             char *endptr;
             errno = 0;
             long long val = strtoll(p, &endptr, 10);
-            if (errno != 0 || endptr == p) {
+            if (errno != 0 || !isdigit((unsigned char)*p)) {
                 cleanup_conditions(out);
                 return 0;
             }
@@ -131,7 +136,7 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
             char *endptr;
             errno = 0;
             long long val = strtoll(p, &endptr, 10);
-            if (errno != 0 || endptr == p) {
+            if (errno != 0 || !isdigit((unsigned char)*p)) {
                 cleanup_conditions(out);
                 return 0;
             }
-- 
2.43.0


From f6843dbe62892af784bab9b2de4cc29dd3c23442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:48 +0000
Subject: [PATCH 032/107] fix: enforce every created_at condition of a
 delegation

---
 src/nip26.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nip26.c b/src/nip26.c
index 1e9ecd4..4f7821f 100644
--- a/src/nip26.c
+++ b/src/nip26.c
@@ -126,7 +126,8 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
                 cleanup_conditions(out);
                 return 0;
             }
-            out->created_after = (int64_t)val;
+            if (!out->has_created_after || val > out->created_after)
+                out->created_after = (int64_t)val;
             out->has_created_after = 1;
             p = endptr;
             parsed++;
@@ -140,7 +141,8 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
                 cleanup_conditions(out);
                 return 0;
             }
-            out->created_before = (int64_t)val;
+            if (!out->has_created_before || val < out->created_before)
+                out->created_before = (int64_t)val;
             out->has_created_before = 1;
             p = endptr;
             parsed++;
-- 
2.43.0


From 8b888764d7c08814d9cf8b73b61bd16c2c261f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 033/107] fix: serialize 64-bit numbers of relay information
 exactly

---
 src/relay_nip11.c | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/relay_nip11.c b/src/relay_nip11.c
index 9951a8d..4307a93 100644
--- a/src/relay_nip11.c
+++ b/src/relay_nip11.c
@@ -4,6 +4,8 @@
  */
 
 #include "../include/nostr_relay_protocol.h"
+#include <inttypes.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -140,6 +142,21 @@ void nostr_relay_info_free(nostr_relay_info_t* info)
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 
+/* cJSON prints a double with 15 digits where that is close enough for it. */
+static void add_int64(cJSON* obj, const char* name, int64_t value)
+{
+    char number[24];
+    snprintf(number, sizeof(number), "%" PRId64, value);
+    cJSON_AddRawToObject(obj, name, number);
+}
+
+static void add_uint64(cJSON* obj, const char* name, uint64_t value)
+{
+    char number[24];
+    snprintf(number, sizeof(number), "%" PRIu64, value);
+    cJSON_AddRawToObject(obj, name, number);
+}
+
 nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitation_t* limitation,
                                                      char* buf, size_t buf_size, size_t* out_len)
 {
@@ -180,10 +197,10 @@ nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitatio
     cJSON_AddBoolToObject(obj, "payment_required", limitation->payment_required);
     cJSON_AddBoolToObject(obj, "restricted_writes", limitation->restricted_writes);
     if (limitation->created_at_lower_limit > 0) {
-        cJSON_AddNumberToObject(obj, "created_at_lower_limit", (double)limitation->created_at_lower_limit);
+        add_int64(obj, "created_at_lower_limit", limitation->created_at_lower_limit);
     }
     if (limitation->created_at_upper_limit > 0) {
-        cJSON_AddNumberToObject(obj, "created_at_upper_limit", (double)limitation->created_at_upper_limit);
+        add_int64(obj, "created_at_upper_limit", limitation->created_at_upper_limit);
     }
     if (limitation->default_limit > 0) {
         cJSON_AddNumberToObject(obj, "default_limit", limitation->default_limit);
@@ -295,10 +312,10 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
     cJSON_AddBoolToObject(limitation_obj, "payment_required", info->limitation.payment_required);
     cJSON_AddBoolToObject(limitation_obj, "restricted_writes", info->limitation.restricted_writes);
     if (info->limitation.created_at_lower_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "created_at_lower_limit", (double)info->limitation.created_at_lower_limit);
+        add_int64(limitation_obj, "created_at_lower_limit", info->limitation.created_at_lower_limit);
     }
     if (info->limitation.created_at_upper_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "created_at_upper_limit", (double)info->limitation.created_at_upper_limit);
+        add_int64(limitation_obj, "created_at_upper_limit", info->limitation.created_at_upper_limit);
     }
     if (info->limitation.default_limit > 0) {
         cJSON_AddNumberToObject(limitation_obj, "default_limit", info->limitation.default_limit);
@@ -317,7 +334,7 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
                 cJSON_AddItemToObject(ret_obj, "kinds", kinds_arr);
             }
             if (info->retention[i].time != 0) {
-                cJSON_AddNumberToObject(ret_obj, "time", (double)info->retention[i].time);
+                add_int64(ret_obj, "time", info->retention[i].time);
             }
             if (info->retention[i].count > 0) {
                 cJSON_AddNumberToObject(ret_obj, "count", info->retention[i].count);
@@ -368,7 +385,7 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
             cJSON* admission_arr = cJSON_CreateArray();
             for (size_t i = 0; i < info->fees.admission_count; i++) {
                 cJSON* fee_obj = cJSON_CreateObject();
-                cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.admission[i].amount);
+                add_uint64(fee_obj, "amount", info->fees.admission[i].amount);
                 if (info->fees.admission[i].unit) {
                     cJSON_AddStringToObject(fee_obj, "unit", info->fees.admission[i].unit);
                 }
@@ -381,7 +398,7 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
             cJSON* sub_arr = cJSON_CreateArray();
             for (size_t i = 0; i < info->fees.subscription_count; i++) {
                 cJSON* fee_obj = cJSON_CreateObject();
-                cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.subscription[i].amount);
+                add_uint64(fee_obj, "amount", info->fees.subscription[i].amount);
                 if (info->fees.subscription[i].unit) {
                     cJSON_AddStringToObject(fee_obj, "unit", info->fees.subscription[i].unit);
                 }
@@ -404,7 +421,7 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
                     }
                     cJSON_AddItemToObject(fee_obj, "kinds", kinds_arr);
                 }
-                cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.publication[i].amount);
+                add_uint64(fee_obj, "amount", info->fees.publication[i].amount);
                 if (info->fees.publication[i].unit) {
                     cJSON_AddStringToObject(fee_obj, "unit", info->fees.publication[i].unit);
                 }
-- 
2.43.0


From e48a04144e185d6c296d7b79f1074c1fcb7eb71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 034/107] fix: let list metadata be set from its own value

---
 src/nip51.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nip51.c b/src/nip51.c
index 14c992d..d06e83d 100644
--- a/src/nip51.c
+++ b/src/nip51.c
@@ -167,11 +167,12 @@ static nostr_error_t set_string_field(nostr_list* list, char** field, const char
     if (!list) {
         return NOSTR_ERR_INVALID_PARAM;
     }
-    free(*field);
-    *field = value ? strdup(value) : NULL;
-    if (value && !*field) {
+    char* copy = value ? strdup(value) : NULL;
+    if (value && !copy) {
         return NOSTR_ERR_MEMORY;
     }
+    free(*field);
+    *field = copy;
     return NOSTR_OK;
 }
 
-- 
2.43.0


From a1d55636ecec89b6180e2c9b3f8da21f0876edf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:03 +0000
Subject: [PATCH 035/107] fix: derive a child key in place of its parent

---
 src/hd_key.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index 5ffafd6..02fbda5 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -104,7 +104,9 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    memset(child, 0, sizeof(nostr_hd_key));
+    if (child != parent) {
+        memset(child, 0, sizeof(nostr_hd_key));
+    }
 
     unsigned char data[37];
     uint32_t index_be = htonl(index);
@@ -137,8 +139,6 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         return NOSTR_ERR_MEMORY;
     }
     
-    memcpy(child->chain_code, hash + 32, 32);
-    
     unsigned char child_privkey[32];
     memcpy(child_privkey, parent->privkey.data, 32);
 
@@ -149,6 +149,7 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         return NOSTR_ERR_INVALID_KEY;
     }
 
+    memcpy(child->chain_code, hash + 32, 32);
     memcpy(child->privkey.data, child_privkey, 32);
 
 #ifdef HAVE_NOSCRYPT
-- 
2.43.0


From 64a2f307e998b32c9abb9a99c11a235ba8887c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:12 +0000
Subject: [PATCH 036/107] fix: require plain decimal indexes below 2^31 in
 derivation paths

---
 src/hd_key.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index 02fbda5..7a8cb54 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -242,9 +242,14 @@ nostr_error_t nostr_hd_key_derive_path(const nostr_hd_key* master, const char* p
             token[token_len - 1] = '\0';
         }
 
-        char* endptr;
-        uint32_t index = strtoul(token, &endptr, 10);
-        if (*endptr != '\0' || index >= HD_HARDENED_FLAG) {
+        int valid = token[0] != '\0';
+        uint32_t index = 0;
+        for (const char* c = token; *c && valid; c++) {
+            uint64_t value = (uint64_t)index * 10 + (uint64_t)(*c - '0');
+            valid = *c >= '0' && *c <= '9' && value < HD_HARDENED_FLAG;
+            index = (uint32_t)value;
+        }
+        if (!valid) {
             secure_wipe(path_copy, path_len);
             free(path_copy);
             secure_wipe(&current, sizeof(current));
-- 
2.43.0


From 30824556a36f18dad6f77c2a3f35212cfef55c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:50 +0000
Subject: [PATCH 037/107] fix: bound and checksum LNURLs when validating them

---
 src/zap.c | 52 ++++++++++++++++++----------------------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index 962b91f..69576be 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -1,4 +1,5 @@
 #include "nostr.h"
+#include "bech32_internal.h"
 
 #ifdef NOSTR_FEATURE_NIP57
 
@@ -10,36 +11,27 @@
 #define ZAP_REQUEST_KIND 9734
 #define ZAP_RECEIPT_KIND 9735
 
-static int is_valid_bech32_char(char c)
-{
-    const char* charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
-    return strchr(charset, tolower(c)) != NULL;
-}
+#define LNURL_MAX_LEN 2048
 
-static int decode_bech32(const char* bech32, char* hrp, uint8_t* data, size_t* data_len)
+/* LNURLs may be longer than the 90 characters bech32 allows elsewhere. */
+static int is_valid_lnurl(const char* lnurl)
 {
-    size_t bech32_len = strlen(bech32);
-    if (bech32_len < 8 || bech32_len > 90) {
+    size_t len = strlen(lnurl);
+    if (len < 6 + 6 || len > LNURL_MAX_LEN || strncmp(lnurl, "lnurl1", 6) != 0) {
         return 0;
     }
-    
-    size_t separator = 0;
-    for (size_t i = 0; i < bech32_len; ++i) {
-        if (bech32[i] == '1') {
-            separator = i;
+
+    uint8_t data[LNURL_MAX_LEN];
+    size_t data_len = len - 6;
+    for (size_t i = 0; i < data_len; ++i) {
+        int value = bech32_charset_decode(lnurl[6 + i]);
+        if (value < 0) {
+            return 0;
         }
+        data[i] = (uint8_t)value;
     }
-    
-    if (separator < 1 || separator + 7 > bech32_len) {
-        return 0;
-    }
-    
-    if (hrp) {
-        memcpy(hrp, bech32, separator);
-        hrp[separator] = '\0';
-    }
-    
-    return 1;
+
+    return bech32_verify_checksum("lnurl", data, data_len);
 }
 
 nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, const nostr_key* recipient, const char* lnurl, const char* content, const char** relays, size_t relays_count)
@@ -119,18 +111,10 @@ nostr_error_t nostr_zap_validate_lnurl(const char* lnurl, char* nostr_pubkey, bo
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    char hrp[32];
-    uint8_t data[256];
-    size_t data_len = sizeof(data);
-    
-    if (!decode_bech32(lnurl, hrp, data, &data_len)) {
+    if (!is_valid_lnurl(lnurl)) {
         return NOSTR_ERR_ENCODING;
     }
-    
-    if (strcmp(hrp, "lnurl") != 0) {
-        return NOSTR_ERR_INVALID_PARAM;
-    }
-    
+
     return NOSTR_OK;
 }
 
-- 
2.43.0


From 22cb0a226e04158d1119a6aa6fa3f69a64edae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:58 +0000
Subject: [PATCH 038/107] fix: keep every relay of a zap request

---
 src/zap.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index 69576be..8a0be7b 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -55,13 +55,15 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
         }
     }
     
-    const char* relay_tag[16];
-    relay_tag[0] = "relays";
-    size_t tag_count = 1;
-    for (size_t i = 0; i < relays_count && tag_count < 16; i++) {
-        relay_tag[tag_count++] = relays[i];
+    const char** relay_tag = relays_count < SIZE_MAX / sizeof(char*) ? malloc((relays_count + 1) * sizeof(char*)) : NULL;
+    if (!relay_tag) {
+        nostr_event_destroy(*event);
+        return NOSTR_ERR_MEMORY;
     }
-    err = nostr_event_add_tag(*event, relay_tag, tag_count);
+    relay_tag[0] = "relays";
+    memcpy(relay_tag + 1, relays, relays_count * sizeof(char*));
+    err = nostr_event_add_tag(*event, relay_tag, relays_count + 1);
+    free(relay_tag);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
         return err;
-- 
2.43.0


From ee3b28706123b912fc9387cb97bd5aefc417a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:08 +0000
Subject: [PATCH 039/107] fix: leave no dangling event after a failed zap
 request

---
 src/zap.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zap.c b/src/zap.c
index 8a0be7b..4c7c6b2 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -51,6 +51,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
         err = nostr_event_set_content(*event, content);
         if (err != NOSTR_OK) {
             nostr_event_destroy(*event);
+            *event = NULL;
             return err;
         }
     }
@@ -58,6 +59,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
     const char** relay_tag = relays_count < SIZE_MAX / sizeof(char*) ? malloc((relays_count + 1) * sizeof(char*)) : NULL;
     if (!relay_tag) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return NOSTR_ERR_MEMORY;
     }
     relay_tag[0] = "relays";
@@ -66,6 +68,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
     free(relay_tag);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
@@ -75,6 +78,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
     err = nostr_event_add_tag(*event, amount_tag, 2);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
@@ -83,6 +87,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
         err = nostr_event_add_tag(*event, lnurl_tag, 2);
         if (err != NOSTR_OK) {
             nostr_event_destroy(*event);
+            *event = NULL;
             return err;
         }
     }
@@ -91,12 +96,14 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
     err = nostr_key_to_hex(recipient, pubkey_hex, sizeof(pubkey_hex));
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     const char* p_tag[] = {"p", pubkey_hex};
     err = nostr_event_add_tag(*event, p_tag, 2);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
-- 
2.43.0


From 00060c51489bdce8bcdb1b1eeddaf85f0a955cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:17 +0000
Subject: [PATCH 040/107] fix: read the amount of a zap invoice from its prefix
 alone

---
 src/zap.c | 81 ++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 27 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index 4c7c6b2..1d031a1 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -5,6 +5,7 @@
 
 #include <stdlib.h>
 #include <string.h>
+#include <strings.h>
 #include <stdio.h>
 #include <ctype.h>
 
@@ -127,12 +128,58 @@ nostr_error_t nostr_zap_validate_lnurl(const char* lnurl, char* nostr_pubkey, bo
     return NOSTR_OK;
 }
 
+/* Amount of a BOLT-11 invoice in millisats, 0 when it names none. The amount is
+ * the part of the prefix, which the last '1' ends, that follows "lnbc". */
+static uint64_t bolt11_amount(const char* bolt11)
+{
+    const char* end = strrchr(bolt11, '1');
+    if (!end || strncasecmp(bolt11, "lnbc", 4) != 0 || end <= bolt11 + 4) {
+        return 0;
+    }
+
+    const char* p = bolt11 + 4;
+    uint64_t amt = 0;
+    for (; p < end && isdigit((unsigned char)*p); p++) {
+        uint64_t digit = (uint64_t)(*p - '0');
+        if (amt > (UINT64_MAX - digit) / 10) {
+            return 0;
+        }
+        amt = amt * 10 + digit;
+    }
+
+    uint64_t scale = 100000000000;
+    if (p + 1 == end) {
+        switch (tolower((unsigned char)*p)) {
+            case 'm':
+                scale = 100000000;
+                break;
+            case 'u':
+                scale = 100000;
+                break;
+            case 'n':
+                scale = 100;
+                break;
+            case 'p':
+                return amt / 10;
+            default:
+                return 0;
+        }
+    } else if (p != end) {
+        return 0;
+    }
+
+    return amt > UINT64_MAX / scale ? 0 : amt * scale;
+}
+
 nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount, char** bolt11, char* preimage, nostr_event** zap_request)
 {
     if (!event || event->kind != ZAP_RECEIPT_KIND) {
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    const char* invoice = NULL;
+    if (amount) *amount = 0;
+
     for (size_t i = 0; i < event->tags_count; i++) {
         if (event->tags[i].count < 2) {
             continue;
@@ -141,6 +188,10 @@ nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount
         const char* tag_name = event->tags[i].values[0];
         const char* tag_value = event->tags[i].values[1];
         
+        if (strcmp(tag_name, "bolt11") == 0) {
+            invoice = tag_value;
+        }
+
         if (strcmp(tag_name, "bolt11") == 0 && bolt11) {
             *bolt11 = strdup(tag_value);
             if (!*bolt11) {
@@ -164,34 +215,10 @@ nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount
         }
     }
     
-    if (amount && bolt11 && *bolt11) {
-        const char* amt_start = strstr(*bolt11, "lnbc");
-        if (amt_start) {
-            amt_start += 4;
-            char* amt_end;
-            unsigned long amt = strtoul(amt_start, &amt_end, 10);
-            if (amt_end > amt_start) {
-                char multiplier = tolower(*amt_end);
-                switch (multiplier) {
-                    case 'm':
-                        *amount = amt * 100000000;
-                        break;
-                    case 'u':
-                        *amount = amt * 100000;
-                        break;
-                    case 'n':
-                        *amount = amt * 100;
-                        break;
-                    case 'p':
-                        *amount = amt / 10;
-                        break;
-                    default:
-                        *amount = amt * 100000000000;
-                }
-            }
-        }
+    if (amount && invoice) {
+        *amount = bolt11_amount(invoice);
     }
-    
+
     return NOSTR_OK;
 }
 
-- 
2.43.0


From 4900f517206d8c7e21753235e4bad06e363e7f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:27 +0000
Subject: [PATCH 041/107] fix: initialise the outputs of zap receipts and free
 repeated values

---
 src/zap.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/zap.c b/src/zap.c
index 1d031a1..284dc63 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -179,6 +179,9 @@ nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount
     
     const char* invoice = NULL;
     if (amount) *amount = 0;
+    if (bolt11) *bolt11 = NULL;
+    if (preimage) preimage[0] = '\0';
+    if (zap_request) *zap_request = NULL;
 
     for (size_t i = 0; i < event->tags_count; i++) {
         if (event->tags[i].count < 2) {
@@ -193,8 +196,13 @@ nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount
         }
 
         if (strcmp(tag_name, "bolt11") == 0 && bolt11) {
+            free(*bolt11);
             *bolt11 = strdup(tag_value);
             if (!*bolt11) {
+                if (zap_request) {
+                    nostr_event_destroy(*zap_request);
+                    *zap_request = NULL;
+                }
                 return NOSTR_ERR_MEMORY;
             }
         } else if (strcmp(tag_name, "preimage") == 0 && preimage) {
@@ -204,6 +212,8 @@ nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount
                 preimage[len] = '\0';
             }
         } else if (strcmp(tag_name, "description") == 0 && zap_request) {
+            nostr_event_destroy(*zap_request);
+            *zap_request = NULL;
             nostr_error_t err = nostr_event_from_json(tag_value, zap_request);
             if (err != NOSTR_OK) {
                 if (bolt11 && *bolt11) {
-- 
2.43.0


From 07bced3a2af89a65c92419fa17ea7a68de5c9622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:36 +0000
Subject: [PATCH 042/107] fix: compare the request embedded in a zap receipt by
 its contents

---
 src/zap.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/zap.c b/src/zap.c
index 284dc63..c21bf16 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -266,6 +266,15 @@ nostr_error_t nostr_zap_verify(const nostr_event* receipt, const nostr_event* re
         return NOSTR_ERR_INVALID_EVENT;
     }
     
+    /* The receipt's signature covers the embedded request, but not that the id it
+     * claims is its own. */
+    err = nostr_event_compute_id(embedded_request);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(embedded_request);
+        if (bolt11) free(bolt11);
+        return err;
+    }
+
     int id_match = nostr_constant_time_memcmp(request->id, embedded_request->id, NOSTR_ID_SIZE) == 0;
     if (!id_match) {
         nostr_event_destroy(embedded_request);
-- 
2.43.0


From 780d835d09bc066014d3110d158686d8c6948184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:33 +0000
Subject: [PATCH 043/107] fix: ignore empty and negative values of unsigned
 configuration variables

---
 src/config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 4db6996..6939624 100644
--- a/src/config.c
+++ b/src/config.c
@@ -79,7 +79,7 @@ static uint32_t parse_uint32_env(const char* name, uint32_t default_val) {
     
     char* endptr;
     unsigned long val = strtoul(env, &endptr, 10);
-    if (*endptr != '\0' || val > UINT32_MAX) return default_val;
+    if (endptr == env || *endptr != '\0' || strchr(env, '-') || val > UINT32_MAX) return default_val;
     
     return (uint32_t)val;
 }
@@ -90,7 +90,7 @@ static int parse_int_env(const char* name, int default_val) {
     
     char* endptr;
     long val = strtol(env, &endptr, 10);
-    if (*endptr != '\0' || val > INT_MAX || val < INT_MIN) return default_val;
+    if (endptr == env || *endptr != '\0' || val > INT_MAX || val < INT_MIN) return default_val;
     
     return (int)val;
 }
-- 
2.43.0


From e56863f17cc99ca9b3e25ba59741d65577f30aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:04 +0000
Subject: [PATCH 044/107] fix: call the configuration callback without holding
 the lock

---
 src/config.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/config.c b/src/config.c
index 6939624..898e701 100644
--- a/src/config.c
+++ b/src/config.c
@@ -255,12 +255,16 @@ nostr_error_t nostr_config_update(const nostr_config* config) {
     }
     
     nostr_config old_config = g_config;
-    g_config = *config;
+    nostr_config new_config = *config;
+    g_config = new_config;
+    nostr_config_callback callback = g_config_callback;
+    void* user_data = g_config_callback_user_data;
+    unlock_config();
     
-    if (g_config_callback) {
-        g_config_callback(&old_config, &g_config, g_config_callback_user_data);
+    /* Called without the lock, so that it may use the configuration functions. */
+    if (callback) {
+        callback(&old_config, &new_config, user_data);
     }
     
-    unlock_config();
     return NOSTR_OK;
 }
\ No newline at end of file
-- 
2.43.0


From 26e278b6e478f71fddb93985ab964ba6bd916fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:59 +0000
Subject: [PATCH 045/107] fix: compute bech32 checksums without allocating

---
 src/bech32.c | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/src/bech32.c b/src/bech32.c
index 35a6c97..7f8b883 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -13,8 +13,7 @@ const char BECH32_CHARSET[33] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
 
 const uint32_t BECH32_GENERATOR[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
 
-uint32_t bech32_polymod(const uint8_t* values, size_t len) {
-    uint32_t chk = 1;
+static uint32_t polymod_update(uint32_t chk, const uint8_t* values, size_t len) {
     for (size_t i = 0; i < len; i++) {
         uint32_t top = chk >> 25;
         chk = ((chk & 0x1ffffff) << 5) ^ values[i];
@@ -25,6 +24,10 @@ uint32_t bech32_polymod(const uint8_t* values, size_t len) {
     return chk;
 }
 
+uint32_t bech32_polymod(const uint8_t* values, size_t len) {
+    return polymod_update(1, values, len);
+}
+
 int bech32_hrp_expand(const char* hrp, uint8_t* ret, size_t ret_size) {
     size_t hrp_len = strlen(hrp);
     if (hrp_len > (SIZE_MAX - 1) / 2) return -1;
@@ -46,16 +49,7 @@ int bech32_verify_checksum(const char* hrp, const uint8_t* data, size_t data_len
     int hrp_len = bech32_hrp_expand(hrp, hrp_expanded, sizeof(hrp_expanded));
     if (hrp_len < 0) return 0;
 
-    if ((size_t)hrp_len > SIZE_MAX - data_len) return 0;
-    uint8_t* combined = malloc((size_t)hrp_len + data_len);
-    if (!combined) return 0;
-
-    memcpy(combined, hrp_expanded, hrp_len);
-    memcpy(combined + hrp_len, data, data_len);
-
-    int result = bech32_polymod(combined, (size_t)hrp_len + data_len) == 1;
-    free(combined);
-    return result;
+    return polymod_update(bech32_polymod(hrp_expanded, (size_t)hrp_len), data, data_len) == 1;
 }
 
 int bech32_create_checksum(const char* hrp, const uint8_t* data, size_t data_len, uint8_t* checksum) {
@@ -63,19 +57,12 @@ int bech32_create_checksum(const char* hrp, const uint8_t* data, size_t data_len
     int hrp_len = bech32_hrp_expand(hrp, hrp_expanded, sizeof(hrp_expanded));
     if (hrp_len < 0) return 0;
 
-    if ((size_t)hrp_len > SIZE_MAX - data_len - 6) return 0;
-    uint8_t* combined = malloc((size_t)hrp_len + data_len + 6);
-    if (!combined) return 0;
-
-    memcpy(combined, hrp_expanded, hrp_len);
-    memcpy(combined + hrp_len, data, data_len);
-    memset(combined + hrp_len + data_len, 0, 6);
-
-    uint32_t polymod = bech32_polymod(combined, (size_t)hrp_len + data_len + 6) ^ 1;
+    const uint8_t zeros[6] = {0};
+    uint32_t polymod = polymod_update(bech32_polymod(hrp_expanded, (size_t)hrp_len), data, data_len);
+    polymod = polymod_update(polymod, zeros, sizeof(zeros)) ^ 1;
     for (int i = 0; i < 6; i++) {
         checksum[i] = (polymod >> (5 * (5 - i))) & 31;
     }
-    free(combined);
     return 6;
 }
 
-- 
2.43.0


From 8c7d5cdfc23c879d2f36a226a3f2f115315450b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:26 +0000
Subject: [PATCH 046/107] fix: report lack of memory while extracting quotes

---
 src/nip18.c | 2 ++
 src/nip21.c | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/nip18.c b/src/nip18.c
index ecbb64c..363902d 100644
--- a/src/nip18.c
+++ b/src/nip18.c
@@ -212,6 +212,8 @@ nostr_error_t nostr_quote_tags_from_content(nostr_event* event)
         nostr_error_t err = nostr_uri_parse(uri, &parsed);
         free(uri);
 
+        if (err == NOSTR_ERR_MEMORY)
+            return err;
         if (err != NOSTR_OK) {
             pos++;
             continue;
diff --git a/src/nip21.c b/src/nip21.c
index f919d1d..572a5f0 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -116,6 +116,7 @@ static nostr_error_t parse_tlv(const uint8_t* data, size_t data_len,
                                char** relays, size_t* relay_count, size_t max_relays,
                                uint8_t* author, int* has_author,
                                uint32_t* kind, int* has_kind) {
+    nostr_error_t err = NOSTR_ERR_ENCODING;
     size_t pos = 0;
     *relay_count = 0;
     if (has_author) *has_author = 0;
@@ -141,7 +142,10 @@ static nostr_error_t parse_tlv(const uint8_t* data, size_t data_len,
                         break;
                     }
                     relays[*relay_count] = malloc(len + 1);
-                    if (!relays[*relay_count]) goto cleanup_error;
+                    if (!relays[*relay_count]) {
+                        err = NOSTR_ERR_MEMORY;
+                        goto cleanup_error;
+                    }
                     memcpy(relays[*relay_count], data + pos, len);
                     relays[*relay_count][len] = '\0';
                     (*relay_count)++;
@@ -176,7 +180,7 @@ cleanup_error:
         }
         *relay_count = 0;
     }
-    return NOSTR_ERR_ENCODING;
+    return err;
 }
 
 static size_t build_tlv(uint8_t* out, size_t out_size,
-- 
2.43.0


From d8aae3019034ed9eb9be7ee5fb9726fdf2e08fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:26 +0000
Subject: [PATCH 047/107] fix: do not drop members of relay messages when
 memory runs out

---
 src/relay_message.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/relay_message.c b/src/relay_message.c
index 241b78b..548a186 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -431,8 +431,10 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
+    int members = 0;
     switch (msg->type) {
         case NOSTR_RELAY_MSG_EVENT: {
+            members = 3;
             cJSON_AddItemToArray(root, cJSON_CreateString("EVENT"));
             cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.event.subscription_id));
 
@@ -456,6 +458,7 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
         }
 
         case NOSTR_RELAY_MSG_OK:
+            members = 4;
             cJSON_AddItemToArray(root, cJSON_CreateString("OK"));
             cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.event_id));
             cJSON_AddItemToArray(root, cJSON_CreateBool(msg->data.ok.success));
@@ -463,27 +466,32 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
             break;
 
         case NOSTR_RELAY_MSG_EOSE:
+            members = 2;
             cJSON_AddItemToArray(root, cJSON_CreateString("EOSE"));
             cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.eose.subscription_id));
             break;
 
         case NOSTR_RELAY_MSG_CLOSED:
+            members = 3;
             cJSON_AddItemToArray(root, cJSON_CreateString("CLOSED"));
             cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.subscription_id));
             cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.message));
             break;
 
         case NOSTR_RELAY_MSG_NOTICE:
+            members = 2;
             cJSON_AddItemToArray(root, cJSON_CreateString("NOTICE"));
             cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.notice.message));
             break;
 
         case NOSTR_RELAY_MSG_AUTH:
+            members = 2;
             cJSON_AddItemToArray(root, cJSON_CreateString("AUTH"));
             cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.auth.challenge));
             break;
 
         case NOSTR_RELAY_MSG_COUNT: {
+            members = 3;
             cJSON_AddItemToArray(root, cJSON_CreateString("COUNT"));
             cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.count.query_id));
             cJSON* count_obj = cJSON_CreateObject();
@@ -493,9 +501,11 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
             }
             char count_text[24];
             snprintf(count_text, sizeof(count_text), "%" PRId64, msg->data.count.count);
-            cJSON_AddRawToObject(count_obj, "count", count_text);
-            if (msg->data.count.approximate) {
-                cJSON_AddBoolToObject(count_obj, "approximate", cJSON_True);
+            if (!cJSON_AddRawToObject(count_obj, "count", count_text) ||
+                (msg->data.count.approximate && !cJSON_AddBoolToObject(count_obj, "approximate", cJSON_True))) {
+                cJSON_Delete(count_obj);
+                cJSON_Delete(root);
+                return NOSTR_RELAY_ERR_MEMORY;
             }
             cJSON_AddItemToArray(root, count_obj);
             break;
@@ -506,7 +516,8 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
             return NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE;
     }
 
-    char* json_str = cJSON_PrintUnformatted(root);
+    /* A member that could not be allocated was not added. */
+    char* json_str = cJSON_GetArraySize(root) == members ? cJSON_PrintUnformatted(root) : NULL;
     cJSON_Delete(root);
 
     if (!json_str) {
-- 
2.43.0


From 620258b346811b1aa5902ef9a3e15002b81bc249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:34 +0000
Subject: [PATCH 048/107] fix: notice that the relay closed the connection

libwebsockets reports the end of a client connection as
LWS_CALLBACK_CLIENT_CLOSED and frees the wsi afterwards; the client kept
believing it was connected and later used the freed wsi.
---
 src/relay.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 2d08bd8..b9c9b30 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -413,7 +413,7 @@ nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* even
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
-    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
+    int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
     unlock_queue_mutex(ctx);
 
     free(msg);
@@ -475,7 +475,7 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
-    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
+    int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
     unlock_queue_mutex(ctx);
 
     free(msg);
@@ -548,7 +548,7 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
-    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
+    int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
     unlock_queue_mutex(ctx);
 
     free(msg);
@@ -706,8 +706,12 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
             break;
             
         case LWS_CALLBACK_CLIENT_CONNECTION_ERROR:
+        case LWS_CALLBACK_CLIENT_CLOSED:
         case LWS_CALLBACK_CLOSED:
             if (relay && ctx) {
+                lock_queue_mutex(ctx);
+                if (ctx->wsi == wsi) ctx->wsi = NULL;
+                unlock_queue_mutex(ctx);
                 relay->state = NOSTR_RELAY_DISCONNECTED;
                 if (ctx->state_callback) {
                     ctx->state_callback(relay, NOSTR_RELAY_DISCONNECTED, ctx->user_data);
-- 
2.43.0


From b89c0af3052bb73b6300bd7afbcafd5c61b53eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:30 +0000
Subject: [PATCH 049/107] fix: release a connection that failed or was lost

A failed nostr_relay_connect left relay->ws_handle pointing at the freed
context; destroying or reconnecting a relay whose connection had ended
leaked the context and left its service thread running on a freed relay.
---
 src/relay.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index b9c9b30..a0930bb 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -186,7 +186,7 @@ nostr_error_t nostr_relay_create(nostr_relay** relay, const char* url) {
 void nostr_relay_destroy(nostr_relay* relay) {
     if (!relay) return;
 
-    if (relay->state == NOSTR_RELAY_CONNECTED || relay->state == NOSTR_RELAY_CONNECTING) {
+    if (relay->ws_handle) {
         nostr_relay_disconnect(relay);
     }
 
@@ -203,6 +203,13 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
         return NOSTR_ERR_CONNECTION;
     }
 
+    if (relay->ws_handle) {
+        nostr_error_t err = nostr_relay_disconnect(relay);
+        if (err != NOSTR_OK) {
+            return err;
+        }
+    }
+
     struct lws_context_creation_info info;
     memset(&info, 0, sizeof(info));
     info.port = CONTEXT_PORT_NO_LISTEN;
@@ -281,8 +288,10 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     struct lws* wsi = lws_client_connect_via_info(&ccinfo);
     if (!wsi) {
         free(url_copy);
-        free(ctx);
+        relay->ws_handle = NULL;
+        destroy_queue_mutex(ctx);
         lws_context_destroy(context);
+        free(ctx);
         relay->state = NOSTR_RELAY_ERROR;
         return NOSTR_ERR_CONNECTION;
     }
@@ -332,6 +341,16 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
     }
 
     relay_context* ctx = (relay_context*)relay->ws_handle;
+#ifdef NOSTR_FEATURE_THREADING
+    /* a callback runs on the service thread, which cannot wait for itself */
+#ifdef _WIN32
+    if (ctx->service_thread_created && GetThreadId(ctx->service_thread) == GetCurrentThreadId()) {
+#else
+    if (ctx->service_thread_created && pthread_equal(ctx->service_thread, pthread_self())) {
+#endif
+        return NOSTR_ERR_CONNECTION;
+    }
+#endif
     ctx->reconnect_enabled = false;
 
     struct lws_context* context_to_destroy = ctx->context;
-- 
2.43.0


From 510a896613b5beabfd958ddf925b9137bfdca125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:51 +0000
Subject: [PATCH 050/107] fix: honour the port of a relay URL

"ws://host:port" was resolved as a host called "host:port". Also check
the copy of the URL for lack of memory, and leave no dangling pointer in
*relay when nostr_relay_create fails.
---
 src/relay.c | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/relay.c b/src/relay.c
index a0930bb..2aec44e 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -158,6 +158,35 @@ static struct lws_protocols protocols[] = {
     { NULL, NULL, 0, 0 }
 };
 
+/* Split an authority "host", "host:port" or "[v6]:port" (modified in place). */
+static bool split_host_port(struct lws_client_connect_info* ccinfo) {
+    char* host = (char*)ccinfo->address;
+    char* port;
+    if (*host == '[') {
+        char* close = strchr(host, ']');
+        if (!close || (close[1] != '\0' && close[1] != ':')) return false;
+        port = close[1] == ':' ? close + 1 : NULL;
+        *close = '\0';
+        ccinfo->address = ++host;
+    } else {
+        port = strchr(host, ':');
+    }
+    if (port) {
+        *port++ = '\0';
+        if (*port) {
+            int value = 0;
+            for (; *port; port++) {
+                if (*port < '0' || *port > '9') return false;
+                value = value * 10 + (*port - '0');
+                if (value > 65535) return false;
+            }
+            if (value == 0) return false;
+            ccinfo->port = value;
+        }
+    }
+    return *host != '\0';
+}
+
 nostr_error_t nostr_relay_create(nostr_relay** relay, const char* url) {
     if (!relay || !url) {
         return NOSTR_ERR_INVALID_PARAM;
@@ -171,6 +200,7 @@ nostr_error_t nostr_relay_create(nostr_relay** relay, const char* url) {
     (*relay)->url = strdup(url);
     if (!(*relay)->url) {
         free(*relay);
+        *relay = NULL;
         return NOSTR_ERR_MEMORY;
     }
 
@@ -230,6 +260,10 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     ccinfo.ssl_connection = LCCSCF_USE_SSL;
     
     char* url_copy = strdup(relay->url);
+    if (!url_copy) {
+        lws_context_destroy(context);
+        return NOSTR_ERR_MEMORY;
+    }
     if (strncmp(url_copy, "wss://", 6) == 0) {
         ccinfo.address = url_copy + 6;
         ccinfo.ssl_connection = LCCSCF_USE_SSL;
@@ -250,7 +284,13 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     } else {
         ccinfo.path = "/";
     }
-    
+
+    if (!split_host_port(&ccinfo)) {
+        free(url_copy);
+        lws_context_destroy(context);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+
     ccinfo.host = ccinfo.address;
     ccinfo.origin = ccinfo.address;
     ccinfo.protocol = protocols[0].name;
-- 
2.43.0


From 2278a43089498308ada0fd2fdda54989ca8218c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:34 +0000
Subject: [PATCH 051/107] fix: keep the messages of a relay apart

Text that is not a JSON array stayed in the receive buffer, so that no
later message was ever delivered; the rest of an oversized message was
read as if it were messages of its own.
---
 src/relay.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 2aec44e..4cddf83 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -84,6 +84,8 @@ typedef struct {
     char* receive_buffer;
     size_t buffer_size;
     size_t buffer_pos;
+    bool message_ended;
+    bool message_dropped;
 } relay_context;
 
 #ifdef NOSTR_FEATURE_THREADING
@@ -632,16 +634,27 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
             break;
             
         case LWS_CALLBACK_CLIENT_RECEIVE:
-            if (relay && ctx && in && len > 0) {
+            if (relay && ctx) {
+                /* what was left of the previous message is not part of this one */
+                if (ctx->message_ended) {
+                    ctx->buffer_pos = 0;
+                    ctx->message_dropped = false;
+                }
+                ctx->message_ended = lws_is_final_fragment(wsi) && lws_remaining_packet_payload(wsi) == 0;
+            }
+            if (relay && ctx && in && len > 0 && !ctx->message_dropped) {
                 const size_t max_buffer_size = 10 * 1024 * 1024;
                 if (ctx->buffer_pos + len >= ctx->buffer_size) {
                     size_t new_size = ctx->buffer_pos + len + 1024;
                     if (new_size > max_buffer_size) {
-                        ctx->buffer_pos = 0;
+                        ctx->message_dropped = true;
                         break;
                     }
                     char* new_buffer = realloc(ctx->receive_buffer, new_size);
-                    if (!new_buffer) break;
+                    if (!new_buffer) {
+                        ctx->message_dropped = true;
+                        break;
+                    }
                     ctx->receive_buffer = new_buffer;
                     ctx->buffer_size = new_size;
                 }
-- 
2.43.0


From fdd116f957e97d97d2cd2e4c0d32e9ab2686b84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:33 +0000
Subject: [PATCH 052/107] fix: do not register a subscription that was not made

nostr_subscribe kept the subscription when memory ran out or the request
could not be written, accepted filters that end the REQ message early or
are not objects, and added a second entry for the same id so that the
first callback came back after nostr_relay_unsubscribe.
---
 src/relay.c | 65 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 4cddf83..dcee909 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -57,6 +57,25 @@ typedef struct subscription {
     struct subscription* next;
 } subscription_t;
 
+static void free_subscription(subscription_t* sub)
+{
+    free(sub->id);
+    free(sub);
+}
+
+/* ["REQ",<id>,<filter>,...]: at least one filter, and nothing but filters */
+static bool validate_request(const char* request)
+{
+    cJSON* json = cJSON_ParseWithOpts(request, NULL, 1);
+    cJSON* filter = cJSON_IsArray(json) && json->child && json->child->next ? json->child->next->next : NULL;
+    bool valid = filter != NULL;
+    for (; filter; filter = filter->next) {
+        if (!cJSON_IsObject(filter)) valid = false;
+    }
+    cJSON_Delete(json);
+    return valid;
+}
+
 typedef struct {
     char* data;
     size_t len;
@@ -484,6 +503,20 @@ nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* even
 }
 
 
+/* Call with the queue mutex held. */
+static void remove_subscription(relay_context* ctx, const char* subscription_id) {
+    subscription_t** sub_ptr = &ctx->subscriptions;
+    while (*sub_ptr) {
+        if (strcmp((*sub_ptr)->id, subscription_id) == 0) {
+            subscription_t* to_remove = *sub_ptr;
+            *sub_ptr = to_remove->next;
+            free_subscription(to_remove);
+            break;
+        }
+        sub_ptr = &(*sub_ptr)->next;
+    }
+}
+
 nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id, 
                              const char* filters_json, nostr_event_callback callback, void* user_data) {
     if (!relay || !subscription_id || !filters_json || relay->state != NOSTR_RELAY_CONNECTED) {
@@ -504,31 +537,29 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
         return NOSTR_ERR_MEMORY;
     }
 
-    {
-        cJSON* filters_parsed = cJSON_Parse(filters_json);
-        if (!filters_parsed) {
-            free(sub);
-            return NOSTR_ERR_INVALID_PARAM;
-        }
-        cJSON_Delete(filters_parsed);
-    }
-
     sub->id = strdup(subscription_id);
     sub->callback = callback;
     sub->user_data = user_data;
-    sub->next = ctx->subscriptions;
-    ctx->subscriptions = sub;
 
     char* msg = malloc(strlen(subscription_id) + strlen(filters_json) + 20);
-    if (!msg) {
+    if (!sub->id || !msg) {
+        free_subscription(sub);
+        free(msg);
         return NOSTR_ERR_MEMORY;
     }
 
     sprintf(msg, "[\"REQ\",\"%s\",%s]", subscription_id, filters_json);
-    
+
+    if (!validate_request(msg)) {
+        free_subscription(sub);
+        free(msg);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+
     size_t msg_len = strlen(msg);
     unsigned char* buf = malloc(LWS_PRE + msg_len);
     if (!buf) {
+        free_subscription(sub);
         free(msg);
         return NOSTR_ERR_MEMORY;
     }
@@ -537,8 +568,16 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
 
     lock_queue_mutex(ctx);
     int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
+    if (result >= 0) {
+        remove_subscription(ctx, subscription_id);
+        sub->next = ctx->subscriptions;
+        ctx->subscriptions = sub;
+    }
     unlock_queue_mutex(ctx);
 
+    if (result < 0) {
+        free_subscription(sub);
+    }
     free(msg);
     free(buf);
 
-- 
2.43.0


From 0e1d9e5b25d2e86193b3bad2bcb650fb281ef18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:33 +0000
Subject: [PATCH 053/107] fix: guard the subscriptions of a relay with its
 mutex

The service thread walked the list while nostr_subscribe and
nostr_relay_unsubscribe changed it. Unsubscribing also lost the
subscription without telling the relay when memory ran out.
---
 src/relay.c | 83 ++++++++++++++++++++++++-----------------------------
 1 file changed, 38 insertions(+), 45 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index dcee909..6c19e95 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -598,8 +598,10 @@ nostr_error_t nostr_relay_set_message_callback(nostr_relay* relay, nostr_message
     
     if (relay->ws_handle) {
         relay_context* ctx = (relay_context*)relay->ws_handle;
+        lock_queue_mutex(ctx);
         ctx->message_callback = callback;
         ctx->message_user_data = user_data;
+        unlock_queue_mutex(ctx);
     }
     
     return NOSTR_OK;
@@ -619,18 +621,6 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
         return NOSTR_ERR_CONNECTION;
     }
 
-    subscription_t** sub_ptr = &ctx->subscriptions;
-    while (*sub_ptr) {
-        if (strcmp((*sub_ptr)->id, subscription_id) == 0) {
-            subscription_t* to_remove = *sub_ptr;
-            *sub_ptr = to_remove->next;
-            free(to_remove->id);
-            free(to_remove);
-            break;
-        }
-        sub_ptr = &(*sub_ptr)->next;
-    }
-
     char* msg = malloc(strlen(subscription_id) + 20);
     if (!msg) {
         return NOSTR_ERR_MEMORY;
@@ -648,6 +638,7 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
+    remove_subscription(ctx, subscription_id);
     int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
     unlock_queue_mutex(ctx);
 
@@ -718,80 +709,82 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                             cJSON* type_item = cJSON_GetArrayItem(json, 0);
                             if (cJSON_IsString(type_item)) {
                                 const char* msg_type = type_item->valuestring;
-                                
+                                lock_queue_mutex(ctx);
+                                nostr_message_callback message_callback = ctx->message_callback;
+                                void* message_user_data = ctx->message_user_data;
+                                unlock_queue_mutex(ctx);
+
                                 if (strcmp(msg_type, "EVENT") == 0 && array_size >= 3) {
                                     cJSON* sub_id = cJSON_GetArrayItem(json, 1);
                                     cJSON* event_json = cJSON_GetArrayItem(json, 2);
                                     if (cJSON_IsString(sub_id) && event_json) {
+                                        nostr_event_callback callback = NULL;
+                                        void* callback_data = NULL;
+                                        lock_queue_mutex(ctx);
                                         subscription_t* sub = ctx->subscriptions;
                                         while (sub) {
                                             if (strcmp(sub->id, sub_id->valuestring) == 0) {
-                                                char* event_str = cJSON_Print(event_json);
-                                                if (event_str) {
-                                                    nostr_event* event;
-                                                    if (nostr_event_from_json(event_str, &event) == NOSTR_OK) {
-                                                        if (sub->callback) {
-                                                            sub->callback(event, sub->user_data);
-                                                        }
-                                                        nostr_event_destroy(event);
-                                                    }
-                                                    free(event_str);
-                                                }
+                                                callback = sub->callback;
+                                                callback_data = sub->user_data;
                                                 break;
                                             }
                                             sub = sub->next;
                                         }
+                                        unlock_queue_mutex(ctx);
+                                        if (callback) {
+                                            char* event_str = cJSON_Print(event_json);
+                                            if (event_str) {
+                                                nostr_event* event;
+                                                if (nostr_event_from_json(event_str, &event) == NOSTR_OK) {
+                                                    callback(event, callback_data);
+                                                    nostr_event_destroy(event);
+                                                }
+                                                free(event_str);
+                                            }
+                                        }
                                     }
                                 } else if (strcmp(msg_type, "OK") == 0 && array_size >= 4) {
-                                    if (ctx->message_callback) {
+                                    if (message_callback) {
                                         char* msg_str = cJSON_Print(json);
                                         if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
+                                            message_callback(msg_type, msg_str, message_user_data);
                                             free(msg_str);
                                         }
                                     }
                                 } else if (strcmp(msg_type, "EOSE") == 0 && array_size >= 2) {
-                                    if (ctx->message_callback) {
+                                    if (message_callback) {
                                         char* msg_str = cJSON_Print(json);
                                         if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
+                                            message_callback(msg_type, msg_str, message_user_data);
                                             free(msg_str);
                                         }
                                     }
                                 } else if (strcmp(msg_type, "CLOSED") == 0 && array_size >= 3) {
                                     cJSON* sub_id = cJSON_GetArrayItem(json, 1);
                                     if (cJSON_IsString(sub_id)) {
-                                        subscription_t** sub_ptr = &ctx->subscriptions;
-                                        while (*sub_ptr) {
-                                            if (strcmp((*sub_ptr)->id, sub_id->valuestring) == 0) {
-                                                subscription_t* to_remove = *sub_ptr;
-                                                *sub_ptr = to_remove->next;
-                                                free(to_remove->id);
-                                                free(to_remove);
-                                                break;
-                                            }
-                                            sub_ptr = &(*sub_ptr)->next;
-                                        }
+                                        lock_queue_mutex(ctx);
+                                        remove_subscription(ctx, sub_id->valuestring);
+                                        unlock_queue_mutex(ctx);
                                     }
-                                    if (ctx->message_callback) {
+                                    if (message_callback) {
                                         char* msg_str = cJSON_Print(json);
                                         if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
+                                            message_callback(msg_type, msg_str, message_user_data);
                                             free(msg_str);
                                         }
                                     }
                                 } else if (strcmp(msg_type, "NOTICE") == 0 && array_size >= 2) {
-                                    if (ctx->message_callback) {
+                                    if (message_callback) {
                                         char* msg_str = cJSON_Print(json);
                                         if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
+                                            message_callback(msg_type, msg_str, message_user_data);
                                             free(msg_str);
                                         }
                                     }
-                                } else if (ctx->message_callback) {
+                                } else if (message_callback) {
                                     char* msg_str = cJSON_Print(json);
                                     if (msg_str) {
-                                        ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
+                                        message_callback(msg_type, msg_str, message_user_data);
                                         free(msg_str);
                                     }
                                 }
-- 
2.43.0


From 30f90268f1c37920f1d9aefdd7082087f8a54e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:27 +0000
Subject: [PATCH 054/107] fix: announce CONNECTING before the service thread
 can announce more

The service thread could report CONNECTED before nostr_relay_connect
reported CONNECTING.
---
 src/relay.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 6c19e95..006faaa 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -361,6 +361,10 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     lws_set_opaque_user_data(wsi, relay);
     free(url_copy);
 
+    if (callback) {
+        callback(relay, NOSTR_RELAY_CONNECTING, user_data);
+    }
+
 #ifdef NOSTR_FEATURE_THREADING
     ctx->service_running = true;
     ctx->service_thread_created = false;
@@ -389,10 +393,6 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     ctx->service_thread_created = true;
 #endif
 
-    if (callback) {
-        callback(relay, NOSTR_RELAY_CONNECTING, user_data);
-    }
-
     return NOSTR_OK;
 }
 
-- 
2.43.0


From 4d88a27cc38a9b4d05d27bc43a4720ac129a33f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:27 +0000
Subject: [PATCH 055/107] fix: wake the service thread when disconnecting

nostr_relay_disconnect waited for the next libwebsockets timer, seconds
later.
---
 src/relay.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/relay.c b/src/relay.c
index 006faaa..7399955 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -420,6 +420,7 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
 #ifdef NOSTR_FEATURE_THREADING
     ctx->service_running = false;
     if (ctx->service_thread_created) {
+        lws_cancel_service(context_to_destroy);
 #ifdef _WIN32
         WaitForSingleObject(ctx->service_thread, INFINITE);
         CloseHandle(ctx->service_thread);
-- 
2.43.0


From 44f72cb149ea3fc4334f4ba58712bcbaddeb96fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:27 +0000
Subject: [PATCH 056/107] fix: reconnect when CONNECTING is announced

After a connection was lost the relay reported CONNECTING without
connecting, and nostr_relay_connect refused to.
---
 src/relay.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/relay.c b/src/relay.c
index 7399955..1f8da57 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -99,6 +99,8 @@ typedef struct {
     bool reconnect_enabled;
     int reconnect_interval;
     time_t last_connect_attempt;
+    struct lws_client_connect_info connect_info;
+    char* connect_url;
     subscription_t* subscriptions;
     char* receive_buffer;
     size_t buffer_size;
@@ -359,7 +361,9 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     
     ctx->wsi = wsi;
     lws_set_opaque_user_data(wsi, relay);
-    free(url_copy);
+    ctx->connect_info = ccinfo;
+    ctx->connect_info.opaque_user_data = relay;
+    ctx->connect_url = url_copy;
 
     if (callback) {
         callback(relay, NOSTR_RELAY_CONNECTING, user_data);
@@ -375,6 +379,7 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
         destroy_queue_mutex(ctx);
         relay->ws_handle = NULL;
         lws_context_destroy(context);
+        free(ctx->connect_url);
         free(ctx);
         relay->state = NOSTR_RELAY_ERROR;
         return NOSTR_ERR_MEMORY;
@@ -385,6 +390,7 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
         destroy_queue_mutex(ctx);
         relay->ws_handle = NULL;
         lws_context_destroy(context);
+        free(ctx->connect_url);
         free(ctx);
         relay->state = NOSTR_RELAY_ERROR;
         return NOSTR_ERR_MEMORY;
@@ -450,6 +456,7 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
     
     free(ctx->data);
     free(ctx->receive_buffer);
+    free(ctx->connect_url);
     free(ctx);
     
     relay->ws_handle = NULL;
@@ -830,6 +837,17 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                         if (ctx->state_callback) {
                             ctx->state_callback(relay, NOSTR_RELAY_CONNECTING, ctx->user_data);
                         }
+                        ctx->message_ended = true;
+                        struct lws* again = lws_client_connect_via_info(&ctx->connect_info);
+                        lock_queue_mutex(ctx);
+                        ctx->wsi = again;
+                        unlock_queue_mutex(ctx);
+                        if (!again && relay->state == NOSTR_RELAY_CONNECTING) {
+                            relay->state = NOSTR_RELAY_DISCONNECTED;
+                            if (ctx->state_callback) {
+                                ctx->state_callback(relay, NOSTR_RELAY_DISCONNECTED, ctx->user_data);
+                            }
+                        }
                     }
                 }
             }
-- 
2.43.0


From 153e1d8b9994dd20477243ed9c208c6e1a303d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:33 +0000
Subject: [PATCH 057/107] fix: mining threads share the found flag only under
 the mutex

The flag was read and, when a thread could not be created, written without it.
---
 src/nip13.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nip13.c b/src/nip13.c
index 729ab62..be74f91 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -350,8 +350,7 @@ static void* mining_thread(void* arg)
     uint64_t nonce = data->start_nonce;
     uint64_t iterations = 0;
     
-    while (!*(data->global_found) && 
-           (data->max_iterations == 0 || iterations < data->max_iterations)) {
+    while (data->max_iterations == 0 || iterations < data->max_iterations) {
         
         pthread_mutex_lock(data->mutex);
         if (*(data->global_found)) {
@@ -505,10 +504,13 @@ nostr_error_t nostr_nip13_mine_event_threaded(nostr_event* event, int target_dif
         thread_data[i].global_found = &global_found;
         
         if (pthread_create(&threads[i], NULL, mining_thread, &thread_data[i]) != 0) {
+            pthread_mutex_lock(&mutex);
             global_found = 1;
+            pthread_mutex_unlock(&mutex);
             for (int j = 0; j < i; j++) {
                 pthread_join(threads[j], NULL);
             }
+            pthread_mutex_destroy(&mutex);
             free(threads);
             free(thread_data);
             return NOSTR_ERR_PROTOCOL;
-- 
2.43.0


From 9861c307c02464e44ab133d37bed3d6822b90f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:33 +0000
Subject: [PATCH 058/107] fix: the list of enabled features is a constant

It was put together on first use in a static buffer, so that two threads asking
at the same time raced and one could read half of it.
---
 src/features.c | 65 +++++++++++++++++---------------------------------
 1 file changed, 22 insertions(+), 43 deletions(-)

diff --git a/src/features.c b/src/features.c
index 1113c2c..b5c4a8d 100644
--- a/src/features.c
+++ b/src/features.c
@@ -1,6 +1,4 @@
 #include "nostr_features.h"
-#include <string.h>
-#include <stdio.h>
 
 int nostr_feature_nip_supported(int nip_number)
 {
@@ -104,87 +102,68 @@ int nostr_feature_relay_protocol_available(void)
 
 const char* nostr_feature_list_enabled(void)
 {
-    static char feature_list[512];
-    static int initialized = 0;
-
-    if (!initialized) {
-        size_t pos = 0;
-        size_t remaining = sizeof(feature_list);
-
-#define APPEND_FEATURE(str) do { \
-    int n = snprintf(feature_list + pos, remaining, str); \
-    if (n > 0 && (size_t)n < remaining) { pos += n; remaining -= n; } \
-} while(0)
-
-        APPEND_FEATURE("std,events,keys");
+    return "std,events,keys"
 #ifdef NOSTR_FEATURE_ENCODING
-        APPEND_FEATURE(",encoding");
+        ",encoding"
 #endif
 #ifdef NOSTR_FEATURE_NIP04
-        APPEND_FEATURE(",nip04");
+        ",nip04"
 #endif
 #ifdef NOSTR_FEATURE_NIP05
-        APPEND_FEATURE(",nip05");
+        ",nip05"
 #endif
 #ifdef NOSTR_FEATURE_NIP10
-        APPEND_FEATURE(",nip10");
+        ",nip10"
 #endif
 #ifdef NOSTR_FEATURE_NIP13
-        APPEND_FEATURE(",nip13");
+        ",nip13"
 #endif
 #ifdef NOSTR_FEATURE_NIP17
-        APPEND_FEATURE(",nip17");
+        ",nip17"
 #endif
 #ifdef NOSTR_FEATURE_NIP25
-        APPEND_FEATURE(",nip25");
+        ",nip25"
 #endif
 #ifdef NOSTR_FEATURE_NIP44
-        APPEND_FEATURE(",nip44");
+        ",nip44"
 #endif
 #ifdef NOSTR_FEATURE_NIP46
-        APPEND_FEATURE(",nip46");
+        ",nip46"
 #endif
 #ifdef NOSTR_FEATURE_NIP47
-        APPEND_FEATURE(",nip47");
+        ",nip47"
 #endif
 #ifdef NOSTR_FEATURE_NIP49
-        APPEND_FEATURE(",nip49");
+        ",nip49"
 #endif
 #ifdef NOSTR_FEATURE_NIP51
-        APPEND_FEATURE(",nip51");
+        ",nip51"
 #endif
 #ifdef NOSTR_FEATURE_NIP57
-        APPEND_FEATURE(",nip57");
+        ",nip57"
 #endif
 #ifdef NOSTR_FEATURE_NIP59
-        APPEND_FEATURE(",nip59");
+        ",nip59"
 #endif
 #ifdef NOSTR_FEATURE_NIP65
-        APPEND_FEATURE(",nip65");
+        ",nip65"
 #endif
 #ifdef NOSTR_FEATURE_RELAY
-        APPEND_FEATURE(",relay");
+        ",relay"
 #endif
 #ifdef NOSTR_FEATURE_RELAY_PROTOCOL
-        APPEND_FEATURE(",relay-protocol");
+        ",relay-protocol"
 #endif
 #ifdef NOSTR_FEATURE_HD_KEYS
-        APPEND_FEATURE(",hd-keys");
+        ",hd-keys"
 #endif
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
-        APPEND_FEATURE(",json-enhanced");
+        ",json-enhanced"
 #endif
 #ifdef NOSTR_FEATURE_THREADING
-        APPEND_FEATURE(",threading");
+        ",threading"
 #endif
-#undef APPEND_FEATURE
-
-        (void)pos;
-        (void)remaining;
-        initialized = 1;
-    }
-
-    return feature_list;
+        ;
 }
 
 const char* nostr_feature_crypto_backend_info(void)
-- 
2.43.0


From 1ab8d0452fbe002f1342da3ccb616580030c71cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:33 +0000
Subject: [PATCH 059/107] fix: report NIP-18 and NIP-26 among the enabled
 features

---
 src/features.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/features.c b/src/features.c
index b5c4a8d..aa629ec 100644
--- a/src/features.c
+++ b/src/features.c
@@ -23,10 +23,18 @@ int nostr_feature_nip_supported(int nip_number)
         case 17:
             return 1;
 #endif
+#ifdef NOSTR_FEATURE_NIP18
+        case 18:
+            return 1;
+#endif
 #ifdef NOSTR_FEATURE_NIP25
         case 25:
             return 1;
 #endif
+#ifdef NOSTR_FEATURE_NIP26
+        case 26:
+            return 1;
+#endif
 #ifdef NOSTR_FEATURE_NIP44
         case 44:
             return 1;
@@ -121,9 +129,15 @@ const char* nostr_feature_list_enabled(void)
 #ifdef NOSTR_FEATURE_NIP17
         ",nip17"
 #endif
+#ifdef NOSTR_FEATURE_NIP18
+        ",nip18"
+#endif
 #ifdef NOSTR_FEATURE_NIP25
         ",nip25"
 #endif
+#ifdef NOSTR_FEATURE_NIP26
+        ",nip26"
+#endif
 #ifdef NOSTR_FEATURE_NIP44
         ",nip44"
 #endif
-- 
2.43.0


From 214c41f6b79c31f254f8d55784ed04ed90ed5acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:33 +0000
Subject: [PATCH 060/107] fix: the application and the service thread share the
 connection under the mutex

State, connection and the running flag were read and written without it, and a
message could be written to a connection that was being established again.
---
 src/relay.c | 75 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 20 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 1f8da57..a7787d3 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -93,7 +93,7 @@ typedef struct {
     pthread_mutex_t queue_mutex;
     pthread_t service_thread;
 #endif
-    volatile bool service_running;
+    bool service_running;
     bool service_thread_created;
 #endif
     bool reconnect_enabled;
@@ -110,14 +110,19 @@ typedef struct {
 } relay_context;
 
 #ifdef NOSTR_FEATURE_THREADING
+static void lock_queue_mutex(relay_context* ctx);
+static void unlock_queue_mutex(relay_context* ctx);
+
 #ifdef _WIN32
 static DWORD WINAPI service_thread_func(LPVOID arg) {
 #else
 static void* service_thread_func(void* arg) {
 #endif
     relay_context* ctx = (relay_context*)arg;
-    while (ctx->service_running) {
-        struct lws_context* context = ctx->context;
+    for (;;) {
+        lock_queue_mutex(ctx);
+        struct lws_context* context = ctx->service_running ? ctx->context : NULL;
+        unlock_queue_mutex(ctx);
         if (!context) break;
         lws_service(context, 50);
     }
@@ -176,6 +181,29 @@ static void lock_queue_mutex(relay_context* ctx) { (void)ctx; }
 static void unlock_queue_mutex(relay_context* ctx) { (void)ctx; }
 #endif
 
+/* The service thread changes the state and the connection while the application uses them. */
+static void set_state(nostr_relay* relay, relay_context* ctx, nostr_relay_state state) {
+    lock_queue_mutex(ctx);
+    relay->state = state;
+    unlock_queue_mutex(ctx);
+}
+
+static nostr_relay_state get_state(nostr_relay* relay) {
+    relay_context* ctx = (relay_context*)relay->ws_handle;
+    if (!ctx) return relay->state;
+    lock_queue_mutex(ctx);
+    nostr_relay_state state = relay->state;
+    unlock_queue_mutex(ctx);
+    return state;
+}
+
+static bool has_connection(relay_context* ctx) {
+    lock_queue_mutex(ctx);
+    bool connection = ctx->wsi != NULL;
+    unlock_queue_mutex(ctx);
+    return connection;
+}
+
 static struct lws_protocols protocols[] = {
     { "nostr-protocol", callback_nostr_relay, sizeof(relay_context), 65536 },
     { NULL, NULL, 0, 0 }
@@ -252,7 +280,8 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    if (relay->state == NOSTR_RELAY_CONNECTED || relay->state == NOSTR_RELAY_CONNECTING) {
+    nostr_relay_state state = get_state(relay);
+    if (state == NOSTR_RELAY_CONNECTED || state == NOSTR_RELAY_CONNECTING) {
         return NOSTR_ERR_CONNECTION;
     }
 
@@ -418,13 +447,16 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
         return NOSTR_ERR_CONNECTION;
     }
 #endif
+    lock_queue_mutex(ctx);
     ctx->reconnect_enabled = false;
-
     struct lws_context* context_to_destroy = ctx->context;
     ctx->context = NULL;
-
 #ifdef NOSTR_FEATURE_THREADING
     ctx->service_running = false;
+#endif
+    unlock_queue_mutex(ctx);
+
+#ifdef NOSTR_FEATURE_THREADING
     if (ctx->service_thread_created) {
         lws_cancel_service(context_to_destroy);
 #ifdef _WIN32
@@ -466,7 +498,7 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
 }
 
 nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* event) {
-    if (!relay || !event || relay->state != NOSTR_RELAY_CONNECTED) {
+    if (!relay || !event || get_state(relay) != NOSTR_RELAY_CONNECTED) {
         return NOSTR_ERR_INVALID_PARAM;
     }
 
@@ -477,7 +509,7 @@ nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* even
     }
 
     relay_context* ctx = (relay_context*)relay->ws_handle;
-    if (!ctx || !ctx->wsi) {
+    if (!ctx || !has_connection(ctx)) {
         free(json);
         return NOSTR_ERR_CONNECTION;
     }
@@ -501,7 +533,7 @@ nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* even
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
-    int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
+    int result = relay->state == NOSTR_RELAY_CONNECTED && ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
     unlock_queue_mutex(ctx);
 
     free(msg);
@@ -527,7 +559,7 @@ static void remove_subscription(relay_context* ctx, const char* subscription_id)
 
 nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id, 
                              const char* filters_json, nostr_event_callback callback, void* user_data) {
-    if (!relay || !subscription_id || !filters_json || relay->state != NOSTR_RELAY_CONNECTED) {
+    if (!relay || !subscription_id || !filters_json || get_state(relay) != NOSTR_RELAY_CONNECTED) {
         return NOSTR_ERR_INVALID_PARAM;
     }
 
@@ -536,7 +568,7 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
     }
 
     relay_context* ctx = (relay_context*)relay->ws_handle;
-    if (!ctx || !ctx->wsi) {
+    if (!ctx || !has_connection(ctx)) {
         return NOSTR_ERR_CONNECTION;
     }
 
@@ -575,7 +607,7 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
-    int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
+    int result = relay->state == NOSTR_RELAY_CONNECTED && ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
     if (result >= 0) {
         remove_subscription(ctx, subscription_id);
         sub->next = ctx->subscriptions;
@@ -616,7 +648,7 @@ nostr_error_t nostr_relay_set_message_callback(nostr_relay* relay, nostr_message
 }
 
 nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscription_id) {
-    if (!relay || !subscription_id || relay->state != NOSTR_RELAY_CONNECTED) {
+    if (!relay || !subscription_id || get_state(relay) != NOSTR_RELAY_CONNECTED) {
         return NOSTR_ERR_INVALID_PARAM;
     }
 
@@ -625,7 +657,7 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     }
 
     relay_context* ctx = (relay_context*)relay->ws_handle;
-    if (!ctx || !ctx->wsi) {
+    if (!ctx || !has_connection(ctx)) {
         return NOSTR_ERR_CONNECTION;
     }
 
@@ -647,7 +679,7 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
 
     lock_queue_mutex(ctx);
     remove_subscription(ctx, subscription_id);
-    int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
+    int result = relay->state == NOSTR_RELAY_CONNECTED && ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
     unlock_queue_mutex(ctx);
 
     free(msg);
@@ -664,7 +696,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
     switch (reason) {
         case LWS_CALLBACK_CLIENT_ESTABLISHED:
             if (relay && ctx) {
-                relay->state = NOSTR_RELAY_CONNECTED;
+                set_state(relay, ctx, NOSTR_RELAY_CONNECTED);
                 if (ctx->state_callback) {
                     ctx->state_callback(relay, NOSTR_RELAY_CONNECTED, ctx->user_data);
                 }
@@ -823,17 +855,20 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
             if (relay && ctx) {
                 lock_queue_mutex(ctx);
                 if (ctx->wsi == wsi) ctx->wsi = NULL;
-                unlock_queue_mutex(ctx);
                 relay->state = NOSTR_RELAY_DISCONNECTED;
+                unlock_queue_mutex(ctx);
                 if (ctx->state_callback) {
                     ctx->state_callback(relay, NOSTR_RELAY_DISCONNECTED, ctx->user_data);
                 }
                 
-                if (ctx->reconnect_enabled) {
+                lock_queue_mutex(ctx);
+                bool reconnect = ctx->reconnect_enabled;
+                unlock_queue_mutex(ctx);
+                if (reconnect) {
                     time_t now = time(NULL);
                     if (now - ctx->last_connect_attempt >= ctx->reconnect_interval) {
                         ctx->last_connect_attempt = now;
-                        relay->state = NOSTR_RELAY_CONNECTING;
+                        set_state(relay, ctx, NOSTR_RELAY_CONNECTING);
                         if (ctx->state_callback) {
                             ctx->state_callback(relay, NOSTR_RELAY_CONNECTING, ctx->user_data);
                         }
@@ -843,7 +878,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                         ctx->wsi = again;
                         unlock_queue_mutex(ctx);
                         if (!again && relay->state == NOSTR_RELAY_CONNECTING) {
-                            relay->state = NOSTR_RELAY_DISCONNECTED;
+                            set_state(relay, ctx, NOSTR_RELAY_DISCONNECTED);
                             if (ctx->state_callback) {
                                 ctx->state_callback(relay, NOSTR_RELAY_DISCONNECTED, ctx->user_data);
                             }
-- 
2.43.0


From 1ac05b8aeadf7cf9d33b8f4b726950962d7c5ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:57 +0000
Subject: [PATCH 061/107] fix: pad NIP-44 plaintexts by the next power of two

---
 src/nip44.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nip44.c b/src/nip44.c
index 40ff0d3..6ca4cd5 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -42,13 +42,12 @@ static uint32_t calc_padded_len(uint32_t unpadded_len)
     }
     
     next_power = 1;
-    while (next_power <= unpadded_len) {
+    while (next_power < unpadded_len) {
         if (next_power > (UINT32_MAX >> 1)) {
             return 0;
         }
         next_power <<= 1;
     }
-    next_power >>= 1;
     
     if (next_power <= 256) {
         chunk = 32;
-- 
2.43.0


From fa460893c10fde10d098e74b30b959d737c4a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:57 +0000
Subject: [PATCH 062/107] fix: decrypt NIP-44 payloads of the largest size

---
 src/nip44.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip44.c b/src/nip44.c
index 6ca4cd5..9f95d76 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -396,7 +396,7 @@ nostr_error_t nostr_nip44_decrypt(const nostr_privkey* recipient_privkey, const
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    if (payload_len < 97 || payload_len > 65600) {
+    if (payload_len < 97 || payload_len > 65603) {
         free(payload);
         return NOSTR_ERR_INVALID_PARAM;
     }
-- 
2.43.0


From 3fafb2d9e201a88b598e5bae38bc1e345d5f9f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:57 +0000
Subject: [PATCH 063/107] fix: refuse malformed base64 in NIP-44 and NIP-04
 payloads

---
 src/nip44.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/nip44.c b/src/nip44.c
index 9f95d76..1a7ab86 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -126,6 +126,30 @@ static int unpad_plaintext(const uint8_t* padded, size_t padded_len,
     return 0;
 }
 
+/* The decoders below skip what they do not understand. */
+static int base64_is_well_formed(const char* input, size_t len)
+{
+    size_t pad = 0;
+
+    if (len == 0 || len % 4 != 0) {
+        return 0;
+    }
+
+    while (pad < 2 && input[len - 1 - pad] == '=') {
+        pad++;
+    }
+
+    for (size_t i = 0; i < len - pad; i++) {
+        char c = input[i];
+        if (!((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') ||
+              (c >= '0' && c <= '9') || c == '+' || c == '/')) {
+            return 0;
+        }
+    }
+
+    return 1;
+}
+
 #ifdef HAVE_MBEDTLS
 static int base64_encode(const uint8_t* input, size_t input_len, char** output)
 {
@@ -151,6 +175,10 @@ static int base64_decode(const char* input, uint8_t** output, size_t* output_len
     size_t input_len = strlen(input);
     size_t olen = 0;
 
+    if (!base64_is_well_formed(input, input_len)) {
+        return -1;
+    }
+
     mbedtls_base64_decode(NULL, 0, &olen, (const unsigned char*)input, input_len);
 
     *output = malloc(olen);
@@ -201,6 +229,10 @@ static int base64_decode(const char* input, uint8_t** output, size_t* output_len
     size_t input_len = strlen(input);
     size_t olen = 0;
 
+    if (!base64_is_well_formed(input, input_len)) {
+        return -1;
+    }
+
     mbedtls_base64_decode(NULL, 0, &olen, (const unsigned char*)input, input_len);
 
     *output = malloc(olen);
@@ -222,6 +254,10 @@ static int base64_decode(const char* input, uint8_t** output, size_t* output_len
     BIO* bmem = NULL;
     size_t input_len = strlen(input);
 
+    if (!base64_is_well_formed(input, input_len)) {
+        return -1;
+    }
+
     *output = malloc(input_len);
     if (!*output) {
         return -1;
-- 
2.43.0


From b1dfd1279ad2b341c340dcf53f0f146bbc1ec974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:57 +0000
Subject: [PATCH 064/107] fix: a failed base64 decode leaves no buffer to be
 freed twice

---
 src/nip44.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nip44.c b/src/nip44.c
index 1a7ab86..9cfe75e 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -188,6 +188,7 @@ static int base64_decode(const char* input, uint8_t** output, size_t* output_len
 
     if (mbedtls_base64_decode(*output, olen, output_len, (const unsigned char*)input, input_len) != 0) {
         free(*output);
+        *output = NULL;
         return -1;
     }
 
@@ -242,6 +243,7 @@ static int base64_decode(const char* input, uint8_t** output, size_t* output_len
 
     if (mbedtls_base64_decode(*output, olen, output_len, (const unsigned char*)input, input_len) != 0) {
         free(*output);
+        *output = NULL;
         return -1;
     }
 
@@ -268,14 +270,17 @@ static int base64_decode(const char* input, uint8_t** output, size_t* output_len
     bmem = BIO_push(b64, bmem);
     BIO_set_flags(bmem, BIO_FLAGS_BASE64_NO_NL);
 
-    *output_len = BIO_read(bmem, *output, input_len);
+    int decoded = BIO_read(bmem, *output, input_len);
     BIO_free_all(bmem);
 
-    if (*output_len <= 0) {
+    if (decoded <= 0) {
         free(*output);
+        *output = NULL;
         return -1;
     }
 
+    *output_len = (size_t)decoded;
+
     return 0;
 }
 #endif
-- 
2.43.0


From 31259f44fc374692a3eac88b0e8019cf0a72a55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:28 +0000
Subject: [PATCH 065/107] fix: the id of a direct message covers its tags

---
 src/nip17.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nip17.c b/src/nip17.c
index f6c9d75..0d40934 100644
--- a/src/nip17.c
+++ b/src/nip17.c
@@ -379,6 +379,13 @@ nostr_error_t nostr_nip17_send_dm(nostr_event** dm, const char* content,
         }
     }
     
+    /* The id covers the tags added above. */
+    err = nostr_event_compute_id(rumor);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(rumor);
+        return err;
+    }
+    
     err = nostr_nip17_create_seal(&seal, rumor, sender_privkey, recipient_pubkey);
     nostr_event_destroy(rumor);
     if (err != NOSTR_OK) {
-- 
2.43.0


From b56aba0710926099125ddb3f0c58c0a2e68a5a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:28 +0000
Subject: [PATCH 066/107] fix: NIP-59 events are not dated with the present
 when randomness fails

---
 src/nip59.c | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/nip59.c b/src/nip59.c
index b78e3fc..a08ad04 100644
--- a/src/nip59.c
+++ b/src/nip59.c
@@ -22,16 +22,18 @@ extern secp256k1_context* secp256k1_ctx;
 
 extern nostr_error_t nostr_init(void);
 
-static int64_t randomize_timestamp(int64_t base_time)
+/* Fails closed: the current time must not be published in its place. */
+static nostr_error_t randomize_timestamp(int64_t base_time, int64_t* out)
 {
     uint32_t random_offset;
     
     if (RAND_bytes((unsigned char*)&random_offset, sizeof(random_offset)) != 1) {
-        return base_time;
+        return NOSTR_ERR_MEMORY;
     }
     
     random_offset %= TWO_DAYS_SECONDS;
-    return base_time - random_offset;
+    *out = base_time - random_offset;
+    return NOSTR_OK;
 }
 
 nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event* event_to_wrap,
@@ -66,7 +68,12 @@ nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event*
     }
     
     seal->kind = KIND_SEAL;
-    seal->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &seal->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(seal);
+        free(event_json);
+        return err;
+    }
     
     /* Derive author's pubkey from privkey */
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
@@ -168,7 +175,14 @@ nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event*
     }
     
     (*gift_wrap)->kind = KIND_GIFT_WRAP;
-    (*gift_wrap)->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &(*gift_wrap)->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*gift_wrap);
+        secure_wipe(&ephemeral_privkey, sizeof(ephemeral_privkey));
+        free(encrypted_seal);
+        *gift_wrap = NULL;
+        return err;
+    }
     memcpy(&(*gift_wrap)->pubkey, &ephemeral_pubkey, sizeof(nostr_key));
     
     err = nostr_event_set_content(*gift_wrap, encrypted_seal);
@@ -357,7 +371,13 @@ nostr_error_t nostr_nip59_create_seal(nostr_event** seal, const nostr_event* rum
     }
     
     (*seal)->kind = KIND_SEAL;
-    (*seal)->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &(*seal)->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*seal);
+        free(encrypted_rumor);
+        *seal = NULL;
+        return err;
+    }
     
     /* Derive author pubkey from privkey */
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
@@ -473,7 +493,14 @@ nostr_error_t nostr_nip59_create_gift_wrap(nostr_event** gift_wrap, const nostr_
     }
     
     (*gift_wrap)->kind = KIND_GIFT_WRAP;
-    (*gift_wrap)->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &(*gift_wrap)->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*gift_wrap);
+        secure_wipe(&ephemeral_privkey, sizeof(ephemeral_privkey));
+        free(encrypted_seal);
+        *gift_wrap = NULL;
+        return err;
+    }
     memcpy(&(*gift_wrap)->pubkey, &ephemeral_pubkey, sizeof(nostr_key));
     
     err = nostr_event_set_content(*gift_wrap, encrypted_seal);
-- 
2.43.0


From a9b9725a9ada9bce5ba5ad1629786d9ffca2224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 067/107] fix: the result of a NIP-46 response is a string

---
 src/nip46.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index 2994d85..f933a2f 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -89,12 +89,7 @@ nostr_error_t nostr_nip46_create_response(const nostr_nip46_response_t* response
     if (response->error) {
         cJSON_AddStringToObject(content_obj, "error", response->error);
     } else if (response->result) {
-        cJSON* result_json = cJSON_Parse(response->result);
-        if (result_json) {
-            cJSON_AddItemToObject(content_obj, "result", result_json);
-        } else {
-            cJSON_AddStringToObject(content_obj, "result", response->result);
-        }
+        cJSON_AddStringToObject(content_obj, "result", response->result);
     }
 
     char* content_str = cJSON_PrintUnformatted(content_obj);
-- 
2.43.0


From 2c443e876c68abbcfb02fffa43b901066e79b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 068/107] fix: a NIP-46 response is complete or not made

---
 src/nip46.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index f933a2f..7d8b048 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -2,6 +2,7 @@
 #include "nostr_features.h"
 #include <string.h>
 #include <stdlib.h>
+#include <stdbool.h>
 
 #ifdef HAVE_CJSON
 #include <cjson/cJSON.h>
@@ -84,15 +85,15 @@ nostr_error_t nostr_nip46_create_response(const nostr_nip46_response_t* response
         return NOSTR_ERR_MEMORY;
     }
 
-    cJSON_AddStringToObject(content_obj, "id", response->id);
+    bool ok = cJSON_AddStringToObject(content_obj, "id", response->id) != NULL;
 
     if (response->error) {
-        cJSON_AddStringToObject(content_obj, "error", response->error);
+        ok = ok && cJSON_AddStringToObject(content_obj, "error", response->error);
     } else if (response->result) {
-        cJSON_AddStringToObject(content_obj, "result", response->result);
+        ok = ok && cJSON_AddStringToObject(content_obj, "result", response->result);
     }
 
-    char* content_str = cJSON_PrintUnformatted(content_obj);
+    char* content_str = ok ? cJSON_PrintUnformatted(content_obj) : NULL;
     cJSON_Delete(content_obj);
     if (!content_str) {
         return NOSTR_ERR_MEMORY;
@@ -124,7 +125,12 @@ nostr_error_t nostr_nip46_create_response(const nostr_nip46_response_t* response
     char pubkey_hex[65];
     nostr_key_to_hex(recipient_pubkey, pubkey_hex, sizeof(pubkey_hex));
     const char* p_tag[] = {"p", pubkey_hex};
-    nostr_event_add_tag(*event_out, p_tag, 2);
+    err = nostr_event_add_tag(*event_out, p_tag, 2);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*event_out);
+        *event_out = NULL;
+        return err;
+    }
 
     err = nostr_event_compute_id(*event_out);
     if (err != NOSTR_OK) {
-- 
2.43.0


From 2d2b01c92b57cf051fd5a08f422fcdc963917b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 069/107] fix: refuse NIP-46 requests whose id or method does
 not fit

---
 src/nip46.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index 7d8b048..e1ab879 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -41,25 +41,29 @@ nostr_error_t nostr_nip46_parse_request(const nostr_event* event,
         return NOSTR_ERR_JSON_PARSE;
     }
 
-    cJSON* id = cJSON_GetObjectItem(root, "id");
-    if (id && cJSON_IsString(id)) {
-        strncpy(request->id, id->valuestring, sizeof(request->id) - 1);
-    }
-
-    cJSON* method = cJSON_GetObjectItem(root, "method");
-    if (method && cJSON_IsString(method)) {
-        strncpy(request->method, method->valuestring, sizeof(request->method) - 1);
+    /* A shortened id could not be answered, a shortened method is another one. */
+    cJSON* id = cJSON_GetObjectItemCaseSensitive(root, "id");
+    cJSON* method = cJSON_GetObjectItemCaseSensitive(root, "method");
+    if (!cJSON_IsString(id) || strlen(id->valuestring) >= sizeof(request->id) ||
+        !cJSON_IsString(method) || strlen(method->valuestring) >= sizeof(request->method)) {
+        cJSON_Delete(root);
+        return NOSTR_ERR_JSON_PARSE;
     }
 
-    cJSON* params = cJSON_GetObjectItem(root, "params");
+    cJSON* params = cJSON_GetObjectItemCaseSensitive(root, "params");
     if (params) {
         char* params_str = cJSON_PrintUnformatted(params);
-        if (params_str) {
-            request->params = params_str;
-            request->params_len = strlen(params_str);
+        if (!params_str) {
+            cJSON_Delete(root);
+            return NOSTR_ERR_MEMORY;
         }
+        request->params = params_str;
+        request->params_len = strlen(params_str);
     }
 
+    strcpy(request->id, id->valuestring);
+    strcpy(request->method, method->valuestring);
+
     cJSON_Delete(root);
     return NOSTR_OK;
 #else
-- 
2.43.0


From 32ab2af9f8c9a45c2fb1f2fe941648ed344b0fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:34 +0000
Subject: [PATCH 070/107] fix: only hex digits are decoded in wallet connection
 URIs

---
 src/nip47.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 8bcaadc..fc452e5 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -116,10 +116,9 @@ static int hex_decode(const char* hex, uint8_t* out, size_t out_len)
     
     for (size_t i = 0; i < out_len; i++) {
         char byte[3] = {hex[i*2], hex[i*2+1], 0};
-        char* end;
-        long val = strtol(byte, &end, 16);
-        if (end != byte + 2) return -1;
-        out[i] = (uint8_t)val;
+        /* strtol alone would take " f" and "+f" too. */
+        if (!isxdigit((unsigned char)byte[0]) || !isxdigit((unsigned char)byte[1])) return -1;
+        out[i] = (uint8_t)strtol(byte, NULL, 16);
     }
     
     return 0;
@@ -137,10 +136,8 @@ static char* url_decode(const char* src)
     for (size_t i = 0; i < len; i++) {
         if (src[i] == '%' && i + 2 < len) {
             char hex[3] = {src[i+1], src[i+2], 0};
-            char* end;
-            long val = strtol(hex, &end, 16);
-            if (end == hex + 2) {
-                dst[j++] = (char)val;
+            if (isxdigit((unsigned char)hex[0]) && isxdigit((unsigned char)hex[1])) {
+                dst[j++] = (char)strtol(hex, NULL, 16);
                 i += 2;
                 continue;
             }
-- 
2.43.0


From 49b0a62a98027326b4a5a973d8a8fdbffde077d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:34 +0000
Subject: [PATCH 071/107] fix: a wallet connection URI with two lud16 members
 leaks nothing

---
 src/nip47.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nip47.c b/src/nip47.c
index fc452e5..9620c4e 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -237,6 +237,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
                 has_secret = 1;
             }
             else if (strcmp(param, "lud16") == 0) {
+                free(conn->lud16);
                 conn->lud16 = url_decode(value);
                 if (!conn->lud16) {
                     free(params);
-- 
2.43.0


From a2d20ca4f69abb6d019bcd00b9fd6acc6af77cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:34 +0000
Subject: [PATCH 072/107] fix: a wallet info event without content or read
 without memory leaves nothing behind

---
 src/nip47.c | 214 +++++++++++++++++++++-------------------------------
 1 file changed, 88 insertions(+), 126 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 9620c4e..22c342a 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -261,6 +261,60 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
     return NOSTR_OK;
 }
 
+static void free_words(char*** words, size_t* count)
+{
+    for (size_t i = 0; i < *count; i++) {
+        free((*words)[i]);
+    }
+    free(*words);
+    *words = NULL;
+    *count = 0;
+}
+
+static nostr_error_t split_words(const char* text, char*** words, size_t* count)
+{
+    char* copy = strdup(text);
+    if (!copy) {
+        return NOSTR_ERR_MEMORY;
+    }
+
+    size_t max_words = 1;
+    for (const char* p = copy; *p; p++) {
+        if (*p == ' ') max_words++;
+    }
+
+    *count = 0;
+    *words = malloc(max_words * sizeof(char*));
+    if (!*words) {
+        free(copy);
+        return NOSTR_ERR_MEMORY;
+    }
+
+    char* saveptr;
+    for (char* word = strtok_r(copy, " ", &saveptr); word; word = strtok_r(NULL, " ", &saveptr)) {
+        (*words)[*count] = strdup(word);
+        if (!(*words)[*count]) {
+            free_words(words, count);
+            free(copy);
+            return NOSTR_ERR_MEMORY;
+        }
+        (*count)++;
+    }
+
+    free(copy);
+    return NOSTR_OK;
+}
+
+static const char* first_tag_value(const nostr_event* event, const char* name)
+{
+    for (size_t i = 0; i < event->tags_count; i++) {
+        if (event->tags[i].count >= 2 && strcmp(event->tags[i].values[0], name) == 0) {
+            return event->tags[i].values[1];
+        }
+    }
+    return NULL;
+}
+
 nostr_error_t nostr_nip47_parse_info_event(const nostr_event* event, char*** capabilities, 
                                            size_t* cap_count, char*** notifications, 
                                            size_t* notif_count, char*** encryptions,
@@ -270,144 +324,52 @@ nostr_error_t nostr_nip47_parse_info_event(const nostr_event* event, char*** cap
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    nostr_error_t err = NOSTR_OK;
+
     if (capabilities && cap_count) {
-        char* content = strdup(event->content);
-        if (!content) {
-            return NOSTR_ERR_MEMORY;
-        }
-        
+        *capabilities = NULL;
         *cap_count = 0;
-        for (char* p = content; *p; p++) {
-            if (*p == ' ') (*cap_count)++;
-        }
-        (*cap_count)++;
-        
-        *capabilities = malloc(*cap_count * sizeof(char*));
-        if (!*capabilities) {
-            free(content);
-            return NOSTR_ERR_MEMORY;
-        }
-        
-        size_t i = 0;
-        char* saveptr;
-        char* cap = strtok_r(content, " ", &saveptr);
-        while (cap && i < *cap_count) {
-            (*capabilities)[i] = strdup(cap);
-            if (!(*capabilities)[i]) {
-                for (size_t j = 0; j < i; j++) {
-                    free((*capabilities)[j]);
-                }
-                free(*capabilities);
-                free(content);
-                return NOSTR_ERR_MEMORY;
-            }
-            i++;
-            cap = strtok_r(NULL, " ", &saveptr);
-        }
-        *cap_count = i;
-        
-        free(content);
     }
-    
     if (notifications && notif_count) {
         *notifications = NULL;
         *notif_count = 0;
-        
-        for (size_t i = 0; i < event->tags_count; i++) {
-            if (event->tags[i].count >= 2 && 
-                strcmp(event->tags[i].values[0], "notifications") == 0) {
-                
-                char* notif_str = strdup(event->tags[i].values[1]);
-                if (!notif_str) {
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                *notif_count = 0;
-                for (char* p = notif_str; *p; p++) {
-                    if (*p == ' ') (*notif_count)++;
-                }
-                (*notif_count)++;
-                
-                *notifications = malloc(*notif_count * sizeof(char*));
-                if (!*notifications) {
-                    free(notif_str);
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                size_t j = 0;
-                char* saveptr;
-                char* notif = strtok_r(notif_str, " ", &saveptr);
-                while (notif && j < *notif_count) {
-                    (*notifications)[j] = strdup(notif);
-                    if (!(*notifications)[j]) {
-                        for (size_t k = 0; k < j; k++) {
-                            free((*notifications)[k]);
-                        }
-                        free(*notifications);
-                        free(notif_str);
-                        return NOSTR_ERR_MEMORY;
-                    }
-                    j++;
-                    notif = strtok_r(NULL, " ", &saveptr);
-                }
-                *notif_count = j;
-                
-                free(notif_str);
-                break;
-            }
-        }
     }
-    
     if (encryptions && enc_count) {
         *encryptions = NULL;
         *enc_count = 0;
-        
-        for (size_t i = 0; i < event->tags_count; i++) {
-            if (event->tags[i].count >= 2 && 
-                strcmp(event->tags[i].values[0], "encryption") == 0) {
-                
-                char* enc_str = strdup(event->tags[i].values[1]);
-                if (!enc_str) {
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                *enc_count = 0;
-                for (char* p = enc_str; *p; p++) {
-                    if (*p == ' ') (*enc_count)++;
-                }
-                (*enc_count)++;
-                
-                *encryptions = malloc(*enc_count * sizeof(char*));
-                if (!*encryptions) {
-                    free(enc_str);
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                size_t j = 0;
-                char* saveptr;
-                char* enc = strtok_r(enc_str, " ", &saveptr);
-                while (enc && j < *enc_count) {
-                    (*encryptions)[j] = strdup(enc);
-                    if (!(*encryptions)[j]) {
-                        for (size_t k = 0; k < j; k++) {
-                            free((*encryptions)[k]);
-                        }
-                        free(*encryptions);
-                        free(enc_str);
-                        return NOSTR_ERR_MEMORY;
-                    }
-                    j++;
-                    enc = strtok_r(NULL, " ", &saveptr);
-                }
-                *enc_count = j;
-                
-                free(enc_str);
-                break;
-            }
+    }
+
+    if (capabilities && cap_count) {
+        err = split_words(event->content ? event->content : "", capabilities, cap_count);
+    }
+
+    if (err == NOSTR_OK && notifications && notif_count) {
+        const char* value = first_tag_value(event, "notifications");
+        if (value) {
+            err = split_words(value, notifications, notif_count);
         }
     }
-    
-    return NOSTR_OK;
+
+    if (err == NOSTR_OK && encryptions && enc_count) {
+        const char* value = first_tag_value(event, "encryption");
+        if (value) {
+            err = split_words(value, encryptions, enc_count);
+        }
+    }
+
+    if (err != NOSTR_OK) {
+        if (capabilities && cap_count) {
+            free_words(capabilities, cap_count);
+        }
+        if (notifications && notif_count) {
+            free_words(notifications, notif_count);
+        }
+        if (encryptions && enc_count) {
+            free_words(encryptions, enc_count);
+        }
+    }
+
+    return err;
 }
 
 nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct nwc_connection* conn,
-- 
2.43.0


From f56e8e787400224f9fb0cdcc4958ed2035304421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:34 +0000
Subject: [PATCH 073/107] fix: wallet requests are sealed whole, whatever the
 length of method and parameters

---
 src/nip47.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 22c342a..dc6d677 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -455,12 +455,9 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
         }
     }
     
-    char escaped_method[256];
-    nip47_json_escape(escaped_method, sizeof(escaped_method), method);
-
 #ifdef HAVE_CJSON
     {
-        cJSON* params_parsed = cJSON_Parse(params_json);
+        cJSON* params_parsed = cJSON_ParseWithOpts(params_json, NULL, 1);
         if (!params_parsed) {
             nostr_event_destroy(*event);
             *event = NULL;
@@ -476,8 +473,20 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
     }
 #endif
 
-    char payload[8192];
-    snprintf(payload, sizeof(payload), "{\"method\":\"%s\",\"params\":%s}", escaped_method, params_json);
+    size_t method_size = strlen(method) * 6 + 1;
+    size_t payload_size = method_size + strlen(params_json) + 32;
+    char* escaped_method = malloc(method_size);
+    char* payload = malloc(payload_size);
+    if (!escaped_method || !payload) {
+        free(escaped_method);
+        free(payload);
+        nostr_event_destroy(*event);
+        *event = NULL;
+        return NOSTR_ERR_MEMORY;
+    }
+    nip47_json_escape(escaped_method, method_size, method);
+    snprintf(payload, payload_size, "{\"method\":\"%s\",\"params\":%s}", escaped_method, params_json);
+    free(escaped_method);
     
     char* encrypted = NULL;
     if (use_nip44) {
@@ -489,6 +498,7 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
     } else {
         err = NOSTR_ERR_NOT_SUPPORTED;
     }
+    free(payload);
     
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
-- 
2.43.0


From c7671d52168e4a330402fd558a52e53c4ed23063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:35 +0000
Subject: [PATCH 074/107] fix: responses are opened with the key of their
 author and without an encryption tag

---
 src/nip47.c | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index dc6d677..3b7c316 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -531,34 +531,21 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    nostr_key service_pubkey = {0};
-    int found_p_tag = 0;
-    
-    for (size_t i = 0; i < event->tags_count; i++) {
-        if (event->tags[i].count >= 2 && strcmp(event->tags[i].values[0], "p") == 0) {
-            if (hex_decode(event->tags[i].values[1], service_pubkey.data, 32) == 0) {
-                found_p_tag = 1;
-                break;
-            }
-        }
-    }
-    
-    if (!found_p_tag) {
-        memcpy(&service_pubkey, &event->pubkey, sizeof(nostr_key));
-    }
+    if (result_type) *result_type = NULL;
+    if (result_json) *result_json = NULL;
+    if (error_code) *error_code = NULL;
+    if (error_message) *error_message = NULL;
+
+    /* The p tag of a response names the client; its author is the wallet service. */
+    nostr_key service_pubkey;
+    memcpy(&service_pubkey, &event->pubkey, sizeof(nostr_key));
     
     char* decrypted = NULL;
     nostr_error_t err;
     
-    int is_nip44 = 0;
-    for (size_t i = 0; i < event->tags_count; i++) {
-        if (event->tags[i].count >= 2 && strcmp(event->tags[i].values[0], "encryption") == 0) {
-            if (strstr(event->tags[i].values[1], "nip44") != NULL) {
-                is_nip44 = 1;
-            }
-            break;
-        }
-    }
+    /* Requests are only made with NIP-44, and responses use the encryption of their request. */
+    const char* encryption = first_tag_value(event, "encryption");
+    int is_nip44 = !encryption || strstr(encryption, "nip44") != NULL;
     
     size_t decrypted_len = 0;
     if (is_nip44) {
-- 
2.43.0


From 5febf57307d7e38ff7e1346a89cbfd7bd0ceb8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:35 +0000
Subject: [PATCH 075/107] fix: members missing from wallet responses and
 notifications are reported as missing

---
 src/nip47.c | 49 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 3b7c316..760ea8c 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -564,43 +564,59 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
     
 #ifdef HAVE_CJSON
     cJSON* root = cJSON_Parse(decrypted);
-    if (!root) {
+    if (!cJSON_IsObject(root)) {
+        cJSON_Delete(root);
         free(decrypted);
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    int ok = 1;
+
     if (result_type) {
-        cJSON* type_obj = cJSON_GetObjectItem(root, "result_type");
+        cJSON* type_obj = cJSON_GetObjectItemCaseSensitive(root, "result_type");
         if (type_obj && cJSON_IsString(type_obj)) {
             *result_type = strdup(type_obj->valuestring);
+            ok = ok && *result_type;
         }
     }
     
     if (result_json) {
-        cJSON* result_obj = cJSON_GetObjectItem(root, "result");
+        cJSON* result_obj = cJSON_GetObjectItemCaseSensitive(root, "result");
         if (result_obj) {
             *result_json = cJSON_PrintUnformatted(result_obj);
+            ok = ok && *result_json;
         }
     }
     
-    cJSON* error_obj = cJSON_GetObjectItem(root, "error");
+    cJSON* error_obj = cJSON_GetObjectItemCaseSensitive(root, "error");
     if (error_obj) {
         if (error_code) {
-            cJSON* code_obj = cJSON_GetObjectItem(error_obj, "code");
+            cJSON* code_obj = cJSON_GetObjectItemCaseSensitive(error_obj, "code");
             if (code_obj && cJSON_IsString(code_obj)) {
                 *error_code = strdup(code_obj->valuestring);
+                ok = ok && *error_code;
             }
         }
         
         if (error_message) {
-            cJSON* msg_obj = cJSON_GetObjectItem(error_obj, "message");
+            cJSON* msg_obj = cJSON_GetObjectItemCaseSensitive(error_obj, "message");
             if (msg_obj && cJSON_IsString(msg_obj)) {
                 *error_message = strdup(msg_obj->valuestring);
+                ok = ok && *error_message;
             }
         }
     }
     
     cJSON_Delete(root);
+
+    if (!ok) {
+        if (result_type) { free(*result_type); *result_type = NULL; }
+        if (result_json) { free(*result_json); *result_json = NULL; }
+        if (error_code) { free(*error_code); *error_code = NULL; }
+        if (error_message) { free(*error_message); *error_message = NULL; }
+        free(decrypted);
+        return NOSTR_ERR_MEMORY;
+    }
 #else
     if (result_type) *result_type = strdup("unknown");
     if (result_json) *result_json = strdup("{}");
@@ -748,6 +764,9 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    if (notification_type) *notification_type = NULL;
+    if (notification_json) *notification_json = NULL;
+
     nostr_key service_pubkey;
     memcpy(&service_pubkey, &event->pubkey, sizeof(nostr_key));
     
@@ -771,26 +790,38 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
     
 #ifdef HAVE_CJSON
     cJSON* root = cJSON_Parse(decrypted);
-    if (!root) {
+    if (!cJSON_IsObject(root)) {
+        cJSON_Delete(root);
         free(decrypted);
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    int ok = 1;
+
     if (notification_type) {
-        cJSON* type_obj = cJSON_GetObjectItem(root, "notification_type");
+        cJSON* type_obj = cJSON_GetObjectItemCaseSensitive(root, "notification_type");
         if (type_obj && cJSON_IsString(type_obj)) {
             *notification_type = strdup(type_obj->valuestring);
+            ok = ok && *notification_type;
         }
     }
     
     if (notification_json) {
-        cJSON* notif_obj = cJSON_GetObjectItem(root, "notification");
+        cJSON* notif_obj = cJSON_GetObjectItemCaseSensitive(root, "notification");
         if (notif_obj) {
             *notification_json = cJSON_PrintUnformatted(notif_obj);
+            ok = ok && *notification_json;
         }
     }
     
     cJSON_Delete(root);
+
+    if (!ok) {
+        if (notification_type) { free(*notification_type); *notification_type = NULL; }
+        if (notification_json) { free(*notification_json); *notification_json = NULL; }
+        free(decrypted);
+        return NOSTR_ERR_MEMORY;
+    }
 #else
     if (notification_type) *notification_type = strdup("unknown");
     if (notification_json) *notification_json = strdup("{}");
-- 
2.43.0


From 295b7f0ba8c6534a596dd11d7a8afd2d0dbbb4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:25 +0000
Subject: [PATCH 076/107] fix: amounts of wallet requests are written exactly,
 and requests without memory are not made

---
 src/nip47.c          |  45 +++++++++------
 src/nip47_commands.c | 128 ++++++++++++++++++++++++-------------------
 2 files changed, 101 insertions(+), 72 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 760ea8c..0bdf23d 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -628,6 +628,23 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
     return NOSTR_OK;
 }
 
+#ifdef HAVE_CJSON
+/* As text: a double would not hold every amount. */
+static int add_u64(cJSON* object, const char* name, uint64_t value)
+{
+    char text[24];
+    snprintf(text, sizeof(text), "%llu", (unsigned long long)value);
+    return cJSON_AddRawToObject(object, name, text) != NULL;
+}
+
+static nostr_error_t print_params(cJSON* params, int complete, char** params_json)
+{
+    *params_json = complete ? cJSON_PrintUnformatted(params) : NULL;
+    cJSON_Delete(params);
+    return *params_json ? NOSTR_OK : NOSTR_ERR_MEMORY;
+}
+#endif
+
 nostr_error_t nostr_nip47_create_pay_invoice_params(char** params_json, const char* invoice, 
                                                     uint64_t* amount_msats)
 {
@@ -641,17 +658,15 @@ nostr_error_t nostr_nip47_create_pay_invoice_params(char** params_json, const ch
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON_AddStringToObject(params, "invoice", invoice);
+    int ok = cJSON_AddStringToObject(params, "invoice", invoice) != NULL;
     
     if (amount_msats) {
-        cJSON_AddNumberToObject(params, "amount", *amount_msats);
+        ok = ok && add_u64(params, "amount", *amount_msats);
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
-    cJSON_Delete(params);
-    
-    if (!*params_json) {
-        return NOSTR_ERR_MEMORY;
+    nostr_error_t err = print_params(params, ok, params_json);
+    if (err != NOSTR_OK) {
+        return err;
     }
 #else
     char escaped_invoice[4096];
@@ -701,25 +716,23 @@ nostr_error_t nostr_nip47_create_make_invoice_params(char** params_json, uint64_
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON_AddNumberToObject(params, "amount", amount_msats);
+    int ok = add_u64(params, "amount", amount_msats);
     
     if (description) {
-        cJSON_AddStringToObject(params, "description", description);
+        ok = ok && cJSON_AddStringToObject(params, "description", description);
     }
     
     if (description_hash) {
-        cJSON_AddStringToObject(params, "description_hash", description_hash);
+        ok = ok && cJSON_AddStringToObject(params, "description_hash", description_hash);
     }
     
     if (expiry_secs) {
-        cJSON_AddNumberToObject(params, "expiry", *expiry_secs);
+        ok = ok && add_u64(params, "expiry", *expiry_secs);
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
-    cJSON_Delete(params);
-    
-    if (!*params_json) {
-        return NOSTR_ERR_MEMORY;
+    nostr_error_t err = print_params(params, ok, params_json);
+    if (err != NOSTR_OK) {
+        return err;
     }
 #else
     char buffer[4096];
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 7bba6d9..afc4dfe 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -2,12 +2,38 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
+#include <errno.h>
+#include <time.h>
 #include "../include/nostr.h"
 
 #ifdef HAVE_CJSON
 #include <cjson/cJSON.h>
 #endif
 
+#ifdef HAVE_CJSON
+/* As text: a double would not hold every amount. */
+static int add_u64(cJSON* object, const char* name, uint64_t value)
+{
+    char text[24];
+    snprintf(text, sizeof(text), "%llu", (unsigned long long)value);
+    return cJSON_AddRawToObject(object, name, text) != NULL;
+}
+
+static int add_time(cJSON* object, const char* name, time_t value)
+{
+    char text[24];
+    snprintf(text, sizeof(text), "%lld", (long long)value);
+    return cJSON_AddRawToObject(object, name, text) != NULL;
+}
+
+static nostr_error_t print_params(cJSON* params, int complete, char** params_json)
+{
+    *params_json = complete ? cJSON_PrintUnformatted(params) : NULL;
+    cJSON_Delete(params);
+    return *params_json ? NOSTR_OK : NOSTR_ERR_MEMORY;
+}
+#endif
+
 nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, time_t* from, time_t* until,
                                                          uint32_t* limit, uint32_t* offset, 
                                                          int* unpaid, const char* type)
@@ -22,35 +48,35 @@ nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, ti
         return NOSTR_ERR_MEMORY;
     }
     
+    int ok = 1;
+    
     if (from) {
-        cJSON_AddNumberToObject(params, "from", *from);
+        ok = ok && add_time(params, "from", *from);
     }
     
     if (until) {
-        cJSON_AddNumberToObject(params, "until", *until);
+        ok = ok && add_time(params, "until", *until);
     }
     
     if (limit) {
-        cJSON_AddNumberToObject(params, "limit", *limit);
+        ok = ok && add_u64(params, "limit", *limit);
     }
     
     if (offset) {
-        cJSON_AddNumberToObject(params, "offset", *offset);
+        ok = ok && add_u64(params, "offset", *offset);
     }
     
     if (unpaid) {
-        cJSON_AddBoolToObject(params, "unpaid", *unpaid);
+        ok = ok && cJSON_AddBoolToObject(params, "unpaid", *unpaid);
     }
     
     if (type) {
-        cJSON_AddStringToObject(params, "type", type);
+        ok = ok && cJSON_AddStringToObject(params, "type", type);
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
-    cJSON_Delete(params);
-    
-    if (!*params_json) {
-        return NOSTR_ERR_MEMORY;
+    nostr_error_t err = print_params(params, ok, params_json);
+    if (err != NOSTR_OK) {
+        return err;
     }
 #else
     char buffer[4096];
@@ -116,19 +142,19 @@ nostr_error_t nostr_nip47_create_lookup_invoice_params(char** params_json, const
         return NOSTR_ERR_MEMORY;
     }
     
+    int ok = 1;
+    
     if (payment_hash) {
-        cJSON_AddStringToObject(params, "payment_hash", payment_hash);
+        ok = ok && cJSON_AddStringToObject(params, "payment_hash", payment_hash);
     }
     
     if (invoice) {
-        cJSON_AddStringToObject(params, "invoice", invoice);
+        ok = ok && cJSON_AddStringToObject(params, "invoice", invoice);
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
-    cJSON_Delete(params);
-    
-    if (!*params_json) {
-        return NOSTR_ERR_MEMORY;
+    nostr_error_t err = print_params(params, ok, params_json);
+    if (err != NOSTR_OK) {
+        return err;
     }
 #else
     char buffer[4096];
@@ -168,44 +194,42 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON_AddNumberToObject(params, "amount", amount_msats);
-    cJSON_AddStringToObject(params, "pubkey", pubkey);
+    int ok = add_u64(params, "amount", amount_msats) &&
+             cJSON_AddStringToObject(params, "pubkey", pubkey);
     
     if (preimage) {
-        cJSON_AddStringToObject(params, "preimage", preimage);
+        ok = ok && cJSON_AddStringToObject(params, "preimage", preimage);
     }
     
     if (tlv_records && tlv_count > 0) {
-        cJSON* tlv_array = cJSON_CreateArray();
-        if (!tlv_array) {
-            cJSON_Delete(params);
-            return NOSTR_ERR_MEMORY;
-        }
+        cJSON* tlv_array = ok ? cJSON_AddArrayToObject(params, "tlv_records") : NULL;
+        ok = tlv_array != NULL;
         
-        for (size_t i = 0; i < tlv_count; i += 2) {
+        for (size_t i = 0; ok && i < tlv_count; i += 2) {
             if (i + 1 < tlv_count) {
                 cJSON* tlv = cJSON_CreateObject();
                 if (!tlv) {
                     cJSON_Delete(params);
                     return NOSTR_ERR_MEMORY;
                 }
+                cJSON_AddItemToArray(tlv_array, tlv);
                 
                 char* end;
-                long type_val = strtol(tlv_records[i], &end, 10);
-                cJSON_AddNumberToObject(tlv, "type", type_val);
-                cJSON_AddStringToObject(tlv, "value", tlv_records[i + 1]);
-                cJSON_AddItemToArray(tlv_array, tlv);
+                errno = 0;
+                unsigned long long type_val = strtoull(tlv_records[i], &end, 10);
+                if (tlv_records[i][0] < '0' || tlv_records[i][0] > '9' || *end || errno) {
+                    cJSON_Delete(params);
+                    return NOSTR_ERR_INVALID_PARAM;
+                }
+                ok = add_u64(tlv, "type", type_val) &&
+                     cJSON_AddStringToObject(tlv, "value", tlv_records[i + 1]);
             }
         }
-        
-        cJSON_AddItemToObject(params, "tlv_records", tlv_array);
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
-    cJSON_Delete(params);
-    
-    if (!*params_json) {
-        return NOSTR_ERR_MEMORY;
+    nostr_error_t err = print_params(params, ok, params_json);
+    if (err != NOSTR_OK) {
+        return err;
     }
 #else
     char buffer[8192];
@@ -262,39 +286,31 @@ nostr_error_t nostr_nip47_create_multi_pay_invoice_params(char** params_json,
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON* inv_array = cJSON_CreateArray();
-    if (!inv_array) {
-        cJSON_Delete(params);
-        return NOSTR_ERR_MEMORY;
-    }
+    cJSON* inv_array = cJSON_AddArrayToObject(params, "invoices");
+    int ok = inv_array != NULL;
     
-    for (size_t i = 0; i < count; i++) {
+    for (size_t i = 0; ok && i < count; i++) {
         cJSON* inv = cJSON_CreateObject();
         if (!inv) {
             cJSON_Delete(params);
             return NOSTR_ERR_MEMORY;
         }
+        cJSON_AddItemToArray(inv_array, inv);
         
         if (invoice_ids && invoice_ids[i]) {
-            cJSON_AddStringToObject(inv, "id", invoice_ids[i]);
+            ok = ok && cJSON_AddStringToObject(inv, "id", invoice_ids[i]);
         }
         
-        cJSON_AddStringToObject(inv, "invoice", invoices[i]);
+        ok = ok && cJSON_AddStringToObject(inv, "invoice", invoices[i]);
         
         if (amounts && amounts[i] > 0) {
-            cJSON_AddNumberToObject(inv, "amount", amounts[i]);
+            ok = ok && add_u64(inv, "amount", amounts[i]);
         }
-        
-        cJSON_AddItemToArray(inv_array, inv);
     }
     
-    cJSON_AddItemToObject(params, "invoices", inv_array);
-    
-    *params_json = cJSON_PrintUnformatted(params);
-    cJSON_Delete(params);
-    
-    if (!*params_json) {
-        return NOSTR_ERR_MEMORY;
+    nostr_error_t err = print_params(params, ok, params_json);
+    if (err != NOSTR_OK) {
+        return err;
     }
 #else
     char buffer[16384];
-- 
2.43.0


From 170c514755b6d2f022585d70d15a77bb54c9960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:26 +0000
Subject: [PATCH 077/107] fix: numbers of wallet replies that do not fit are
 not converted

---
 src/nip47_commands.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index afc4dfe..541bc28 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -382,6 +382,11 @@ nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    /* 2^64, the first value that does not fit */
+    if (!(balance->valuedouble >= 0 && balance->valuedouble < 18446744073709551616.0)) {
+        cJSON_Delete(root);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
     *balance_msats = (uint64_t)balance->valuedouble;
     
     cJSON_Delete(root);
@@ -421,7 +426,8 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
     
     if (fees_paid) {
         cJSON* fees = cJSON_GetObjectItem(root, "fees_paid");
-        if (fees && cJSON_IsNumber(fees)) {
+        if (fees && cJSON_IsNumber(fees) &&
+            fees->valuedouble >= 0 && fees->valuedouble < 18446744073709551616.0) {
             *fees_paid = (uint64_t)fees->valuedouble;
         }
     }
@@ -501,7 +507,8 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
     
     if (block_height) {
         cJSON* height = cJSON_GetObjectItem(root, "block_height");
-        if (height && cJSON_IsNumber(height)) {
+        if (height && cJSON_IsNumber(height) &&
+            height->valuedouble >= 0 && height->valuedouble <= UINT32_MAX) {
             *block_height = (uint32_t)height->valuedouble;
         }
     }
-- 
2.43.0


From 5755a8f0cfbf31287326fd9df5f45da5759c4fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:26 +0000
Subject: [PATCH 078/107] fix: members missing from wallet replies are reported
 as missing, and methods that are no text are left out

---
 src/nip47_commands.c | 71 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 17 deletions(-)

diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 541bc28..d292641 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -376,7 +376,7 @@ nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    cJSON* balance = cJSON_GetObjectItem(root, "balance");
+    cJSON* balance = cJSON_GetObjectItemCaseSensitive(root, "balance");
     if (!balance || !cJSON_IsNumber(balance)) {
         cJSON_Delete(root);
         return NOSTR_ERR_INVALID_PARAM;
@@ -411,6 +411,9 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    if (preimage) *preimage = NULL;
+    if (fees_paid) *fees_paid = 0;
+
 #ifdef HAVE_CJSON
     cJSON* root = cJSON_Parse(result_json);
     if (!root) {
@@ -418,14 +421,18 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
     }
     
     if (preimage) {
-        cJSON* preim = cJSON_GetObjectItem(root, "preimage");
+        cJSON* preim = cJSON_GetObjectItemCaseSensitive(root, "preimage");
         if (preim && cJSON_IsString(preim)) {
             *preimage = strdup(preim->valuestring);
+            if (!*preimage) {
+                cJSON_Delete(root);
+                return NOSTR_ERR_MEMORY;
+            }
         }
     }
     
     if (fees_paid) {
-        cJSON* fees = cJSON_GetObjectItem(root, "fees_paid");
+        cJSON* fees = cJSON_GetObjectItemCaseSensitive(root, "fees_paid");
         if (fees && cJSON_IsNumber(fees) &&
             fees->valuedouble >= 0 && fees->valuedouble < 18446744073709551616.0) {
             *fees_paid = (uint64_t)fees->valuedouble;
@@ -471,42 +478,57 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    if (alias) *alias = NULL;
+    if (color) *color = NULL;
+    if (pubkey) *pubkey = NULL;
+    if (network) *network = NULL;
+    if (block_height) *block_height = 0;
+    if (methods && method_count) {
+        *methods = NULL;
+        *method_count = 0;
+    }
+
 #ifdef HAVE_CJSON
+    int ok = 1;
     cJSON* root = cJSON_Parse(result_json);
     if (!root) {
         return NOSTR_ERR_INVALID_PARAM;
     }
     
     if (alias) {
-        cJSON* al = cJSON_GetObjectItem(root, "alias");
+        cJSON* al = cJSON_GetObjectItemCaseSensitive(root, "alias");
         if (al && cJSON_IsString(al)) {
             *alias = strdup(al->valuestring);
+            ok = ok && *alias;
         }
     }
     
     if (color) {
-        cJSON* col = cJSON_GetObjectItem(root, "color");
+        cJSON* col = cJSON_GetObjectItemCaseSensitive(root, "color");
         if (col && cJSON_IsString(col)) {
             *color = strdup(col->valuestring);
+            ok = ok && *color;
         }
     }
     
     if (pubkey) {
-        cJSON* pk = cJSON_GetObjectItem(root, "pubkey");
+        cJSON* pk = cJSON_GetObjectItemCaseSensitive(root, "pubkey");
         if (pk && cJSON_IsString(pk)) {
             *pubkey = strdup(pk->valuestring);
+            ok = ok && *pubkey;
         }
     }
     
     if (network) {
-        cJSON* net = cJSON_GetObjectItem(root, "network");
+        cJSON* net = cJSON_GetObjectItemCaseSensitive(root, "network");
         if (net && cJSON_IsString(net)) {
             *network = strdup(net->valuestring);
+            ok = ok && *network;
         }
     }
     
     if (block_height) {
-        cJSON* height = cJSON_GetObjectItem(root, "block_height");
+        cJSON* height = cJSON_GetObjectItemCaseSensitive(root, "block_height");
         if (height && cJSON_IsNumber(height) &&
             height->valuedouble >= 0 && height->valuedouble <= UINT32_MAX) {
             *block_height = (uint32_t)height->valuedouble;
@@ -514,22 +536,37 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
     }
     
     if (methods && method_count) {
-        cJSON* meth = cJSON_GetObjectItem(root, "methods");
+        cJSON* meth = cJSON_GetObjectItemCaseSensitive(root, "methods");
         if (meth && cJSON_IsArray(meth)) {
-            *method_count = cJSON_GetArraySize(meth);
-            *methods = malloc(*method_count * sizeof(char*));
-            if (*methods) {
-                for (size_t i = 0; i < *method_count; i++) {
-                    cJSON* item = cJSON_GetArrayItem(meth, i);
-                    if (item && cJSON_IsString(item)) {
-                        (*methods)[i] = strdup(item->valuestring);
-                    }
+            *methods = malloc((size_t)cJSON_GetArraySize(meth) * sizeof(char*) + 1);
+            ok = ok && *methods;
+            for (cJSON* item = meth->child; ok && item; item = item->next) {
+                if (cJSON_IsString(item)) {
+                    (*methods)[*method_count] = strdup(item->valuestring);
+                    ok = (*methods)[*method_count] != NULL;
+                    *method_count += ok;
                 }
             }
         }
     }
     
     cJSON_Delete(root);
+
+    if (!ok) {
+        if (alias) { free(*alias); *alias = NULL; }
+        if (color) { free(*color); *color = NULL; }
+        if (pubkey) { free(*pubkey); *pubkey = NULL; }
+        if (network) { free(*network); *network = NULL; }
+        if (methods && method_count) {
+            for (size_t i = 0; i < *method_count; i++) {
+                free((*methods)[i]);
+            }
+            free(*methods);
+            *methods = NULL;
+            *method_count = 0;
+        }
+        return NOSTR_ERR_MEMORY;
+    }
 #else
     if (alias) *alias = strdup("wallet");
     if (color) *color = strdup("#000000");
-- 
2.43.0


From d82a2395ec1b7112c555727ef3de74458e8dc6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:55 +0000
Subject: [PATCH 079/107] fix: a wallet session is found by its whole id only

---
 src/nip47_session.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 074faad..7da6a6d 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -38,6 +38,10 @@ static int rate_limit_count = 0;
 
 static nwc_session_t* find_session(const char* session_id)
 {
+    if (strlen(session_id) != 64) {
+        return NULL;
+    }
+
     for (size_t i = 0; i < max_sessions; i++) {
         if (sessions[i].active && nostr_constant_time_memcmp(sessions[i].session_id, session_id, 64) == 0) {
             return &sessions[i];
-- 
2.43.0


From 6c0a10b595013db31c40b5d404e750799f0cd2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:55 +0000
Subject: [PATCH 080/107] fix: amounts near 2^64 do not pass the limit of a
 wallet permission

---
 src/nip47_session.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 7da6a6d..b45c022 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -280,7 +280,7 @@ nostr_error_t nostr_nip47_session_check_permission(const char* session_id, const
         perm->reset_time = now + perm->reset_interval_secs;
     }
     
-    if (perm->limit_msats > 0 && perm->used_msats + amount_msats > perm->limit_msats) {
+    if (perm->limit_msats > 0 && amount_msats > perm->limit_msats - perm->used_msats) {
         pthread_mutex_unlock(&session->lock);
         return NOSTR_ERR_INVALID_PARAM;
     }
-- 
2.43.0


From 934790f38ddc5147d57de977ea46c380f7e0b13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:24 +0000
Subject: [PATCH 081/107] fix: wallet sessions and permissions without memory
 are not made

---
 src/nip47_session.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index b45c022..57aa969 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -93,13 +93,14 @@ nostr_error_t nostr_nip47_session_init()
     
     if (!sessions_initialized) {
         const nostr_config* config = nostr_config_get_current();
-        max_sessions = config ? config->max_sessions : 100;
+        size_t count = config ? config->max_sessions : 100;
         
-        sessions = calloc(max_sessions, sizeof(nwc_session_t));
+        sessions = calloc(count, sizeof(nwc_session_t));
         if (!sessions) {
             pthread_mutex_unlock(&sessions_lock);
             return NOSTR_ERR_MEMORY;
         }
+        max_sessions = count;
         
         for (size_t i = 0; i < max_sessions; i++) {
             sessions[i].active = 0;
@@ -122,12 +123,13 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (!sessions_initialized) {
-        nostr_nip47_session_init();
+    nostr_error_t err = nostr_nip47_session_init();
+    if (err != NOSTR_OK) {
+        return err;
     }
     
     struct nwc_connection* conn = NULL;
-    nostr_error_t err = nostr_nip47_parse_connection_uri(connection_uri, &conn);
+    err = nostr_nip47_parse_connection_uri(connection_uri, &conn);
     if (err != NOSTR_OK) {
         return err;
     }
@@ -165,7 +167,8 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
     nwc_session_t* session = &sessions[slot];
     pthread_mutex_lock(&session->lock);
     
-    if (generate_session_id(session->session_id) != 0) {
+    char* id_copy = NULL;
+    if (generate_session_id(session->session_id) != 0 || !(id_copy = strdup(session->session_id))) {
         pthread_mutex_unlock(&session->lock);
         pthread_mutex_unlock(&sessions_lock);
         nostr_nip47_free_connection(conn);
@@ -180,7 +183,7 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
     session->active = 1;
     session->permission_count = 0;
     
-    *session_id = strdup(session->session_id);
+    *session_id = id_copy;
     
     pthread_mutex_unlock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
@@ -224,6 +227,10 @@ nostr_error_t nostr_nip47_session_add_permission(const char* session_id, const c
     
     permission_t* perm = &session->permissions[session->permission_count];
     perm->name = strdup(permission);
+    if (!perm->name) {
+        pthread_mutex_unlock(&session->lock);
+        return NOSTR_ERR_MEMORY;
+    }
     perm->limit_msats = limit_msats;
     perm->reset_interval_secs = reset_interval_secs;
     perm->reset_time = time(NULL) + reset_interval_secs;
-- 
2.43.0


From 63e03b4ead7fdcf78239efb3220bd47f3fbb5d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:24 +0000
Subject: [PATCH 082/107] fix: a raised limit of permissions does not write
 past those of open sessions

---
 src/nip47_session.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 57aa969..69aa180 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -19,6 +19,7 @@ typedef struct {
     struct nwc_connection* connection;
     permission_t* permissions;
     size_t permission_count;
+    size_t permission_capacity;
     time_t created_at;
     time_t last_used;
     time_t expires_at;
@@ -217,12 +218,14 @@ nostr_error_t nostr_nip47_session_add_permission(const char* session_id, const c
         return NOSTR_ERR_MEMORY;
     }
     
-    if (session->permissions == NULL) {
-        session->permissions = calloc(max_perms, sizeof(permission_t));
-        if (!session->permissions) {
+    if (session->permissions == NULL || session->permission_count >= session->permission_capacity) {
+        permission_t* permissions = realloc(session->permissions, max_perms * sizeof(permission_t));
+        if (!permissions) {
             pthread_mutex_unlock(&session->lock);
             return NOSTR_ERR_MEMORY;
         }
+        session->permissions = permissions;
+        session->permission_capacity = max_perms;
     }
     
     permission_t* perm = &session->permissions[session->permission_count];
-- 
2.43.0


From 7f3abff8c994b29a8a833b88111276d541e0be18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:24 +0000
Subject: [PATCH 083/107] fix: a wallet session is ended under the lock of the
 list

---
 src/nip47_session.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 69aa180..a3d283a 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -70,8 +70,8 @@ static void cleanup_expired_sessions()
     time_t now = time(NULL);
     
     for (size_t i = 0; i < max_sessions; i++) {
+        pthread_mutex_lock(&sessions[i].lock);
         if (sessions[i].active && sessions[i].expires_at < now) {
-            pthread_mutex_lock(&sessions[i].lock);
             sessions[i].active = 0;
             if (sessions[i].connection) {
                 nostr_nip47_free_connection(sessions[i].connection);
@@ -83,8 +83,8 @@ static void cleanup_expired_sessions()
             free(sessions[i].permissions);
             sessions[i].permissions = NULL;
             sessions[i].permission_count = 0;
-            pthread_mutex_unlock(&sessions[i].lock);
         }
+        pthread_mutex_unlock(&sessions[i].lock);
     }
 }
 
@@ -369,7 +369,6 @@ nostr_error_t nostr_nip47_session_destroy(const char* session_id)
     }
 
     pthread_mutex_lock(&session->lock);
-    pthread_mutex_unlock(&sessions_lock);
     
     session->active = 0;
     if (session->connection) {
@@ -385,5 +384,6 @@ nostr_error_t nostr_nip47_session_destroy(const char* session_id)
     session->permission_count = 0;
     
     pthread_mutex_unlock(&session->lock);
+    pthread_mutex_unlock(&sessions_lock);
     return NOSTR_OK;
 }
\ No newline at end of file
-- 
2.43.0


From 01e873f9cdb096968b1d9135f0baf7b1fb034a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:43 +0000
Subject: [PATCH 084/107] fix: private items of lists are read whole, and
 malformed ones are refused

---
 src/nip51.c | 258 +++++++++++++++++++++-------------------------------
 1 file changed, 106 insertions(+), 152 deletions(-)

diff --git a/src/nip51.c b/src/nip51.c
index d06e83d..bd7940b 100644
--- a/src/nip51.c
+++ b/src/nip51.c
@@ -89,7 +89,7 @@ static bool is_json_whitespace(char c)
 
 static const char* skip_json_whitespace(const char* p)
 {
-    while (*p && (is_json_whitespace(*p) || *p == ',')) {
+    while (is_json_whitespace(*p)) {
         p++;
     }
     return p;
@@ -570,184 +570,138 @@ cleanup:
     return err;
 }
 
-static size_t encode_utf8(char* dest, size_t max_len, size_t len, unsigned int cp, bool* truncated)
+static char* encode_utf8(char* dest, unsigned int cp)
 {
     if (cp <= 0x7F) {
-        if (len < max_len) {
-            dest[len++] = (char)cp;
-        } else {
-            *truncated = true;
-        }
+        *dest++ = (char)cp;
     } else if (cp <= 0x7FF) {
-        if (len + 2 <= max_len) {
-            dest[len++] = (char)(0xC0 | (cp >> 6));
-            dest[len++] = (char)(0x80 | (cp & 0x3F));
-        } else {
-            *truncated = true;
-        }
+        *dest++ = (char)(0xC0 | (cp >> 6));
+        *dest++ = (char)(0x80 | (cp & 0x3F));
     } else if (cp <= 0xFFFF) {
-        if (len + 3 <= max_len) {
-            dest[len++] = (char)(0xE0 | (cp >> 12));
-            dest[len++] = (char)(0x80 | ((cp >> 6) & 0x3F));
-            dest[len++] = (char)(0x80 | (cp & 0x3F));
-        } else {
-            *truncated = true;
-        }
-    } else if (cp <= 0x10FFFF) {
-        if (len + 4 <= max_len) {
-            dest[len++] = (char)(0xF0 | (cp >> 18));
-            dest[len++] = (char)(0x80 | ((cp >> 12) & 0x3F));
-            dest[len++] = (char)(0x80 | ((cp >> 6) & 0x3F));
-            dest[len++] = (char)(0x80 | (cp & 0x3F));
-        } else {
-            *truncated = true;
-        }
+        *dest++ = (char)(0xE0 | (cp >> 12));
+        *dest++ = (char)(0x80 | ((cp >> 6) & 0x3F));
+        *dest++ = (char)(0x80 | (cp & 0x3F));
     } else {
-        if (len < max_len) dest[len++] = '?';
+        *dest++ = (char)(0xF0 | (cp >> 18));
+        *dest++ = (char)(0x80 | ((cp >> 12) & 0x3F));
+        *dest++ = (char)(0x80 | ((cp >> 6) & 0x3F));
+        *dest++ = (char)(0x80 | (cp & 0x3F));
     }
-    return len;
+    return dest;
 }
 
-static nostr_error_t parse_private_content(const char* json, nostr_list* list)
+/* Reads the JSON string at *pp into dest, which holds at least as many bytes as the rest of the text. */
+static bool parse_json_string(const char** pp, char* dest)
 {
-    if (!json || strlen(json) < 2) {
-        return NOSTR_OK;
-    }
+    const char* p = *pp;
+    if (*p++ != '"') return false;
 
-    const char* p = json;
-    while (*p && *p != '[') {
+    while (*p && *p != '"') {
+        if (*p != '\\') {
+            *dest++ = *p++;
+            continue;
+        }
         p++;
-    }
-    if (!*p) {
-        return NOSTR_ERR_JSON_PARSE;
-    }
-    p++;
-
-    while (*p) {
-        p = skip_json_whitespace(p);
-        if (*p == ']') {
+        switch (*p++) {
+        case 'b':  *dest++ = '\b'; break;
+        case 'f':  *dest++ = '\f'; break;
+        case 'n':  *dest++ = '\n'; break;
+        case 'r':  *dest++ = '\r'; break;
+        case 't':  *dest++ = '\t'; break;
+        case '"':  *dest++ = '"';  break;
+        case '\\': *dest++ = '\\'; break;
+        case '/':  *dest++ = '/';  break;
+        case 'u': {
+            int hi = parse_hex4(&p);
+            if (hi <= 0) return false;
+            unsigned int codepoint = (unsigned int)hi;
+            if (hi >= 0xD800 && hi <= 0xDFFF) {
+                if (hi > 0xDBFF || p[0] != '\\' || p[1] != 'u') return false;
+                p += 2;
+                int lo = parse_hex4(&p);
+                if (lo < 0xDC00 || lo > 0xDFFF) return false;
+                codepoint = 0x10000 + ((codepoint - 0xD800) << 10) + ((unsigned int)lo - 0xDC00);
+            }
+            dest = encode_utf8(dest, codepoint);
             break;
         }
-        if (*p != '[') {
-            return NOSTR_ERR_JSON_PARSE;
+        default:
+            return false;
         }
-        p++;
+    }
+    *dest = '\0';
 
-        char tag_type[64] = {0};
-        char value[1024] = {0};
-        char relay_hint[512] = {0};
-        char petname[256] = {0};
-        int field = 0;
+    if (*p != '"') return false;
+    *pp = p + 1;
+    return true;
+}
 
-        while (*p && *p != ']') {
-            p = skip_json_whitespace(p);
-            if (*p == ']') {
-                break;
-            }
+static nostr_error_t parse_private_content(const char* json, nostr_list* list)
+{
+    if (!json) {
+        return NOSTR_OK;
+    }
 
-            if (*p != '"') {
-                return NOSTR_ERR_JSON_PARSE;
-            }
-            p++;
-
-            char* dest;
-            size_t max_len;
-            switch (field) {
-            case 0:  dest = tag_type;   max_len = sizeof(tag_type) - 1;   break;
-            case 1:  dest = value;      max_len = sizeof(value) - 1;      break;
-            case 2:  dest = relay_hint; max_len = sizeof(relay_hint) - 1; break;
-            case 3:  dest = petname;    max_len = sizeof(petname) - 1;    break;
-            default:
-                while (*p && *p != '"') p++;
-                if (*p == '"') p++;
-                field++;
-                continue;
-            }
+    const char* p = skip_json_whitespace(json);
+    if (*p++ != '[') {
+        return NOSTR_ERR_JSON_PARSE;
+    }
 
-            size_t len = 0;
-            bool truncated = false;
-            while (*p && *p != '"') {
-                if (len >= max_len) {
-                    truncated = true;
-                    while (*p && *p != '"') {
-                        if (*p == '\\' && *(p+1)) p++;
-                        p++;
-                    }
-                    break;
-                }
-                if (*p == '\\' && *(p+1)) {
-                    p++;
-                    switch (*p) {
-                    case 'n':  dest[len++] = '\n'; break;
-                    case 'r':  dest[len++] = '\r'; break;
-                    case 't':  dest[len++] = '\t'; break;
-                    case '"':  dest[len++] = '"';  break;
-                    case '\\': dest[len++] = '\\'; break;
-                    case 'u': {
-                        p++;
-                        int hi = parse_hex4(&p);
-                        if (hi < 0) {
-                            if (len < max_len) dest[len++] = '?';
-                            continue;
-                        }
-                        unsigned int codepoint = (unsigned int)hi;
-                        if (codepoint >= 0xD800 && codepoint <= 0xDBFF) {
-                            if (p[0] == '\\' && p[1] == 'u') {
-                                p += 2;
-                                int lo = parse_hex4(&p);
-                                if (lo >= 0xDC00 && lo <= 0xDFFF) {
-                                    codepoint = 0x10000 + ((codepoint - 0xD800) << 10) + ((unsigned int)lo - 0xDC00);
-                                } else {
-                                    if (len < max_len) dest[len++] = '?';
-                                    continue;
-                                }
-                            } else {
-                                if (len < max_len) dest[len++] = '?';
-                                continue;
-                            }
-                        } else if (codepoint >= 0xDC00 && codepoint <= 0xDFFF) {
-                            if (len < max_len) dest[len++] = '?';
-                            continue;
-                        }
-                        len = encode_utf8(dest, max_len, len, codepoint, &truncated);
-                        continue;
-                    }
-                    default:
-                        dest[len++] = *p;
-                        break;
-                    }
-                } else {
-                    dest[len++] = *p;
-                }
-                p++;
-            }
-            dest[len] = '\0';
+    /* tag type, value, relay hint and petname; further fields are read over the scratch */
+    size_t size = strlen(p) + 1;
+    char* fields[5] = {NULL};
+    nostr_error_t err = NOSTR_OK;
+    for (int i = 0; i < 5; i++) {
+        fields[i] = malloc(size);
+        if (!fields[i]) {
+            err = NOSTR_ERR_MEMORY;
+            goto done;
+        }
+    }
 
-            if (truncated) {
-                return NOSTR_ERR_JSON_PARSE;
-            }
+    err = NOSTR_ERR_JSON_PARSE;
+    p = skip_json_whitespace(p);
+    bool more = *p != ']';
+    while (more) {
+        if (*p++ != '[') goto done;
 
-            if (*p == '"') {
-                p++;
-            }
-            field++;
+        size_t count = 0;
+        for (int i = 0; i < 4; i++) {
+            fields[i][0] = '\0';
         }
 
-        if (*p == ']') {
-            p++;
+        p = skip_json_whitespace(p);
+        bool more_fields = *p != ']';
+        while (more_fields) {
+            if (!parse_json_string(&p, fields[count < 4 ? count : 4])) goto done;
+            count++;
+            p = skip_json_whitespace(p);
+            more_fields = *p == ',';
+            if (more_fields) p = skip_json_whitespace(p + 1);
         }
+        if (*p++ != ']') goto done;
 
-        if (tag_type[0] && value[0]) {
-            nostr_error_t err = add_item(list, tag_type, value,
-                                         relay_hint[0] ? relay_hint : NULL,
-                                         petname[0] ? petname : NULL, true);
-            if (err != NOSTR_OK) {
-                return err;
-            }
+        if (fields[0][0] && fields[1][0]) {
+            err = add_item(list, fields[0], fields[1],
+                           fields[2][0] ? fields[2] : NULL,
+                           fields[3][0] ? fields[3] : NULL, true);
+            if (err != NOSTR_OK) goto done;
+            err = NOSTR_ERR_JSON_PARSE;
         }
+
+        p = skip_json_whitespace(p);
+        more = *p == ',';
+        if (more) p = skip_json_whitespace(p + 1);
+    }
+    if (*p == ']' && !*skip_json_whitespace(p + 1)) {
+        err = NOSTR_OK;
     }
 
-    return NOSTR_OK;
+done:
+    for (int i = 0; i < 5; i++) {
+        free(fields[i]);
+    }
+    return err;
 }
 
 nostr_error_t nostr_list_from_event(const nostr_event* event, const nostr_keypair* keypair,
-- 
2.43.0


From 91767de020986af48c0298eedb8d2ef93bd89428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:06 +0000
Subject: [PATCH 085/107] fix: private keys in bech32 are wiped from working
 memory

---
 src/bech32.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bech32.c b/src/bech32.c
index 7f8b883..769eeb2 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -214,6 +214,7 @@ nostr_error_t nostr_privkey_to_bech32(const nostr_privkey* privkey, char* bech32
     
     uint8_t checksum[6];
     if (!bech32_create_checksum("nsec", data, data_len, checksum)) {
+        secure_wipe(data, sizeof(data));
         return NOSTR_ERR_ENCODING;
     }
 
@@ -227,7 +228,8 @@ nostr_error_t nostr_privkey_to_bech32(const nostr_privkey* privkey, char* bech32
         *pos++ = BECH32_CHARSET[checksum[i]];
     }
     *pos = '\0';
-    
+
+    secure_wipe(data, sizeof(data));
     return NOSTR_OK;
 }
 
@@ -249,22 +251,27 @@ nostr_error_t nostr_privkey_from_bech32(const char* bech32, nostr_privkey* privk
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
+            secure_wipe(data, sizeof(data));
             return NOSTR_ERR_ENCODING;
         }
         data[i - 5] = val;
     }
     
     if (!bech32_verify_checksum("nsec", data, len - 5)) {
+        secure_wipe(data, sizeof(data));
         return NOSTR_ERR_ENCODING;
     }
     
     uint8_t decoded[32];
     int decoded_len = bech32_convert_bits(data, len - 5 - 6, decoded, sizeof(decoded), 5, 8, 0);
+    secure_wipe(data, sizeof(data));
     if (decoded_len != NOSTR_PRIVKEY_SIZE) {
+        secure_wipe(decoded, sizeof(decoded));
         return NOSTR_ERR_ENCODING;
     }
     
     memcpy(privkey->data, decoded, NOSTR_PRIVKEY_SIZE);
+    secure_wipe(decoded, sizeof(decoded));
     return NOSTR_OK;
 }
 
-- 
2.43.0


From fd0768f5132b66a8b8b6b249c7f9c52766d530b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:06 +0000
Subject: [PATCH 086/107] fix: a derivation that fails leaves no child key
 behind

---
 src/hd_key.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index 7a8cb54..96db530 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -149,9 +149,6 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         return NOSTR_ERR_INVALID_KEY;
     }
 
-    memcpy(child->chain_code, hash + 32, 32);
-    memcpy(child->privkey.data, child_privkey, 32);
-
 #ifdef HAVE_NOSCRYPT
     NCSecretKey child_seckey;
     NCPublicKey nc_pubkey;
@@ -199,6 +196,9 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
     secure_wipe(&child_keypair, sizeof(child_keypair));
 #endif
 
+    memcpy(child->chain_code, hash + 32, 32);
+    memcpy(child->privkey.data, child_privkey, 32);
+
     secure_wipe(data, sizeof(data));
     secure_wipe(child_privkey, 32);
 
-- 
2.43.0


From 14e3a0ef9ff33e46df8a0714287bc937f57c9848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:06 +0000
Subject: [PATCH 087/107] fix: a master key that is refused is wiped everywhere

---
 src/hd_key.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hd_key.c b/src/hd_key.c
index 96db530..9ba7b77 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -61,6 +61,7 @@ nostr_error_t nostr_hd_key_from_seed(const uint8_t* seed, size_t seed_len, nostr
     if (NCGetPublicKey(nc_ctx, &nc_seckey, &nc_pubkey) != NC_SUCCESS) {
         secure_wipe(hash, 64);
         secure_wipe(master, sizeof(nostr_hd_key));
+        secure_wipe(&nc_seckey, sizeof(nc_seckey));
         return NOSTR_ERR_INVALID_KEY;
     }
     
-- 
2.43.0


From 9e3f25b9ca0da9ec92b4c79a55e765609d1f83a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:06 +0000
Subject: [PATCH 088/107] fix: a mnemonic is wiped when its seed cannot be
 derived

---
 src/hd_key.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index 9ba7b77..0ff3183 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -503,6 +503,7 @@ nostr_error_t nostr_mnemonic_to_seed(const char* mnemonic, const char* passphras
     if (passphrase) {
         norm_passphrase = nfkd_normalize(passphrase);
         if (!norm_passphrase) {
+            secure_wipe(norm_mnemonic, strlen(norm_mnemonic));
             free(norm_mnemonic);
             return NOSTR_ERR_MEMORY;
         }
@@ -513,8 +514,12 @@ nostr_error_t nostr_mnemonic_to_seed(const char* mnemonic, const char* passphras
 
     char* salt = malloc(salt_len + 1);
     if (!salt) {
+        secure_wipe(norm_mnemonic, strlen(norm_mnemonic));
         free(norm_mnemonic);
-        if (norm_passphrase) free(norm_passphrase);
+        if (norm_passphrase) {
+            secure_wipe(norm_passphrase, strlen(norm_passphrase));
+            free(norm_passphrase);
+        }
         return NOSTR_ERR_MEMORY;
     }
 
-- 
2.43.0


From acb24f61c04b70444eadda5fe2e86789e698a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:06 +0000
Subject: [PATCH 089/107] fix: the secret of a wallet connection is wiped from
 working memory

---
 src/nip47.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 0bdf23d..483c239 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -149,6 +149,13 @@ static char* url_decode(const char* src)
     return dst;
 }
 
+/* The parameters hold the secret. */
+static void free_params(char* params, size_t len)
+{
+    secure_wipe(params, len);
+    free(params);
+}
+
 nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_connection** connection)
 {
     if (!uri || !connection) {
@@ -179,6 +186,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
     }
     
     query++;
+    size_t params_len = strlen(query);
     char* params = strdup(query);
     if (!params) {
         free_connection(conn);
@@ -188,7 +196,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
     size_t relay_cap = 4;
     conn->relays = malloc(relay_cap * sizeof(char*));
     if (!conn->relays) {
-        free(params);
+        free_params(params, params_len);
         free_connection(conn);
         return NOSTR_ERR_MEMORY;
     }
@@ -208,7 +216,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
                     relay_cap *= 2;
                     char** new_relays = realloc(conn->relays, relay_cap * sizeof(char*));
                     if (!new_relays) {
-                        free(params);
+                        free_params(params, params_len);
                         free_connection(conn);
                         return NOSTR_ERR_MEMORY;
                     }
@@ -217,7 +225,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
                 
                 conn->relays[conn->relay_count] = url_decode(value);
                 if (!conn->relays[conn->relay_count]) {
-                    free(params);
+                    free_params(params, params_len);
                     free_connection(conn);
                     return NOSTR_ERR_MEMORY;
                 }
@@ -225,12 +233,12 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
             }
             else if (strcmp(param, "secret") == 0) {
                 if (strlen(value) != 64) {
-                    free(params);
+                    free_params(params, params_len);
                     free_connection(conn);
                     return NOSTR_ERR_INVALID_PARAM;
                 }
                 if (hex_decode(value, conn->secret.data, 32) != 0) {
-                    free(params);
+                    free_params(params, params_len);
                     free_connection(conn);
                     return NOSTR_ERR_INVALID_PARAM;
                 }
@@ -240,7 +248,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
                 free(conn->lud16);
                 conn->lud16 = url_decode(value);
                 if (!conn->lud16) {
-                    free(params);
+                    free_params(params, params_len);
                     free_connection(conn);
                     return NOSTR_ERR_MEMORY;
                 }
@@ -250,7 +258,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
         param = strtok_r(NULL, "&", &saveptr);
     }
     
-    free(params);
+    free_params(params, params_len);
     
     if (!has_secret || conn->relay_count == 0) {
         free_connection(conn);
@@ -395,7 +403,9 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
         NCSecretKey nc_secret;
         memcpy(nc_secret.key, conn->secret.data, NC_SEC_KEY_SIZE);
         extern NCContext* nc_ctx;
-        if (NCGetPublicKey(nc_ctx, &nc_secret, &nc_public) != NC_SUCCESS) {
+        NCResult nc_result = NCGetPublicKey(nc_ctx, &nc_secret, &nc_public);
+        secure_wipe(&nc_secret, sizeof(nc_secret));
+        if (nc_result != NC_SUCCESS) {
             nostr_event_destroy(*event);
             *event = NULL;
             return NOSTR_ERR_INVALID_KEY;
-- 
2.43.0


From 91275a0b3d7591302771a302f384ceb65141d9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:06 +0000
Subject: [PATCH 090/107] fix: a refused private key in hex leaves nothing in
 the output

---
 src/key.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/key.c b/src/key.c
index 4494b39..27428c0 100644
--- a/src/key.c
+++ b/src/key.c
@@ -415,6 +415,7 @@ nostr_error_t nostr_privkey_from_hex(const char* hex, nostr_privkey* privkey) {
     }
     
     if (nostr_hex_decode(hex, privkey->data, NOSTR_PRIVKEY_SIZE) != NOSTR_PRIVKEY_SIZE) {
+        secure_wipe(privkey, sizeof(nostr_privkey));
         return NOSTR_ERR_INVALID_KEY;
     }
     
-- 
2.43.0


From 86c8b64ef8aa038d2ffd2d0cc300273d941a22cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:12 +0000
Subject: [PATCH 091/107] fix: starting the library can be retried when it
 failed

---
 src/key.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/key.c b/src/key.c
index 27428c0..47c3e79 100644
--- a/src/key.c
+++ b/src/key.c
@@ -226,11 +226,13 @@ nostr_error_t nostr_init(void)
 
     uint8_t entropy[NC_CONTEXT_ENTROPY_SIZE];
     if (nostr_random_bytes(entropy, NC_CONTEXT_ENTROPY_SIZE) != 1) {
+        nc_ctx = NULL;
         unlock_ctx_init();
         return NOSTR_ERR_MEMORY;
     }
 
     if (NCInitContext(nc_ctx, entropy) != NC_SUCCESS) {
+        nc_ctx = NULL;
         unlock_ctx_init();
         return NOSTR_ERR_MEMORY;
     }
-- 
2.43.0


From a774e53b3c42e8fda936bd19b09cd7e663b6755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:12 +0000
Subject: [PATCH 092/107] fix: nostr_init_with_config starts the library again
 after nostr_cleanup

---
 src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 898e701..5e7ad04 100644
--- a/src/config.c
+++ b/src/config.c
@@ -195,7 +195,7 @@ nostr_error_t nostr_init_with_config(const nostr_config* config) {
     
     if (g_config_initialized) {
         unlock_config();
-        return NOSTR_OK;
+        return nostr_init();
     }
     
     nostr_error_t err;
-- 
2.43.0


From 2b5cb3e9c13a8713aed453e550fc68f3d0bacb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:12 +0000
Subject: [PATCH 093/107] fix: a mnemonic that does not fit leaves no words in
 the buffer

---
 src/hd_key.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hd_key.c b/src/hd_key.c
index 0ff3183..cf48ee1 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -364,6 +364,7 @@ nostr_error_t nostr_mnemonic_generate(int word_count, char* mnemonic, size_t mne
         size_t word_len = strlen(word);
 
         if (pos + word_len + (i > 0 ? 1 : 0) >= mnemonic_size) {
+            secure_wipe(mnemonic, pos);
             secure_wipe(entropy, sizeof(entropy));
             secure_wipe(combined, sizeof(combined));
             return NOSTR_ERR_INVALID_PARAM;
-- 
2.43.0


From 94fed4d39127898c1925fd73592473045267e7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:59 +0000
Subject: [PATCH 094/107] fix: nostr_nip05_verify reads no further than the
 response's length

---
 src/nip05.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/nip05.c b/src/nip05.c
index da53b19..c63cee6 100644
--- a/src/nip05.c
+++ b/src/nip05.c
@@ -318,6 +318,15 @@ nostr_error_t nostr_nip05_verify(const char* identifier, const char* expected_pu
         return NOSTR_ERR_INVALID_PARAM;
     }
 
+    /* The callback gives a length; the body need not be NUL-terminated. */
+    char* body = realloc(response, response_len + 1);
+    if (!body) {
+        free(response);
+        return NOSTR_ERR_MEMORY;
+    }
+    body[response_len] = '\0';
+    response = body;
+
     char pubkey_hex[65];
     char** relays = NULL;
     size_t relay_count = 0;
-- 
2.43.0


From 90185c61cb65bc40f55e36f0ff1a50d76a9f55b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:26 +0000
Subject: [PATCH 095/107] fix: an event id without cJSON is refused when memory
 runs out

---
 src/event.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/event.c b/src/event.c
index 61ff7ea..3d9e082 100644
--- a/src/event.c
+++ b/src/event.c
@@ -381,6 +381,10 @@ static char* serialize_for_id(const nostr_event* event)
     }
     pubkey_hex[64] = '\0';
 
+    if (!content_escaped) {
+        return NULL;
+    }
+
     size_t json_size = 512 + strlen(content_escaped);
     for (size_t i = 0; i < event->tags_count; i++) {
         for (size_t j = 0; j < event->tags[i].count; j++) {
-- 
2.43.0


From d38e203c5b3185b4cabea96df6bd4053c822b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:26 +0000
Subject: [PATCH 096/107] fix: an event id without cJSON makes room for the
 brackets of every tag

---
 src/event.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/event.c b/src/event.c
index 3d9e082..edadb22 100644
--- a/src/event.c
+++ b/src/event.c
@@ -387,6 +387,7 @@ static char* serialize_for_id(const nostr_event* event)
 
     size_t json_size = 512 + strlen(content_escaped);
     for (size_t i = 0; i < event->tags_count; i++) {
+        json_size += 3;
         for (size_t j = 0; j < event->tags[i].count; j++) {
             json_size += strlen(event->tags[i].values[j]) * 6 + 4;
         }
-- 
2.43.0


From 56af00c37c92d185ce6b8995dad4255df88cd9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:07 +0000
Subject: [PATCH 097/107] fix: a relay is not disconnected inside the callback
 of its own connect or disconnect

---
 src/relay.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index a7787d3..2aa4a85 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -425,7 +425,9 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
         return NOSTR_ERR_MEMORY;
     }
 #endif
+    lock_queue_mutex(ctx);
     ctx->service_thread_created = true;
+    unlock_queue_mutex(ctx);
 #endif
 
     return NOSTR_OK;
@@ -438,11 +440,15 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
 
     relay_context* ctx = (relay_context*)relay->ws_handle;
 #ifdef NOSTR_FEATURE_THREADING
-    /* a callback runs on the service thread, which cannot wait for itself */
+    /* a callback runs on the service thread, which cannot wait for itself, or inside
+     * a connect or disconnect that still uses the connection */
+    lock_queue_mutex(ctx);
+    bool service_thread_created = ctx->service_thread_created;
+    unlock_queue_mutex(ctx);
 #ifdef _WIN32
-    if (ctx->service_thread_created && GetThreadId(ctx->service_thread) == GetCurrentThreadId()) {
+    if (!service_thread_created || GetThreadId(ctx->service_thread) == GetCurrentThreadId()) {
 #else
-    if (ctx->service_thread_created && pthread_equal(ctx->service_thread, pthread_self())) {
+    if (!service_thread_created || pthread_equal(ctx->service_thread, pthread_self())) {
 #endif
         return NOSTR_ERR_CONNECTION;
     }
-- 
2.43.0


From 6e7b97bf665b80575b70bd45e04c3b40c0cc4b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:03 +0000
Subject: [PATCH 098/107] fix: an event text with U+0000 in a string is
 refused, not read cut short

---
 include/nostr.h | 11 +++++++++++
 src/event.c     |  2 +-
 src/utils.c     | 17 ++++++++++++++++-
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/nostr.h b/include/nostr.h
index dc8f2cb..0a02367 100644
--- a/include/nostr.h
+++ b/include/nostr.h
@@ -713,6 +713,17 @@ void secure_wipe(void* ptr, size_t len);
  */
 int nostr_hex_decode(const char* hex, uint8_t* out, size_t out_len);
 
+/**
+ * @brief Tell whether a JSON text has a string with U+0000 in it
+ *
+ * Such a string cannot be handed out as a C string without being cut.
+ *
+ * @param json JSON text
+ * @param len Length of the text
+ * @return 1 if some string contains U+0000, 0 otherwise
+ */
+int nostr_json_has_nul(const char* json, size_t len);
+
 /**
  * @brief Encode bytes to hex string
  * @param bytes Input byte buffer
diff --git a/src/event.c b/src/event.c
index edadb22..2bb617b 100644
--- a/src/event.c
+++ b/src/event.c
@@ -577,7 +577,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
     *event = NULL;
-    cJSON* root = cJSON_Parse(json);
+    cJSON* root = nostr_json_has_nul(json, strlen(json)) ? NULL : cJSON_Parse(json);
     if (!root) {
         return NOSTR_ERR_JSON_PARSE;
     }
diff --git a/src/utils.c b/src/utils.c
index f2aa87d..119985d 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -70,4 +70,19 @@ void nostr_hex_encode(const uint8_t* bytes, size_t len, char* out) {
         sprintf(out + 2 * i, "%02x", bytes[i]);
     }
     out[len * 2] = '\0';
-}
\ No newline at end of file
+}
+
+int nostr_json_has_nul(const char* json, size_t len) {
+    int in_string = 0;
+    for (size_t i = 0; i < len; i++) {
+        if (json[i] == '\\') {
+            if (len - i >= 6 && memcmp(json + i, "\\u0000", 6) == 0) return 1;
+            i++;
+        } else if (json[i] == '"') {
+            in_string = !in_string;
+        } else if (json[i] == '\0' && in_string) {
+            return 1;
+        }
+    }
+    return 0;
+}
-- 
2.43.0


From c8bb97dbee21d09b459043f693f9e4731356b547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:03 +0000
Subject: [PATCH 099/107] fix: filters and client messages with U+0000 in a
 string are refused, not read cut short

---
 src/relay_filter.c  | 4 ++++
 src/relay_message.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index c65400d..ba8d41f 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -131,6 +131,10 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
 
     memset(filter, 0, sizeof(nostr_filter_t));
 
+    if (nostr_json_has_nul(json, json_len > 0 ? json_len : strlen(json))) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
     cJSON* root = (json_len > 0) ? cJSON_ParseWithLength(json, json_len) : cJSON_Parse(json);
     if (!cJSON_IsObject(root)) {
         cJSON_Delete(root);
diff --git a/src/relay_message.c b/src/relay_message.c
index 548a186..e74215e 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -113,6 +113,10 @@ nostr_relay_error_t nostr_client_msg_parse(const char* json, size_t json_len, no
     memset(msg, 0, sizeof(nostr_client_msg_t));
     msg->type = NOSTR_CLIENT_MSG_UNKNOWN;
 
+    if (nostr_json_has_nul(json, json_len > 0 ? json_len : strlen(json))) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
     cJSON* root = (json_len > 0) ? cJSON_ParseWithLength(json, json_len) : cJSON_Parse(json);
     if (!root || !cJSON_IsArray(root)) {
         if (root) cJSON_Delete(root);
-- 
2.43.0


From 25de4bf9c84c99e2ae5601bad4c6e20ff9549bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:03 +0000
Subject: [PATCH 100/107] fix: a relay message with U+0000 in a string is
 ignored, not delivered cut short

---
 src/relay.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relay.c b/src/relay.c
index 2aa4a85..07ef664 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -748,7 +748,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                     char saved = *end;
                     *end = '\0';
 
-                    cJSON* json = cJSON_Parse(start);
+                    cJSON* json = nostr_json_has_nul(start, strlen(start)) ? NULL : cJSON_Parse(start);
                     if (json && cJSON_IsArray(json)) {
                         int array_size = cJSON_GetArraySize(json);
                         if (array_size >= 2) {
-- 
2.43.0


From 37ac761cbf85500c666fda0114a78dd5e017639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:03 +0000
Subject: [PATCH 101/107] fix: remote signing and wallet messages with U+0000
 in a string are refused, not read cut short

---
 src/nip46.c          | 2 +-
 src/nip47.c          | 4 ++--
 src/nip47_commands.c | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index e1ab879..a0fe175 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -35,7 +35,7 @@ nostr_error_t nostr_nip46_parse_request(const nostr_event* event,
     }
 
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(decrypted);
+    cJSON* root = nostr_json_has_nul(decrypted, strlen(decrypted)) ? NULL : cJSON_Parse(decrypted);
     free(decrypted);
     if (!root) {
         return NOSTR_ERR_JSON_PARSE;
diff --git a/src/nip47.c b/src/nip47.c
index 483c239..b945f91 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -573,7 +573,7 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
     }
     
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(decrypted);
+    cJSON* root = nostr_json_has_nul(decrypted, strlen(decrypted)) ? NULL : cJSON_Parse(decrypted);
     if (!cJSON_IsObject(root)) {
         cJSON_Delete(root);
         free(decrypted);
@@ -812,7 +812,7 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
     }
     
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(decrypted);
+    cJSON* root = nostr_json_has_nul(decrypted, strlen(decrypted)) ? NULL : cJSON_Parse(decrypted);
     if (!cJSON_IsObject(root)) {
         cJSON_Delete(root);
         free(decrypted);
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index d292641..c91d3bb 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -371,7 +371,7 @@ nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64
     }
     
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(result_json);
+    cJSON* root = nostr_json_has_nul(result_json, strlen(result_json)) ? NULL : cJSON_Parse(result_json);
     if (!root) {
         return NOSTR_ERR_INVALID_PARAM;
     }
@@ -415,7 +415,7 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
     if (fees_paid) *fees_paid = 0;
 
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(result_json);
+    cJSON* root = nostr_json_has_nul(result_json, strlen(result_json)) ? NULL : cJSON_Parse(result_json);
     if (!root) {
         return NOSTR_ERR_INVALID_PARAM;
     }
@@ -490,7 +490,7 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
 
 #ifdef HAVE_CJSON
     int ok = 1;
-    cJSON* root = cJSON_Parse(result_json);
+    cJSON* root = nostr_json_has_nul(result_json, strlen(result_json)) ? NULL : cJSON_Parse(result_json);
     if (!root) {
         return NOSTR_ERR_INVALID_PARAM;
     }
-- 
2.43.0


From 9e760e4814268a7ff9519d90703f24ac9f17a1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:58 +0000
Subject: [PATCH 102/107] fix: relay information that could not be built for
 lack of memory is reported, not written incomplete

---
 src/relay_nip11.c | 183 ++++++++++++++++++++++++++--------------------
 1 file changed, 105 insertions(+), 78 deletions(-)

diff --git a/src/relay_nip11.c b/src/relay_nip11.c
index 4307a93..1abbe42 100644
--- a/src/relay_nip11.c
+++ b/src/relay_nip11.c
@@ -143,18 +143,43 @@ void nostr_relay_info_free(nostr_relay_info_t* info)
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 
 /* cJSON prints a double with 15 digits where that is close enough for it. */
-static void add_int64(cJSON* obj, const char* name, int64_t value)
+/* Memory may have run out for the item, for what it is added to, or for adding it: *ok is
+ * cleared and what was not added is freed. */
+static void add_item(cJSON* obj, const char* name, cJSON* item, bool* ok)
+{
+    if (!item || !cJSON_AddItemToObject(obj, name, item)) {
+        cJSON_Delete(item);
+        *ok = false;
+    }
+}
+
+static void append_item(cJSON* array, cJSON* item, bool* ok)
+{
+    if (!item || !cJSON_AddItemToArray(array, item)) {
+        cJSON_Delete(item);
+        *ok = false;
+    }
+}
+
+static void append_string(cJSON* array, const char* value, bool* ok)
+{
+    if (value) {
+        append_item(array, cJSON_CreateString(value), ok);
+    }
+}
+
+static void add_int64(cJSON* obj, const char* name, int64_t value, bool* ok)
 {
     char number[24];
     snprintf(number, sizeof(number), "%" PRId64, value);
-    cJSON_AddRawToObject(obj, name, number);
+    add_item(obj, name, cJSON_CreateRaw(number), ok);
 }
 
-static void add_uint64(cJSON* obj, const char* name, uint64_t value)
+static void add_uint64(cJSON* obj, const char* name, uint64_t value, bool* ok)
 {
     char number[24];
     snprintf(number, sizeof(number), "%" PRIu64, value);
-    cJSON_AddRawToObject(obj, name, number);
+    add_item(obj, name, cJSON_CreateRaw(number), ok);
 }
 
 nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitation_t* limitation,
@@ -168,45 +193,46 @@ nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitatio
     if (!obj) {
         return NOSTR_RELAY_ERR_MEMORY;
     }
+    bool ok = true;
 
     if (limitation->max_message_length > 0) {
-        cJSON_AddNumberToObject(obj, "max_message_length", limitation->max_message_length);
+        add_item(obj, "max_message_length", cJSON_CreateNumber(limitation->max_message_length), &ok);
     }
     if (limitation->max_subscriptions > 0) {
-        cJSON_AddNumberToObject(obj, "max_subscriptions", limitation->max_subscriptions);
+        add_item(obj, "max_subscriptions", cJSON_CreateNumber(limitation->max_subscriptions), &ok);
     }
     if (limitation->max_filters > 0) {
-        cJSON_AddNumberToObject(obj, "max_filters", limitation->max_filters);
+        add_item(obj, "max_filters", cJSON_CreateNumber(limitation->max_filters), &ok);
     }
     if (limitation->max_limit > 0) {
-        cJSON_AddNumberToObject(obj, "max_limit", limitation->max_limit);
+        add_item(obj, "max_limit", cJSON_CreateNumber(limitation->max_limit), &ok);
     }
     if (limitation->max_subid_length > 0) {
-        cJSON_AddNumberToObject(obj, "max_subid_length", limitation->max_subid_length);
+        add_item(obj, "max_subid_length", cJSON_CreateNumber(limitation->max_subid_length), &ok);
     }
     if (limitation->max_event_tags > 0) {
-        cJSON_AddNumberToObject(obj, "max_event_tags", limitation->max_event_tags);
+        add_item(obj, "max_event_tags", cJSON_CreateNumber(limitation->max_event_tags), &ok);
     }
     if (limitation->max_content_length > 0) {
-        cJSON_AddNumberToObject(obj, "max_content_length", limitation->max_content_length);
+        add_item(obj, "max_content_length", cJSON_CreateNumber(limitation->max_content_length), &ok);
     }
     if (limitation->min_pow_difficulty > 0) {
-        cJSON_AddNumberToObject(obj, "min_pow_difficulty", limitation->min_pow_difficulty);
+        add_item(obj, "min_pow_difficulty", cJSON_CreateNumber(limitation->min_pow_difficulty), &ok);
     }
-    cJSON_AddBoolToObject(obj, "auth_required", limitation->auth_required);
-    cJSON_AddBoolToObject(obj, "payment_required", limitation->payment_required);
-    cJSON_AddBoolToObject(obj, "restricted_writes", limitation->restricted_writes);
+    add_item(obj, "auth_required", cJSON_CreateBool(limitation->auth_required), &ok);
+    add_item(obj, "payment_required", cJSON_CreateBool(limitation->payment_required), &ok);
+    add_item(obj, "restricted_writes", cJSON_CreateBool(limitation->restricted_writes), &ok);
     if (limitation->created_at_lower_limit > 0) {
-        add_int64(obj, "created_at_lower_limit", limitation->created_at_lower_limit);
+        add_int64(obj, "created_at_lower_limit", limitation->created_at_lower_limit, &ok);
     }
     if (limitation->created_at_upper_limit > 0) {
-        add_int64(obj, "created_at_upper_limit", limitation->created_at_upper_limit);
+        add_int64(obj, "created_at_upper_limit", limitation->created_at_upper_limit, &ok);
     }
     if (limitation->default_limit > 0) {
-        cJSON_AddNumberToObject(obj, "default_limit", limitation->default_limit);
+        add_item(obj, "default_limit", cJSON_CreateNumber(limitation->default_limit), &ok);
     }
 
-    char* json_str = cJSON_PrintUnformatted(obj);
+    char* json_str = ok ? cJSON_PrintUnformatted(obj) : NULL;
     cJSON_Delete(obj);
 
     if (!json_str) {
@@ -237,27 +263,28 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
     if (!obj) {
         return NOSTR_RELAY_ERR_MEMORY;
     }
+    bool ok = true;
 
     if (info->name) {
-        cJSON_AddStringToObject(obj, "name", info->name);
+        add_item(obj, "name", cJSON_CreateString(info->name), &ok);
     }
     if (info->description) {
-        cJSON_AddStringToObject(obj, "description", info->description);
+        add_item(obj, "description", cJSON_CreateString(info->description), &ok);
     }
     if (info->banner) {
-        cJSON_AddStringToObject(obj, "banner", info->banner);
+        add_item(obj, "banner", cJSON_CreateString(info->banner), &ok);
     }
     if (info->icon) {
-        cJSON_AddStringToObject(obj, "icon", info->icon);
+        add_item(obj, "icon", cJSON_CreateString(info->icon), &ok);
     }
     if (info->pubkey) {
-        cJSON_AddStringToObject(obj, "pubkey", info->pubkey);
+        add_item(obj, "pubkey", cJSON_CreateString(info->pubkey), &ok);
     }
     if (info->self_pubkey) {
-        cJSON_AddStringToObject(obj, "self", info->self_pubkey);
+        add_item(obj, "self", cJSON_CreateString(info->self_pubkey), &ok);
     }
     if (info->contact) {
-        cJSON_AddStringToObject(obj, "contact", info->contact);
+        add_item(obj, "contact", cJSON_CreateString(info->contact), &ok);
     }
 
     cJSON* nips_arr = cJSON_CreateArray();
@@ -266,61 +293,61 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
         return NOSTR_RELAY_ERR_MEMORY;
     }
     for (size_t i = 0; i < info->supported_nips_count; i++) {
-        cJSON_AddItemToArray(nips_arr, cJSON_CreateNumber(info->supported_nips[i]));
+        append_item(nips_arr, cJSON_CreateNumber(info->supported_nips[i]), &ok);
     }
-    cJSON_AddItemToObject(obj, "supported_nips", nips_arr);
+    add_item(obj, "supported_nips", nips_arr, &ok);
 
     if (info->software) {
-        cJSON_AddStringToObject(obj, "software", info->software);
+        add_item(obj, "software", cJSON_CreateString(info->software), &ok);
     }
     if (info->version) {
-        cJSON_AddStringToObject(obj, "version", info->version);
+        add_item(obj, "version", cJSON_CreateString(info->version), &ok);
     }
     if (info->privacy_policy) {
-        cJSON_AddStringToObject(obj, "privacy_policy", info->privacy_policy);
+        add_item(obj, "privacy_policy", cJSON_CreateString(info->privacy_policy), &ok);
     }
     if (info->terms_of_service) {
-        cJSON_AddStringToObject(obj, "terms_of_service", info->terms_of_service);
+        add_item(obj, "terms_of_service", cJSON_CreateString(info->terms_of_service), &ok);
     }
 
     cJSON* limitation_obj = cJSON_CreateObject();
     if (info->limitation.max_message_length > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_message_length", info->limitation.max_message_length);
+        add_item(limitation_obj, "max_message_length", cJSON_CreateNumber(info->limitation.max_message_length), &ok);
     }
     if (info->limitation.max_subscriptions > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_subscriptions", info->limitation.max_subscriptions);
+        add_item(limitation_obj, "max_subscriptions", cJSON_CreateNumber(info->limitation.max_subscriptions), &ok);
     }
     if (info->limitation.max_filters > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_filters", info->limitation.max_filters);
+        add_item(limitation_obj, "max_filters", cJSON_CreateNumber(info->limitation.max_filters), &ok);
     }
     if (info->limitation.max_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_limit", info->limitation.max_limit);
+        add_item(limitation_obj, "max_limit", cJSON_CreateNumber(info->limitation.max_limit), &ok);
     }
     if (info->limitation.max_subid_length > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_subid_length", info->limitation.max_subid_length);
+        add_item(limitation_obj, "max_subid_length", cJSON_CreateNumber(info->limitation.max_subid_length), &ok);
     }
     if (info->limitation.max_event_tags > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_event_tags", info->limitation.max_event_tags);
+        add_item(limitation_obj, "max_event_tags", cJSON_CreateNumber(info->limitation.max_event_tags), &ok);
     }
     if (info->limitation.max_content_length > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_content_length", info->limitation.max_content_length);
+        add_item(limitation_obj, "max_content_length", cJSON_CreateNumber(info->limitation.max_content_length), &ok);
     }
     if (info->limitation.min_pow_difficulty > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "min_pow_difficulty", info->limitation.min_pow_difficulty);
+        add_item(limitation_obj, "min_pow_difficulty", cJSON_CreateNumber(info->limitation.min_pow_difficulty), &ok);
     }
-    cJSON_AddBoolToObject(limitation_obj, "auth_required", info->limitation.auth_required);
-    cJSON_AddBoolToObject(limitation_obj, "payment_required", info->limitation.payment_required);
-    cJSON_AddBoolToObject(limitation_obj, "restricted_writes", info->limitation.restricted_writes);
+    add_item(limitation_obj, "auth_required", cJSON_CreateBool(info->limitation.auth_required), &ok);
+    add_item(limitation_obj, "payment_required", cJSON_CreateBool(info->limitation.payment_required), &ok);
+    add_item(limitation_obj, "restricted_writes", cJSON_CreateBool(info->limitation.restricted_writes), &ok);
     if (info->limitation.created_at_lower_limit > 0) {
-        add_int64(limitation_obj, "created_at_lower_limit", info->limitation.created_at_lower_limit);
+        add_int64(limitation_obj, "created_at_lower_limit", info->limitation.created_at_lower_limit, &ok);
     }
     if (info->limitation.created_at_upper_limit > 0) {
-        add_int64(limitation_obj, "created_at_upper_limit", info->limitation.created_at_upper_limit);
+        add_int64(limitation_obj, "created_at_upper_limit", info->limitation.created_at_upper_limit, &ok);
     }
     if (info->limitation.default_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "default_limit", info->limitation.default_limit);
+        add_item(limitation_obj, "default_limit", cJSON_CreateNumber(info->limitation.default_limit), &ok);
     }
-    cJSON_AddItemToObject(obj, "limitation", limitation_obj);
+    add_item(obj, "limitation", limitation_obj, &ok);
 
     if (info->retention_count > 0 && info->retention) {
         cJSON* retention_arr = cJSON_CreateArray();
@@ -329,50 +356,50 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
             if (info->retention[i].kinds_count > 0) {
                 cJSON* kinds_arr = cJSON_CreateArray();
                 for (size_t j = 0; j < info->retention[i].kinds_count; j++) {
-                    cJSON_AddItemToArray(kinds_arr, cJSON_CreateNumber(info->retention[i].kinds[j]));
+                    append_item(kinds_arr, cJSON_CreateNumber(info->retention[i].kinds[j]), &ok);
                 }
-                cJSON_AddItemToObject(ret_obj, "kinds", kinds_arr);
+                add_item(ret_obj, "kinds", kinds_arr, &ok);
             }
             if (info->retention[i].time != 0) {
-                add_int64(ret_obj, "time", info->retention[i].time);
+                add_int64(ret_obj, "time", info->retention[i].time, &ok);
             }
             if (info->retention[i].count > 0) {
-                cJSON_AddNumberToObject(ret_obj, "count", info->retention[i].count);
+                add_item(ret_obj, "count", cJSON_CreateNumber(info->retention[i].count), &ok);
             }
-            cJSON_AddItemToArray(retention_arr, ret_obj);
+            append_item(retention_arr, ret_obj, &ok);
         }
-        cJSON_AddItemToObject(obj, "retention", retention_arr);
+        add_item(obj, "retention", retention_arr, &ok);
     }
 
     if (info->relay_countries_count > 0 && info->relay_countries) {
         cJSON* countries_arr = cJSON_CreateArray();
         for (size_t i = 0; i < info->relay_countries_count; i++) {
-            cJSON_AddItemToArray(countries_arr, cJSON_CreateString(info->relay_countries[i]));
+            append_string(countries_arr, info->relay_countries[i], &ok);
         }
-        cJSON_AddItemToObject(obj, "relay_countries", countries_arr);
+        add_item(obj, "relay_countries", countries_arr, &ok);
     }
 
     if (info->language_tags_count > 0 && info->language_tags) {
         cJSON* langs_arr = cJSON_CreateArray();
         for (size_t i = 0; i < info->language_tags_count; i++) {
-            cJSON_AddItemToArray(langs_arr, cJSON_CreateString(info->language_tags[i]));
+            append_string(langs_arr, info->language_tags[i], &ok);
         }
-        cJSON_AddItemToObject(obj, "language_tags", langs_arr);
+        add_item(obj, "language_tags", langs_arr, &ok);
     }
 
     if (info->tags_count > 0 && info->tags) {
         cJSON* tags_arr = cJSON_CreateArray();
         for (size_t i = 0; i < info->tags_count; i++) {
-            cJSON_AddItemToArray(tags_arr, cJSON_CreateString(info->tags[i]));
+            append_string(tags_arr, info->tags[i], &ok);
         }
-        cJSON_AddItemToObject(obj, "tags", tags_arr);
+        add_item(obj, "tags", tags_arr, &ok);
     }
 
     if (info->posting_policy) {
-        cJSON_AddStringToObject(obj, "posting_policy", info->posting_policy);
+        add_item(obj, "posting_policy", cJSON_CreateString(info->posting_policy), &ok);
     }
     if (info->payments_url) {
-        cJSON_AddStringToObject(obj, "payments_url", info->payments_url);
+        add_item(obj, "payments_url", cJSON_CreateString(info->payments_url), &ok);
     }
 
     bool has_fees = (info->fees.admission_count > 0 ||
@@ -385,29 +412,29 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
             cJSON* admission_arr = cJSON_CreateArray();
             for (size_t i = 0; i < info->fees.admission_count; i++) {
                 cJSON* fee_obj = cJSON_CreateObject();
-                add_uint64(fee_obj, "amount", info->fees.admission[i].amount);
+                add_uint64(fee_obj, "amount", info->fees.admission[i].amount, &ok);
                 if (info->fees.admission[i].unit) {
-                    cJSON_AddStringToObject(fee_obj, "unit", info->fees.admission[i].unit);
+                    add_item(fee_obj, "unit", cJSON_CreateString(info->fees.admission[i].unit), &ok);
                 }
-                cJSON_AddItemToArray(admission_arr, fee_obj);
+                append_item(admission_arr, fee_obj, &ok);
             }
-            cJSON_AddItemToObject(fees_obj, "admission", admission_arr);
+            add_item(fees_obj, "admission", admission_arr, &ok);
         }
 
         if (info->fees.subscription_count > 0 && info->fees.subscription) {
             cJSON* sub_arr = cJSON_CreateArray();
             for (size_t i = 0; i < info->fees.subscription_count; i++) {
                 cJSON* fee_obj = cJSON_CreateObject();
-                add_uint64(fee_obj, "amount", info->fees.subscription[i].amount);
+                add_uint64(fee_obj, "amount", info->fees.subscription[i].amount, &ok);
                 if (info->fees.subscription[i].unit) {
-                    cJSON_AddStringToObject(fee_obj, "unit", info->fees.subscription[i].unit);
+                    add_item(fee_obj, "unit", cJSON_CreateString(info->fees.subscription[i].unit), &ok);
                 }
                 if (info->fees.subscription[i].period > 0) {
-                    cJSON_AddNumberToObject(fee_obj, "period", info->fees.subscription[i].period);
+                    add_item(fee_obj, "period", cJSON_CreateNumber(info->fees.subscription[i].period), &ok);
                 }
-                cJSON_AddItemToArray(sub_arr, fee_obj);
+                append_item(sub_arr, fee_obj, &ok);
             }
-            cJSON_AddItemToObject(fees_obj, "subscription", sub_arr);
+            add_item(fees_obj, "subscription", sub_arr, &ok);
         }
 
         if (info->fees.publication_count > 0 && info->fees.publication) {
@@ -417,23 +444,23 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
                 if (info->fees.publication[i].kinds_count > 0 && info->fees.publication[i].kinds) {
                     cJSON* kinds_arr = cJSON_CreateArray();
                     for (size_t j = 0; j < info->fees.publication[i].kinds_count; j++) {
-                        cJSON_AddItemToArray(kinds_arr, cJSON_CreateNumber(info->fees.publication[i].kinds[j]));
+                        append_item(kinds_arr, cJSON_CreateNumber(info->fees.publication[i].kinds[j]), &ok);
                     }
-                    cJSON_AddItemToObject(fee_obj, "kinds", kinds_arr);
+                    add_item(fee_obj, "kinds", kinds_arr, &ok);
                 }
-                add_uint64(fee_obj, "amount", info->fees.publication[i].amount);
+                add_uint64(fee_obj, "amount", info->fees.publication[i].amount, &ok);
                 if (info->fees.publication[i].unit) {
-                    cJSON_AddStringToObject(fee_obj, "unit", info->fees.publication[i].unit);
+                    add_item(fee_obj, "unit", cJSON_CreateString(info->fees.publication[i].unit), &ok);
                 }
-                cJSON_AddItemToArray(pub_arr, fee_obj);
+                append_item(pub_arr, fee_obj, &ok);
             }
-            cJSON_AddItemToObject(fees_obj, "publication", pub_arr);
+            add_item(fees_obj, "publication", pub_arr, &ok);
         }
 
-        cJSON_AddItemToObject(obj, "fees", fees_obj);
+        add_item(obj, "fees", fees_obj, &ok);
     }
 
-    char* json_str = cJSON_PrintUnformatted(obj);
+    char* json_str = ok ? cJSON_PrintUnformatted(obj) : NULL;
     cJSON_Delete(obj);
 
     if (!json_str) {
-- 
2.43.0


From b700fdcf875a74923d39b9c17363b1e745d95fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:09 +0000
Subject: [PATCH 103/107] fix: only the service thread writes to the
 connection, and not after a write failed

---
 src/relay.c | 133 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 100 insertions(+), 33 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 07ef664..0384fdd 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -76,6 +76,25 @@ static bool validate_request(const char* request)
     return valid;
 }
 
+/* a message to be written, with the room libwebsockets needs in front of it */
+typedef struct outgoing {
+    struct outgoing* next;
+    size_t len;
+    unsigned char data[];
+} outgoing_t;
+
+static outgoing_t* new_outgoing(const char* msg)
+{
+    size_t len = strlen(msg);
+    outgoing_t* out = malloc(sizeof(outgoing_t) + LWS_PRE + len);
+    if (out) {
+        out->next = NULL;
+        out->len = len;
+        memcpy(out->data + LWS_PRE, msg, len);
+    }
+    return out;
+}
+
 typedef struct {
     char* data;
     size_t len;
@@ -102,6 +121,8 @@ typedef struct {
     struct lws_client_connect_info connect_info;
     char* connect_url;
     subscription_t* subscriptions;
+    outgoing_t* outgoing;
+    outgoing_t* last_outgoing;
     char* receive_buffer;
     size_t buffer_size;
     size_t buffer_pos;
@@ -204,6 +225,23 @@ static bool has_connection(relay_context* ctx) {
     return connection;
 }
 
+/* Only the service thread may write, when the connection takes more; call with the queue mutex held. */
+static bool queue_message(nostr_relay* relay, relay_context* ctx, outgoing_t* out) {
+    if (relay->state != NOSTR_RELAY_CONNECTED || !ctx->wsi) return false;
+    if (ctx->outgoing) ctx->last_outgoing->next = out;
+    else ctx->outgoing = out;
+    ctx->last_outgoing = out;
+    if (ctx->context) lws_cancel_service(ctx->context);
+    return true;
+}
+
+/* Call with the queue mutex held, or when nobody else uses the connection. */
+static outgoing_t* take_outgoing(relay_context* ctx) {
+    outgoing_t* out = ctx->outgoing;
+    if (out) ctx->outgoing = out->next;
+    return out;
+}
+
 static struct lws_protocols protocols[] = {
     { "nostr-protocol", callback_nostr_relay, sizeof(relay_context), 65536 },
     { NULL, NULL, 0, 0 }
@@ -299,6 +337,7 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     info.gid = -1;
     info.uid = -1;
     info.options = LWS_SERVER_OPTION_DO_SSL_GLOBAL_INIT;
+    info.user = relay;
 
     struct lws_context* context = lws_create_context(&info);
     if (!context) {
@@ -475,7 +514,14 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
     }
 #endif
 
-    if (ctx->wsi && relay->state == NOSTR_RELAY_CONNECTED) {
+    outgoing_t* out;
+    bool writable = ctx->wsi && relay->state == NOSTR_RELAY_CONNECTED;
+    while ((out = take_outgoing(ctx)) != NULL) {
+        if (writable && lws_write(ctx->wsi, out->data + LWS_PRE, out->len, LWS_WRITE_TEXT) < 0) writable = false;
+        free(out);
+    }
+
+    if (writable) {
         lws_close_reason(ctx->wsi, LWS_CLOSE_STATUS_NORMAL, NULL, 0);
     }
 
@@ -529,23 +575,21 @@ nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* even
     sprintf(msg, "[\"EVENT\",%s]", json);
     free(json);
     
-    size_t msg_len = strlen(msg);
-    unsigned char* buf = malloc(LWS_PRE + msg_len);
-    if (!buf) {
-        free(msg);
+    outgoing_t* out = new_outgoing(msg);
+    free(msg);
+    if (!out) {
         return NOSTR_ERR_MEMORY;
     }
-    
-    memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
-    int result = relay->state == NOSTR_RELAY_CONNECTED && ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
+    bool queued = queue_message(relay, ctx, out);
     unlock_queue_mutex(ctx);
 
-    free(msg);
-    free(buf);
+    if (!queued) {
+        free(out);
+    }
 
-    return (result < 0) ? NOSTR_ERR_CONNECTION : NOSTR_OK;
+    return queued ? NOSTR_OK : NOSTR_ERR_CONNECTION;
 }
 
 
@@ -602,32 +646,28 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    size_t msg_len = strlen(msg);
-    unsigned char* buf = malloc(LWS_PRE + msg_len);
-    if (!buf) {
+    outgoing_t* out = new_outgoing(msg);
+    free(msg);
+    if (!out) {
         free_subscription(sub);
-        free(msg);
         return NOSTR_ERR_MEMORY;
     }
-    
-    memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
-    int result = relay->state == NOSTR_RELAY_CONNECTED && ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
-    if (result >= 0) {
+    bool queued = queue_message(relay, ctx, out);
+    if (queued) {
         remove_subscription(ctx, subscription_id);
         sub->next = ctx->subscriptions;
         ctx->subscriptions = sub;
     }
     unlock_queue_mutex(ctx);
 
-    if (result < 0) {
+    if (!queued) {
         free_subscription(sub);
+        free(out);
     }
-    free(msg);
-    free(buf);
 
-    return (result < 0) ? NOSTR_ERR_CONNECTION : NOSTR_OK;
+    return queued ? NOSTR_OK : NOSTR_ERR_CONNECTION;
 }
 
 nostr_error_t nostr_publish_event(nostr_relay* relay, const nostr_event* event) {
@@ -674,24 +714,22 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     
     sprintf(msg, "[\"CLOSE\",\"%s\"]", subscription_id);
     
-    size_t msg_len = strlen(msg);
-    unsigned char* buf = malloc(LWS_PRE + msg_len);
-    if (!buf) {
-        free(msg);
+    outgoing_t* out = new_outgoing(msg);
+    free(msg);
+    if (!out) {
         return NOSTR_ERR_MEMORY;
     }
-    
-    memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
     remove_subscription(ctx, subscription_id);
-    int result = relay->state == NOSTR_RELAY_CONNECTED && ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
+    bool queued = queue_message(relay, ctx, out);
     unlock_queue_mutex(ctx);
 
-    free(msg);
-    free(buf);
+    if (!queued) {
+        free(out);
+    }
 
-    return (result < 0) ? NOSTR_ERR_CONNECTION : NOSTR_OK;
+    return queued ? NOSTR_OK : NOSTR_ERR_CONNECTION;
 }
 
 static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reason,
@@ -855,6 +893,33 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
             }
             break;
             
+        case LWS_CALLBACK_EVENT_WAIT_CANCELLED:
+            /* this is no connection's own callback: somebody queued a message, or is disconnecting */
+            relay = (nostr_relay*)lws_context_user(lws_get_context(wsi));
+            ctx = relay ? (relay_context*)relay->ws_handle : NULL;
+            if (ctx) {
+                lock_queue_mutex(ctx);
+                struct lws* connection = ctx->outgoing ? ctx->wsi : NULL;
+                unlock_queue_mutex(ctx);
+                if (connection) lws_callback_on_writable(connection);
+            }
+            break;
+
+        case LWS_CALLBACK_CLIENT_WRITEABLE:
+            if (relay && ctx) {
+                lock_queue_mutex(ctx);
+                outgoing_t* out = take_outgoing(ctx);
+                bool more = ctx->outgoing != NULL;
+                unlock_queue_mutex(ctx);
+                if (out) {
+                    int result = lws_write(wsi, out->data + LWS_PRE, out->len, LWS_WRITE_TEXT);
+                    free(out);
+                    if (result < 0) return -1;   /* closes the connection, which is of no more use */
+                    if (more) lws_callback_on_writable(wsi);
+                }
+            }
+            break;
+
         case LWS_CALLBACK_CLIENT_CONNECTION_ERROR:
         case LWS_CALLBACK_CLIENT_CLOSED:
         case LWS_CALLBACK_CLOSED:
@@ -862,6 +927,8 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                 lock_queue_mutex(ctx);
                 if (ctx->wsi == wsi) ctx->wsi = NULL;
                 relay->state = NOSTR_RELAY_DISCONNECTED;
+                outgoing_t* out;
+                while ((out = take_outgoing(ctx)) != NULL) free(out);
                 unlock_queue_mutex(ctx);
                 if (ctx->state_callback) {
                     ctx->state_callback(relay, NOSTR_RELAY_DISCONNECTED, ctx->user_data);
-- 
2.43.0


From d51cccb563b4f52e2d31a06c08593336112c9a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:52 +0000
Subject: [PATCH 104/107] fix: nostr_version() reports the version of the
 library

---
 src/relay_protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 06a934b..d2b8f2a 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -1023,5 +1023,5 @@ void nostr_free_strings(char** strings, size_t count)
 
 const char* nostr_version(void)
 {
-    return "0.1.1";
+    return "0.2.1";
 }
-- 
2.43.0


From f7589a322ccf34e884646f49075c38416571b05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:00 +0000
Subject: [PATCH 105/107] fix: every error code has a text

---
 src/key.c            | 1 +
 src/relay_protocol.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/key.c b/src/key.c
index 47c3e79..4b17af5 100644
--- a/src/key.c
+++ b/src/key.c
@@ -742,6 +742,7 @@ const char* nostr_error_string(nostr_error_t error)
         case NOSTR_ERR_NOT_FOUND: return "Not found";
         case NOSTR_ERR_TIMEOUT: return "Timeout";
         case NOSTR_ERR_INVALID_PARAM: return "Invalid parameter";
+        case NOSTR_ERR_NOT_SUPPORTED: return "Not supported";
         default: return "Unknown error";
     }
 }
\ No newline at end of file
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index d2b8f2a..d0f0147 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -36,6 +36,7 @@ const char* nostr_relay_error_string(nostr_relay_error_t error)
         case NOSTR_RELAY_ERR_BUFFER_TOO_SMALL: return "buffer too small";
         case NOSTR_RELAY_ERR_MEMORY: return "memory allocation failed";
         case NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE: return "unknown message type";
+        case NOSTR_RELAY_ERR_STORAGE: return "storage error";
         default: return "unknown error";
     }
 }
-- 
2.43.0


From a60c80067bae78784322b1a38f9d62cccd1bd878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:42 +0000
Subject: [PATCH 106/107] fix: NIP-47 parameters of any length and content in
 builds without cJSON

They were written with snprintf into fixed buffers on the stack: the running
position passed the end of the buffer, so that longer invoices, identifiers
or records were written beyond it; others were cut off in the middle, and most
texts were not escaped.
---
 src/nip47.c          |  54 ++++++--------
 src/nip47_commands.c | 163 ++++++++++++++++++-------------------------
 src/nip47_text.h     | 151 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 240 insertions(+), 128 deletions(-)
 create mode 100644 src/nip47_text.h

diff --git a/src/nip47.c b/src/nip47.c
index b945f91..4034ded 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -6,6 +6,9 @@
 #include <ctype.h>
 #include <openssl/rand.h>
 #include "../include/nostr.h"
+#ifndef HAVE_CJSON
+#include "nip47_text.h"
+#endif
 
 #ifdef NOSTR_FEATURE_NIP47
 
@@ -679,19 +682,17 @@ nostr_error_t nostr_nip47_create_pay_invoice_params(char** params_json, const ch
         return err;
     }
 #else
-    char escaped_invoice[4096];
-    nip47_json_escape(escaped_invoice, sizeof(escaped_invoice), invoice);
-    char buffer[4096];
+    nip47_text t = {0};
+    nip47_put_char(&t, '{');
+    nip47_add_string(&t, "invoice", invoice);
     if (amount_msats) {
-        snprintf(buffer, sizeof(buffer), "{\"invoice\":\"%s\",\"amount\":%llu}",
-                 escaped_invoice, (unsigned long long)*amount_msats);
-    } else {
-        snprintf(buffer, sizeof(buffer), "{\"invoice\":\"%s\"}", escaped_invoice);
+        nip47_add_u64(&t, "amount", *amount_msats);
     }
+    nip47_put_char(&t, '}');
 
-    *params_json = strdup(buffer);
-    if (!*params_json) {
-        return NOSTR_ERR_MEMORY;
+    nostr_error_t err = nip47_finish(&t, params_json);
+    if (err != NOSTR_OK) {
+        return err;
     }
 #endif
 
@@ -745,34 +746,23 @@ nostr_error_t nostr_nip47_create_make_invoice_params(char** params_json, uint64_
         return err;
     }
 #else
-    char buffer[4096];
-    int offset = snprintf(buffer, sizeof(buffer), "{\"amount\":%llu",
-                         (unsigned long long)amount_msats);
-
+    nip47_text t = {0};
+    nip47_put_char(&t, '{');
+    nip47_add_u64(&t, "amount", amount_msats);
     if (description) {
-        char escaped_desc[2048];
-        nip47_json_escape(escaped_desc, sizeof(escaped_desc), description);
-        offset += snprintf(buffer + offset, sizeof(buffer) - offset,
-                          ",\"description\":\"%s\"", escaped_desc);
+        nip47_add_string(&t, "description", description);
     }
-
     if (description_hash) {
-        char escaped_hash[2048];
-        nip47_json_escape(escaped_hash, sizeof(escaped_hash), description_hash);
-        offset += snprintf(buffer + offset, sizeof(buffer) - offset,
-                          ",\"description_hash\":\"%s\"", escaped_hash);
+        nip47_add_string(&t, "description_hash", description_hash);
     }
-    
     if (expiry_secs) {
-        offset += snprintf(buffer + offset, sizeof(buffer) - offset, 
-                          ",\"expiry\":%u", *expiry_secs);
+        nip47_add_u64(&t, "expiry", *expiry_secs);
     }
-    
-    snprintf(buffer + offset, sizeof(buffer) - offset, "}");
-    
-    *params_json = strdup(buffer);
-    if (!*params_json) {
-        return NOSTR_ERR_MEMORY;
+    nip47_put_char(&t, '}');
+
+    nostr_error_t err = nip47_finish(&t, params_json);
+    if (err != NOSTR_OK) {
+        return err;
     }
 #endif
     
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index c91d3bb..20d40c1 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -5,6 +5,9 @@
 #include <errno.h>
 #include <time.h>
 #include "../include/nostr.h"
+#ifndef HAVE_CJSON
+#include "nip47_text.h"
+#endif
 
 #ifdef HAVE_CJSON
 #include <cjson/cJSON.h>
@@ -79,50 +82,34 @@ nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, ti
         return err;
     }
 #else
-    char buffer[4096];
-    int pos = snprintf(buffer, sizeof(buffer), "{");
-    int first = 1;
-    
+    nip47_text t = {0};
+    char number[24];
+    nip47_put_char(&t, '{');
     if (from) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "%s\"from\":%ld", 
-                       first ? "" : ",", *from);
-        first = 0;
+        snprintf(number, sizeof(number), "%lld", (long long)*from);
+        nip47_add_raw(&t, "from", number);
     }
-    
     if (until) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "%s\"until\":%ld", 
-                       first ? "" : ",", *until);
-        first = 0;
+        snprintf(number, sizeof(number), "%lld", (long long)*until);
+        nip47_add_raw(&t, "until", number);
     }
-    
     if (limit) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "%s\"limit\":%u", 
-                       first ? "" : ",", *limit);
-        first = 0;
+        nip47_add_u64(&t, "limit", *limit);
     }
-    
     if (offset) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "%s\"offset\":%u", 
-                       first ? "" : ",", *offset);
-        first = 0;
+        nip47_add_u64(&t, "offset", *offset);
     }
-    
     if (unpaid) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "%s\"unpaid\":%s", 
-                       first ? "" : ",", *unpaid ? "true" : "false");
-        first = 0;
+        nip47_add_raw(&t, "unpaid", *unpaid ? "true" : "false");
     }
-    
     if (type) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "%s\"type\":\"%s\"", 
-                       first ? "" : ",", type);
+        nip47_add_string(&t, "type", type);
     }
-    
-    snprintf(buffer + pos, sizeof(buffer) - pos, "}");
-    
-    *params_json = strdup(buffer);
-    if (!*params_json) {
-        return NOSTR_ERR_MEMORY;
+    nip47_put_char(&t, '}');
+
+    nostr_error_t err = nip47_finish(&t, params_json);
+    if (err != NOSTR_OK) {
+        return err;
     }
 #endif
     
@@ -157,23 +144,19 @@ nostr_error_t nostr_nip47_create_lookup_invoice_params(char** params_json, const
         return err;
     }
 #else
-    char buffer[4096];
-    int pos = snprintf(buffer, sizeof(buffer), "{");
-    
+    nip47_text t = {0};
+    nip47_put_char(&t, '{');
     if (payment_hash) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "\"payment_hash\":\"%s\"", payment_hash);
+        nip47_add_string(&t, "payment_hash", payment_hash);
     }
-    
     if (invoice) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "%s\"invoice\":\"%s\"", 
-                       payment_hash ? "," : "", invoice);
+        nip47_add_string(&t, "invoice", invoice);
     }
-    
-    snprintf(buffer + pos, sizeof(buffer) - pos, "}");
-    
-    *params_json = strdup(buffer);
-    if (!*params_json) {
-        return NOSTR_ERR_MEMORY;
+    nip47_put_char(&t, '}');
+
+    nostr_error_t err = nip47_finish(&t, params_json);
+    if (err != NOSTR_OK) {
+        return err;
     }
 #endif
     
@@ -232,38 +215,36 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
         return err;
     }
 #else
-    char buffer[8192];
-    int pos = snprintf(buffer, sizeof(buffer), 
-                      "{\"amount\":%llu,\"pubkey\":\"%s\"",
-                      (unsigned long long)amount_msats, pubkey);
-    
+    nip47_text t = {0};
+    nip47_put_char(&t, '{');
+    nip47_add_u64(&t, "amount", amount_msats);
+    nip47_add_string(&t, "pubkey", pubkey);
     if (preimage) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, 
-                       ",\"preimage\":\"%s\"", preimage);
+        nip47_add_string(&t, "preimage", preimage);
     }
-    
     if (tlv_records && tlv_count > 0) {
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, ",\"tlv_records\":[");
-        
-        for (size_t i = 0; i < tlv_count; i += 2) {
-            if (i + 1 < tlv_count) {
-                if (i > 0) {
-                    pos += snprintf(buffer + pos, sizeof(buffer) - pos, ",");
-                }
-                pos += snprintf(buffer + pos, sizeof(buffer) - pos, 
-                               "{\"type\":%s,\"value\":\"%s\"}", 
-                               tlv_records[i], tlv_records[i + 1]);
+        nip47_add_raw(&t, "tlv_records", "[");
+        for (size_t i = 0; i + 1 < tlv_count; i += 2) {
+            char* end;
+            errno = 0;
+            unsigned long long type_val = strtoull(tlv_records[i], &end, 10);
+            if (tlv_records[i][0] < '0' || tlv_records[i][0] > '9' || *end || errno) {
+                free(t.data);
+                return NOSTR_ERR_INVALID_PARAM;
             }
+            nip47_next(&t);
+            nip47_put_char(&t, '{');
+            nip47_add_u64(&t, "type", type_val);
+            nip47_add_string(&t, "value", tlv_records[i + 1]);
+            nip47_put_char(&t, '}');
         }
-        
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "]");
+        nip47_put_char(&t, ']');
     }
-    
-    snprintf(buffer + pos, sizeof(buffer) - pos, "}");
-    
-    *params_json = strdup(buffer);
-    if (!*params_json) {
-        return NOSTR_ERR_MEMORY;
+    nip47_put_char(&t, '}');
+
+    nostr_error_t err = nip47_finish(&t, params_json);
+    if (err != NOSTR_OK) {
+        return err;
     }
 #endif
     
@@ -313,37 +294,27 @@ nostr_error_t nostr_nip47_create_multi_pay_invoice_params(char** params_json,
         return err;
     }
 #else
-    char buffer[16384];
-    int pos = snprintf(buffer, sizeof(buffer), "{\"invoices\":[");
-    
+    nip47_text t = {0};
+    nip47_put_char(&t, '{');
+    nip47_add_raw(&t, "invoices", "[");
     for (size_t i = 0; i < count; i++) {
-        if (i > 0) {
-            pos += snprintf(buffer + pos, sizeof(buffer) - pos, ",");
-        }
-        
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "{");
-        
+        nip47_next(&t);
+        nip47_put_char(&t, '{');
         if (invoice_ids && invoice_ids[i]) {
-            pos += snprintf(buffer + pos, sizeof(buffer) - pos, 
-                           "\"id\":\"%s\",", invoice_ids[i]);
+            nip47_add_string(&t, "id", invoice_ids[i]);
         }
-        
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, 
-                       "\"invoice\":\"%s\"", invoices[i]);
-        
+        nip47_add_string(&t, "invoice", invoices[i]);
         if (amounts && amounts[i] > 0) {
-            pos += snprintf(buffer + pos, sizeof(buffer) - pos, 
-                           ",\"amount\":%llu", (unsigned long long)amounts[i]);
+            nip47_add_u64(&t, "amount", amounts[i]);
         }
-        
-        pos += snprintf(buffer + pos, sizeof(buffer) - pos, "}");
+        nip47_put_char(&t, '}');
     }
-    
-    snprintf(buffer + pos, sizeof(buffer) - pos, "]}");
-    
-    *params_json = strdup(buffer);
-    if (!*params_json) {
-        return NOSTR_ERR_MEMORY;
+    nip47_put_char(&t, ']');
+    nip47_put_char(&t, '}');
+
+    nostr_error_t err = nip47_finish(&t, params_json);
+    if (err != NOSTR_OK) {
+        return err;
     }
 #endif
     
diff --git a/src/nip47_text.h b/src/nip47_text.h
new file mode 100644
index 0000000..eedef77
--- /dev/null
+++ b/src/nip47_text.h
@@ -0,0 +1,151 @@
+#ifndef NIP47_TEXT_H
+#define NIP47_TEXT_H
+
+/* The few things NIP-47 needs of JSON in builds without cJSON. */
+
+#include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
+#include <stdint.h>
+#include "../include/nostr.h"
+
+typedef struct {
+    char* data;
+    size_t len;
+    size_t cap;
+    int failed;
+} nip47_text;
+
+static inline void nip47_put(nip47_text* t, const char* s, size_t n)
+{
+    if (t->failed) return;
+    if (n >= t->cap - t->len) {
+        if (n > SIZE_MAX / 4 || t->len > SIZE_MAX / 4) {
+            t->failed = 1;
+            return;
+        }
+        size_t cap = (t->len + n) * 2 + 64;
+        char* grown = realloc(t->data, cap);
+        if (!grown) {
+            t->failed = 1;
+            return;
+        }
+        t->data = grown;
+        t->cap = cap;
+    }
+    memcpy(t->data + t->len, s, n);
+    t->len += n;
+    t->data[t->len] = '\0';
+}
+
+static inline void nip47_put_char(nip47_text* t, char c)
+{
+    nip47_put(t, &c, 1);
+}
+
+static inline void nip47_put_string(nip47_text* t, const char* s)
+{
+    nip47_put_char(t, '"');
+    for (; *s; s++) {
+        char escape[8];
+        if (*s == '"' || *s == '\\') {
+            escape[0] = '\\';
+            escape[1] = *s;
+            nip47_put(t, escape, 2);
+        } else if ((unsigned char)*s < 0x20) {
+            snprintf(escape, sizeof(escape), "\\u%04x", (unsigned char)*s);
+            nip47_put(t, escape, 6);
+        } else {
+            nip47_put_char(t, *s);
+        }
+    }
+    nip47_put_char(t, '"');
+}
+
+/* Starts an element: what comes before it decides whether a comma is needed. */
+static inline void nip47_next(nip47_text* t)
+{
+    if (!t->failed && t->len > 0 && t->data[t->len - 1] != '{' && t->data[t->len - 1] != '[') {
+        nip47_put_char(t, ',');
+    }
+}
+
+static inline void nip47_add_raw(nip47_text* t, const char* name, const char* value)
+{
+    nip47_next(t);
+    nip47_put_string(t, name);
+    nip47_put_char(t, ':');
+    nip47_put(t, value, strlen(value));
+}
+
+static inline void nip47_add_u64(nip47_text* t, const char* name, uint64_t value)
+{
+    char number[24];
+    snprintf(number, sizeof(number), "%llu", (unsigned long long)value);
+    nip47_add_raw(t, name, number);
+}
+
+static inline void nip47_add_string(nip47_text* t, const char* name, const char* value)
+{
+    nip47_add_raw(t, name, "");
+    nip47_put_string(t, value);
+}
+
+static inline nostr_error_t nip47_finish(nip47_text* t, char** out)
+{
+    if (t->failed) {
+        free(t->data);
+        *out = NULL;
+        return NOSTR_ERR_MEMORY;
+    }
+    *out = t->data;
+    return NOSTR_OK;
+}
+
+static inline const char* nip47_skip_ws(const char* p)
+{
+    while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++;
+    return p;
+}
+
+/* The value of a member of the object that json is (members of nested objects
+ * do not count), or NULL. */
+static inline const char* nip47_member(const char* json, const char* name)
+{
+    size_t name_len = strlen(name);
+    int depth = 0;
+
+    for (const char* p = nip47_skip_ws(json); *p; p++) {
+        if (*p == '{' || *p == '[') {
+            depth++;
+        } else if (*p == '}' || *p == ']') {
+            depth--;
+        } else if (*p == '"') {
+            const char* start = ++p;
+            while (*p && *p != '"') {
+                if (*p == '\\' && p[1]) p++;
+                p++;
+            }
+            if (!*p) return NULL;
+            if (depth == 1 && (size_t)(p - start) == name_len && memcmp(start, name, name_len) == 0) {
+                const char* value = nip47_skip_ws(p + 1);
+                if (*value == ':') return nip47_skip_ws(value + 1);
+            }
+        }
+        if (depth <= 0) return NULL;
+    }
+    return NULL;
+}
+
+/* A number that fits into 64 bits. */
+static inline int nip47_read_u64(const char* value, uint64_t* out)
+{
+    if (!value || *value < '0' || *value > '9') return 0;
+    double number = strtod(value, NULL);
+    /* 2^64, the first value that does not fit */
+    if (!(number >= 0 && number < 18446744073709551616.0)) return 0;
+    *out = (uint64_t)number;
+    return 1;
+}
+
+#endif
-- 
2.43.0


From e3bff710844dc4e4179ed08e0df6996d8449b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:42 +0000
Subject: [PATCH 107/107] fix: do not invent or misread NIP-47 replies in
 builds without cJSON

Replies, notifications and wallet information were made up ("unknown", "{}",
block 800000) whatever the wallet had sent, and balance, preimage and fees were
taken from any text that looked like them, nested or inside strings, also when
they were no numbers.
---
 src/nip47.c          | 10 ++++-----
 src/nip47_commands.c | 53 ++++++++++++++++++--------------------------
 2 files changed, 25 insertions(+), 38 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 4034ded..c5132ca 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -631,10 +631,8 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
         return NOSTR_ERR_MEMORY;
     }
 #else
-    if (result_type) *result_type = strdup("unknown");
-    if (result_json) *result_json = strdup("{}");
-    if (error_code) *error_code = NULL;
-    if (error_message) *error_message = NULL;
+    free(decrypted);
+    return NOSTR_ERR_NOT_SUPPORTED;
 #endif
     
     free(decrypted);
@@ -836,8 +834,8 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
         return NOSTR_ERR_MEMORY;
     }
 #else
-    if (notification_type) *notification_type = strdup("unknown");
-    if (notification_json) *notification_json = strdup("{}");
+    free(decrypted);
+    return NOSTR_ERR_NOT_SUPPORTED;
 #endif
     
     free(decrypted);
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 20d40c1..5c471e4 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -362,14 +362,9 @@ nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64
     
     cJSON_Delete(root);
 #else
-    const char* balance_str = strstr(result_json, "\"balance\":");
-    if (!balance_str) {
+    if (!nip47_read_u64(nip47_member(result_json, "balance"), balance_msats)) {
         return NOSTR_ERR_INVALID_PARAM;
     }
-    
-    balance_str += 10;
-    char* end;
-    *balance_msats = strtoull(balance_str, &end, 10);
 #endif
     
     return NOSTR_OK;
@@ -412,28 +407,30 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
     
     cJSON_Delete(root);
 #else
+    if (*nip47_skip_ws(result_json) != '{') {
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+
     if (preimage) {
-        const char* preim_str = strstr(result_json, "\"preimage\":\"");
-        if (preim_str) {
-            preim_str += 12;
-            const char* end = strchr(preim_str, '"');
-            if (end) {
-                size_t len = end - preim_str;
-                *preimage = malloc(len + 1);
-                if (*preimage) {
-                    memcpy(*preimage, preim_str, len);
-                    (*preimage)[len] = 0;
-                }
+        const char* value = nip47_member(result_json, "preimage");
+        if (value && *value == '"') {
+            size_t len = strcspn(value + 1, "\"\\");
+            if (value[1 + len] != '"') {
+                return NOSTR_ERR_NOT_SUPPORTED;
+            }
+            *preimage = malloc(len + 1);
+            if (!*preimage) {
+                return NOSTR_ERR_MEMORY;
             }
+            memcpy(*preimage, value + 1, len);
+            (*preimage)[len] = 0;
         }
     }
-    
+
     if (fees_paid) {
-        const char* fees_str = strstr(result_json, "\"fees_paid\":");
-        if (fees_str) {
-            fees_str += 12;
-            char* end;
-            *fees_paid = strtoull(fees_str, &end, 10);
+        uint64_t fees;
+        if (nip47_read_u64(nip47_member(result_json, "fees_paid"), &fees)) {
+            *fees_paid = fees;
         }
     }
 #endif
@@ -539,15 +536,7 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
         return NOSTR_ERR_MEMORY;
     }
 #else
-    if (alias) *alias = strdup("wallet");
-    if (color) *color = strdup("#000000");
-    if (pubkey) *pubkey = strdup("0000000000000000000000000000000000000000000000000000000000000000");
-    if (network) *network = strdup("mainnet");
-    if (block_height) *block_height = 800000;
-    if (methods && method_count) {
-        *method_count = 0;
-        *methods = NULL;
-    }
+    return NOSTR_ERR_NOT_SUPPORTED;
 #endif
     
     return NOSTR_OK;
-- 
2.43.0

