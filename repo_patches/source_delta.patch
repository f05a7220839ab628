From ea2c89c58526027810c80b9fe8a9dfbed2302516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:35 +0000
Subject: [PATCH 001/103] fix: base64 decode reads outside the input and the
 decode table

---
 src/onion/codecs.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 1e151c3..71a1eb8 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -71,8 +71,12 @@ static u_int8_t onion_base64_decode_get_next(const char **I){
     (*I)++;
     c = (int)**I;
   }
+  if (c == '\0')                // Never go over the end of the string
+    return 255;
   // ONION_DEBUG("GET %c", (char)c);
   (*I)++;
+  if (c >= sizeof(db64))        // Table has only the ASCII range
+    return 255;
   return db64[c];
 }
 
@@ -95,6 +99,10 @@ char *onion_base64_decode(const char *orig, int *length) {
   // We use pointers all along. endI is exactly the last char. For an empty string is the one before I.
   const char *I=orig, *endI=orig + strlen(orig) - 1;
 
+  // Ignore white space at the end, so that endI really is the last data char.
+  while (I < endI && (*endI == '\n' || *endI == '\r' || *endI == ' '))
+    endI--;
+
   if (I >= endI){
     return NULL;
   }
-- 
2.43.0


From fd7c94ecf5c702112c753294d14947080474c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:35 +0000
Subject: [PATCH 002/103] fix: url unquote reads after the end on a truncated
 escape

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 71a1eb8..17108cb 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -263,7 +263,7 @@ void onion_unquote_inplace(char *str) {
   char *w = str;
   char tmp[3] = { 0, 0, 0 };
   while (*r) {
-    if (*r == '%') {
+    if (*r == '%' && r[1] != '\0' && r[2] != '\0') {
       r++;
       tmp[0] = *r++;
       tmp[1] = *r;
-- 
2.43.0


From 09d8fc4bf1f0888c21d0240cb50821ecffa7632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:35 +0000
Subject: [PATCH 003/103] fix: url quote checks the space left at the output,
 not the input position

---
 src/onion/codecs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 17108cb..478ed8c 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -309,13 +309,13 @@ int onion_quote(const char *str, char *res, int maxlength) {
   int l = strlen(str);
   int i;
   for (i = 0; i < l; i++) {
-    if (i >= maxlength)
+    if (nl + 1 >= maxlength)
       break;
     char c = str[i];
     if (is_alnum(c))
       res[nl++] = c;
     else {
-      if (i + 2 >= maxlength)
+      if (nl + 3 >= maxlength)
         break;
 
       res[nl++] = '%';
-- 
2.43.0


From 2d7d9131009293304dcf2f6a2e8efd69a077733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:35 +0000
Subject: [PATCH 004/103] fix: C quote accounts for the real size of the
 escapes

---
 src/onion/codecs.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 478ed8c..0781198 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -356,6 +356,16 @@ char *onion_c_quote(const char *str, char *ret, int l) {
   *r++ = '"';
   l -= 3;                       // both " at start and end, and \0
   while (*p != '\0') {
+    int n = 1;                  // bytes this char needs at the output
+    if (*p == '\n')
+      n = 5;
+    else if (*p == '\r' || *p == '"' || *p == '\\' || *p == '\t')
+      n = 2;
+    else if (*p > 127)
+      n = 4;
+    if (l < n)                  // does not fit!
+      break;
+    l -= n;
     if (*p == '\n') {
       *r = '\\';
       r++;
@@ -384,10 +394,6 @@ char *onion_c_quote(const char *str, char *ret, int l) {
       *r = 't';
     } else if (*p > 127) {
       int c = *p;
-      if (l < 4) {              // does not fit!
-        *r = '\0';
-        return ret;
-      }
       *r = '\\';
       r++;
       *r = '0' + ((c >> 6) & 0x03);
@@ -400,11 +406,6 @@ char *onion_c_quote(const char *str, char *ret, int l) {
     }
     r++;
     p++;
-    l--;
-    if (l <= 0) {
-      *r = '\0';
-      break;
-    }
   }
   *r++ = '"';
   *r++ = '\0';
-- 
2.43.0


From 4535458a49693346dfc7b792bb099bd9d8c9e826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:35 +0000
Subject: [PATCH 005/103] fix: html quote dup of a string with nothing to quote
 uses NULL

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 0781198..2c68d5d 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -534,7 +534,7 @@ const char *onion_html_quote_dup(const char *str) {
   if (quostr != NULL)
     return quostr;
   else
-    return onion_low_strdup(quostr);
+    return onion_low_strdup(str);
 }
 
 /**
-- 
2.43.0


From 6d777abdf65d28805e773b707ffdd45e96804af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:35 +0000
Subject: [PATCH 006/103] fix: json unquote reads after the end on an
 unfinished string

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 2c68d5d..5a4d416 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -704,7 +704,7 @@ ssize_t onion_json_unquote_add(onion_block * block, const char *str) {
         continue;
       }
     }
-    if (!eos && !*data) {       // \0, expecting \" as eos
+    if (!*data) {       // \0, expecting \" as eos
       ONION_DEBUG("Expected \" got eof");
       return -1;
     }
-- 
2.43.0


From 7f1ee36eeac3ef4b2b3b2e8676ca73152227102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:35 +0000
Subject: [PATCH 007/103] fix: json parser reads after the end when the key is
 not quoted

---
 src/onion/dict.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index fbbe6e5..45fbbe1 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -752,6 +752,10 @@ static onion_dict *onion_dict_from_json_(const char **_data) {
   onion_block *value = onion_block_new();
   while (*data != '}') {
     // Get Key
+    if (*data != '"') {         // Includes \0
+      ONION_DEBUG("Expected \" got %c", *data);
+      goto error;
+    }
     ssize_t read_bytes = onion_json_unquote_add(key, data);
     if (read_bytes < 0)
       goto error;
-- 
2.43.0


From fdf8fc1615d977fecf35cbbada32cce66bed7304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:35 +0000
Subject: [PATCH 008/103] fix: removing from a pointer list loops forever and
 leaks the node

---
 src/onion/ptr_list.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/onion/ptr_list.c b/src/onion/ptr_list.c
index 4b86b86..53fd015 100644
--- a/src/onion/ptr_list.c
+++ b/src/onion/ptr_list.c
@@ -53,9 +53,13 @@ onion_ptr_list *onion_ptr_list_add(onion_ptr_list * l, void *ptr) {
 onion_ptr_list *onion_ptr_list_remove(onion_ptr_list * l, void *ptr) {
   if (!l)
     return l;
-  if (ptr == l->ptr)
-    return l->next;
-  return onion_ptr_list_remove(l, ptr);
+  if (ptr == l->ptr) {
+    onion_ptr_list *next = l->next;
+    onion_low_free(l);
+    return next;
+  }
+  l->next = onion_ptr_list_remove(l->next, ptr);
+  return l;
 }
 
 /**
-- 
2.43.0


From 3e0ba07301cfc83d48f3c49ec765704b6e0cee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:35 +0000
Subject: [PATCH 009/103] fix: pointer list filter frees with the wrong
 allocator

---
 src/onion/ptr_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/ptr_list.c b/src/onion/ptr_list.c
index 53fd015..59de3b9 100644
--- a/src/onion/ptr_list.c
+++ b/src/onion/ptr_list.c
@@ -104,7 +104,7 @@ onion_ptr_list *onion_ptr_list_filter(onion_ptr_list * l,
     l->next = next;
     return l;
   } else {
-    free(l);
+    onion_low_free(l);
     return next;
   }
 }
-- 
2.43.0


From f5353fa28b107685b1a6768dbd8efe65f52dd279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 010/103] fix: redis sessions never remove a session

---
 src/onion/sessions_redis.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index 6b2bf9b..c2b3e64 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -109,16 +109,12 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
 
 void onion_sessions_redis_save(onion_sessions * sessions,
                                const char *session_id, onion_dict * data) {
-  onion_block *bl = onion_dict_to_json(data);
-
-  ONION_DEBUG0("Save session %s: %s", session_id, onion_block_data(bl));
-
   onion_session_redis *p = sessions->data;
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
 #endif
 
-  if (p == NULL) {
+  if (data == NULL) {
     redisReply *reply = redisCommand(p->context, "HDEL SESSIONS %b", session_id,
                                      strlen(session_id));
 
@@ -127,6 +123,7 @@ void onion_sessions_redis_save(onion_sessions * sessions,
     }
     freeReplyObject(reply);
   } else {
+    onion_block *bl = onion_dict_to_json(data);
     const char *json = onion_block_data(bl);
     redisReply *reply =
         redisCommand(p->context, "HSET SESSIONS %b %b", session_id,
-- 
2.43.0


From dd699ccc52a26ce99b0e1f4fa836b8b127d6e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 011/103] fix: redis sessions leak, or use a NULL context, when
 can not connect

---
 src/onion/sessions_redis.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index c2b3e64..28606b6 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -158,9 +158,13 @@ onion_sessions *onion_sessions_redis_new(const char *server_ip, int port) {
   onion_session_redis *p = ret->data;
   p->context = redisConnect(server_ip, port);
 
-  if (p->context != NULL && p->context->err) {
-    ONION_ERROR("Can't connect to redis. Error (%s)", p->context->errstr);
-    redisFree(p->context);
+  if (p->context == NULL || p->context->err) {
+    ONION_ERROR("Can't connect to redis. Error (%s)",
+                p->context ? p->context->errstr : "no memory");
+    if (p->context)
+      redisFree(p->context);
+    onion_low_free(ret->data);
+    onion_low_free(ret);
     return NULL;
   }
 #ifdef HAVE_PTHREADS
-- 
2.43.0


From e49b0316909ff7330405c96e82159d32db793f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 012/103] fix: redis sessions crash when the connection to the
 server is lost

---
 src/onion/sessions_redis.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index 28606b6..6d1412f 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -74,7 +74,7 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
       redisCommand(p->context, "HEXISTS SESSIONS %b", session_id,
                    strlen(session_id));
 
-  if (reply->type != REDIS_REPLY_INTEGER) {
+  if (!reply || reply->type != REDIS_REPLY_INTEGER) {
     ONION_ERROR("Error getting session_id");
     freeReplyObject(reply);
     goto exit;
@@ -85,7 +85,7 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
           redisCommand(p->context, "HGET SESSIONS %b", session_id,
                        strlen(session_id));
 
-      if (reply->type != REDIS_REPLY_STRING) {
+      if (!reply || reply->type != REDIS_REPLY_STRING) {
         ONION_ERROR("Error loading session.");
         freeReplyObject(reply);
         goto exit;
@@ -118,7 +118,7 @@ void onion_sessions_redis_save(onion_sessions * sessions,
     redisReply *reply = redisCommand(p->context, "HDEL SESSIONS %b", session_id,
                                      strlen(session_id));
 
-    if (reply->type != REDIS_REPLY_INTEGER) {
+    if (!reply || reply->type != REDIS_REPLY_INTEGER) {
       ONION_ERROR("Error removing session");
     }
     freeReplyObject(reply);
@@ -129,7 +129,7 @@ void onion_sessions_redis_save(onion_sessions * sessions,
         redisCommand(p->context, "HSET SESSIONS %b %b", session_id,
                      strlen(session_id), json, strlen(json));
 
-    if (reply->type != REDIS_REPLY_INTEGER) {
+    if (!reply || reply->type != REDIS_REPLY_INTEGER) {
       ONION_ERROR("Error saving session");
     }
     freeReplyObject(reply);
-- 
2.43.0


From 4d5f42526af778b1338d293aa244ac599c63ead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 013/103] fix: sqlite3 sessions leak a statement on error

---
 src/onion/sessions_sqlite3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/sessions_sqlite3.c b/src/onion/sessions_sqlite3.c
index cf3c1a5..79df304 100644
--- a/src/onion/sessions_sqlite3.c
+++ b/src/onion/sessions_sqlite3.c
@@ -174,6 +174,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   rc = sqlite3_prepare_v2(db, SAVE_SQL, strlen(SAVE_SQL), &save, NULL);
   if (rc != SQLITE_OK) {
     ONION_ERROR("Cant prepare statement to save (%d)", rc);
+    sqlite3_finalize(get);
     sqlite3_close(db);
     return NULL;
   }
-- 
2.43.0


From ae702fae8d7e2b4df88580755750cd21a7400792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 014/103] fix: sqlite3 sessions do not remove sessions, just
 make them empty

---
 src/onion/sessions_sqlite3.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/onion/sessions_sqlite3.c b/src/onion/sessions_sqlite3.c
index 79df304..7dbd6bb 100644
--- a/src/onion/sessions_sqlite3.c
+++ b/src/onion/sessions_sqlite3.c
@@ -41,6 +41,7 @@ typedef struct onion_session_sqlite3_t {
   sqlite3 *db;
   sqlite3_stmt *save;
   sqlite3_stmt *get;
+  sqlite3_stmt *del;
 #ifdef HAVE_PTHREADS
   pthread_mutex_t mutex;
 #endif
@@ -55,6 +56,7 @@ static void onion_sessions_sqlite3_free(onion_sessions * sessions) {
 #endif
   sqlite3_finalize(p->save);
   sqlite3_finalize(p->get);
+  sqlite3_finalize(p->del);
   sqlite3_close(p->db);
   onion_low_free(sessions->data);
 
@@ -102,13 +104,28 @@ static onion_dict *onion_sessions_sqlite3_get(onion_sessions * sessions,
 
 void onion_sessions_sqlite3_save(onion_sessions * sessions,
                                  const char *session_id, onion_dict * data) {
+  int rc;
+  onion_session_sqlite3 *p = sessions->data;
+  if (data == NULL) {           // Remove it
+#ifdef HAVE_PTHREADS
+    pthread_mutex_lock(&p->mutex);
+#endif
+    sqlite3_reset(p->del);
+    rc = sqlite3_bind_text(p->del, 1, session_id, -1, SQLITE_STATIC);
+    if (rc != SQLITE_OK || sqlite3_step(p->del) != SQLITE_DONE) {
+      ONION_ERROR("Error removing session");
+    }
+#ifdef HAVE_PTHREADS
+    pthread_mutex_unlock(&p->mutex);
+#endif
+    return;
+  }
+
   onion_block *bl = onion_dict_to_json(data);
 
   ONION_DEBUG0("Save session %s: %s", session_id, onion_block_data(bl));
   const char *json = onion_block_data(bl);
 
-  int rc;
-  onion_session_sqlite3 *p = sessions->data;
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
 #endif
@@ -179,6 +196,17 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
     return NULL;
   }
 
+  const char *DEL_SQL = "DELETE FROM sessions WHERE id=?";
+  sqlite3_stmt *del;
+  rc = sqlite3_prepare_v2(db, DEL_SQL, strlen(DEL_SQL), &del, NULL);
+  if (rc != SQLITE_OK) {
+    ONION_ERROR("Cant prepare statement to remove (%d)", rc);
+    sqlite3_finalize(get);
+    sqlite3_finalize(save);
+    sqlite3_close(db);
+    return NULL;
+  }
+
   onion_sessions *ret = onion_low_malloc(sizeof(onion_sessions));
 
   ret->data = onion_low_malloc(sizeof(onion_session_sqlite3));
@@ -190,6 +218,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   p->db = db;
   p->save = save;
   p->get = get;
+  p->del = del;
 #ifdef HAVE_PTHREADS
   pthread_mutex_init(&p->mutex, NULL);
 #endif
-- 
2.43.0


From 7324e63175ee13cc786694a871fc073cd6a6ca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 015/103] fix: in memory sessions are shared between threads
 without locking

---
 src/onion/sessions_mem.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/onion/sessions_mem.c b/src/onion/sessions_mem.c
index f8a31ce..1edab91 100644
--- a/src/onion/sessions_mem.c
+++ b/src/onion/sessions_mem.c
@@ -35,25 +35,29 @@ char *last_data = NULL;
 static onion_dict *onion_sessions_mem_get(onion_sessions * sessions,
                                           const char *session_id) {
   ONION_DEBUG0("Accessing session '%s'", session_id);
+  onion_dict_lock_read(sessions->data);
   onion_dict *sess = onion_dict_get_dict(sessions->data, session_id);
-  if (!sess) {
+  if (sess)
+    sess = onion_dict_dup(sess);
+  else
     ONION_DEBUG0("Unknown session '%s'.", session_id);
-    return NULL;
-  }
-  return onion_dict_dup(sess);
+  onion_dict_unlock(sessions->data);
+  return sess;
 }
 
 static void onion_sessions_mem_save(onion_sessions * sessions,
                                     const char *session_id, onion_dict * data) {
+  onion_dict_lock_write(sessions->data);
   if (data == NULL) {
     data = onion_dict_get_dict(sessions->data, session_id);
     if (data) {
       onion_dict_remove(sessions->data, session_id);
     }
-    return;
+  } else {
+    onion_dict_add(sessions->data, session_id, onion_dict_dup(data),
+                   OD_DUP_KEY | OD_FREE_VALUE | OD_DICT | OD_REPLACE);
   }
-  onion_dict_add(sessions->data, session_id, onion_dict_dup(data),
-                 OD_DUP_KEY | OD_FREE_VALUE | OD_DICT | OD_REPLACE);
+  onion_dict_unlock(sessions->data);
 }
 
 static void onion_sessions_mem_free(onion_sessions * sessions) {
-- 
2.43.0


From 8feb77cdbdbdbe2455637a04c61442838ba32191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 016/103] fix: webdav MOVE moves the file onto itself, and does
 not check the destination

---
 src/onion/handlers/webdav.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 9298dd8..8e8e570 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -30,6 +30,7 @@
 #include <onion/log.h>
 #include <onion/response.h>
 #include <onion/block.h>
+#include <onion/codecs.h>
 #include <onion/shortcuts.h>
 #include <onion/low.h>
 
@@ -216,7 +217,15 @@ onion_connection_status onion_webdav_move(const char *filename,
     return onion_shortcut_response("Forbidden", HTTP_FORBIDDEN, req, res);
   }
 
-  const char *fdest = filename;
+  char *udest = onion_low_strdup(dest);
+  onion_unquote_inplace(udest);
+  char fdest[512];
+  snprintf(fdest, sizeof(fdest), "%s/%s", wd->path, udest);
+  onion_low_free(udest);
+
+  if (wd->check_permissions(wd->path, fdest, req) != 0) {
+    return onion_shortcut_response("Forbidden", HTTP_FORBIDDEN, req, res);
+  }
 
   ONION_INFO("Move %s to %s (webdav)", fullpath, dest_orig);
 
-- 
2.43.0


From 37339c40a62a87268d0d97e89a372b3ba1074990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 017/103] fix: webdav crashes on PUT and PROPFIND without a
 body

---
 src/onion/handlers/webdav.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 8e8e570..151cb4d 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -265,7 +265,10 @@ onion_connection_status onion_webdav_put(const char *filename,
                                          onion_response * res) {
   ONION_DEBUG("Webdav puts %s", filename);
 
-  const char *tmpfile = onion_block_data(onion_request_get_data(req));
+  const onion_block *data = onion_request_get_data(req);
+  if (!data)
+    return OCS_INTERNAL_ERROR;
+  const char *tmpfile = onion_block_data(data);
 
   int ok = onion_shortcut_rename(tmpfile, filename);
 
@@ -605,7 +608,10 @@ onion_connection_status onion_webdav_propfind(const char *filename,
     depth = atoi(depths);
   }
 
-  int props = onion_webdav_parse_propfind(onion_request_get_data(req));
+  const onion_block *data = onion_request_get_data(req);
+  if (!data)
+    return OCS_INTERNAL_ERROR;
+  int props = onion_webdav_parse_propfind(data);
   ONION_DEBUG("Asking for props %08X, depth %d", props, depth);
 
   onion_block *block = onion_webdav_write_propfind(basepath, filename,
-- 
2.43.0


From baddb179409da8932da8f62d779cdf5d936937ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 018/103] fix: webdav PROPFIND writes after the end of the base
 path

---
 src/onion/handlers/webdav.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 151cb4d..6fba7f7 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -586,7 +586,7 @@ onion_connection_status onion_webdav_propfind(const char *filename,
   const char *current_path = onion_request_get_path(req);
   const char *fullpath = onion_request_get_fullpath(req);
   pathlen = (current_path - fullpath);
-  basepath = alloca(pathlen + 1);
+  basepath = alloca(pathlen + 2);
   memcpy(basepath, fullpath, pathlen + 1);
   ONION_DEBUG0("Pathbase initial <%s> %d", basepath, pathlen);
   while (basepath[pathlen] == '/' && pathlen > 0)
-- 
2.43.0


From deca7e4303fba891a9be95e5462cb2562ab5ddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 019/103] fix: webdav may write after the end of the property
 path

---
 src/onion/handlers/webdav.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 6fba7f7..c6a09f2 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -419,7 +419,7 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
     }
   }
   if (S_ISDIR(st.st_mode) && urlpath[0] != 0)
-    strncat(tmp, "/", sizeof(tmp) - 1);
+    strncat(tmp, "/", sizeof(tmp) - strlen(tmp) - 1);
   ONION_DEBUG0("Props for %s", tmp);
 
   xmlTextWriterStartElement(writer, BAD_CAST "D:response");
-- 
2.43.0


From 694b5580d07baa0ac16b4cbc6053de17c9a84d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 020/103] fix: webdav crashes on PROPPATCH of an empty property

---
 src/onion/handlers/webdav.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index c6a09f2..f5c758a 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -670,7 +670,8 @@ onion_connection_status onion_webdav_proppatch(const char *filename,
               xmlNode *prop = set->children;
               while (prop) {
                 ONION_DEBUG("prop %s", prop->name);
-                if (strcmp((const char *)prop->name, "executable") == 0) {
+                if (strcmp((const char *)prop->name, "executable") == 0
+                    && prop->children && prop->children->content) {
                   ONION_DEBUG("Setting executable %s", prop->children->content);
                   struct stat st;
                   stat(filename, &st);
-- 
2.43.0


From fb56d0ee8d61aa83db693c8a4cb08bfe05df1010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 021/103] fix: webdav leaks the xml buffer on error

---
 src/onion/handlers/webdav.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index f5c758a..32ce338 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -531,6 +531,7 @@ onion_block *onion_webdav_write_propfind(const char *basepath,
   writer = xmlNewTextWriterMemory(buf, 0);
   if (writer == NULL) {
     ONION_ERROR("testXmlwriterMemory: Error creating the xml writer");
+    xmlBufferFree(buf);
     return data;
   }
   int error;
-- 
2.43.0


From 67020215b585a806bd32a94dd04f9ffd9f6193ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 022/103] fix: webdav allows access to siblings of the shared
 directory

---
 src/onion/handlers/webdav.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 32ce338..850ab0c 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -753,10 +753,14 @@ int onion_webdav_default_check_permissions(const char *exported_path,
     ONION_ERROR("Could not resolve real path for %s or %s", exported_path,
                 filename);
   }
-  if ((ret == 0) && strncmp(base, file, strlen(base)) != 0) {
-    ret = 1;
-    ONION_ERROR("Base %s is not for file %s (%p)", base, file,
-                strncmp(base, file, strlen(base)));
+  if (ret == 0) {
+    size_t l = strlen(base);
+    // Must be the base itself, or something inside. /srv/data2 is not inside /srv/data.
+    if (strncmp(base, file, l) != 0
+        || (base[l - 1] != '/' && file[l] != '/' && file[l] != '\0')) {
+      ret = 1;
+      ONION_ERROR("Base %s is not for file %s", base, file);
+    }
   }
 
   if (base)
-- 
2.43.0


From 843d076b3e569aba29c0dd1679228fe0acbcc71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 023/103] fix: export local allows access to siblings of the
 exported directory

---
 src/onion/handlers/exportlocal.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index df4051b..b54d892 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -89,7 +89,8 @@ int onion_handler_export_local_handler(onion_handler_export_local_data * d,
   }
 
   const char *ret = realpath(tmp, realp);
-  if (!ret || strncmp(realp, d->localpath, strlen(d->localpath)) != 0) {        // out of secured dir.
+  size_t l = strlen(d->localpath);
+  if (!ret || strncmp(realp, d->localpath, l) != 0 || (d->localpath[l - 1] != '/' && realp[l] != '/' && realp[l] != '\0')) {  // out of secured dir.
     ONION_WARNING
         ("Trying to escape from secured dir (secured dir %s, trying %s).",
          d->localpath, realp);
-- 
2.43.0


From 568a7d439be9dacf45c3134df433d576a9acf8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 024/103] fix: PAM authentication crashes on malformed
 Authorization headers

---
 src/onion/handlers/auth_pam.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index 4be8fa1..b9f9c4d 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -58,14 +58,14 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
   char *auth = NULL;
   char *username = NULL;
   char *passwd = NULL;
-  if (o && strncmp(o, "Basic", 5) == 0) {
+  if (o && strncmp(o, "Basic ", 6) == 0) {
     //fprintf(stderr,"auth: '%s'\n",&o[6]);
     auth = onion_base64_decode(&o[6], NULL);
     username = auth;
     int i = 0;
-    while (auth[i] != '\0' && auth[i] != ':')
+    while (auth && auth[i] != '\0' && auth[i] != ':')
       i++;
-    if (auth[i] == ':') {
+    if (auth && auth[i] == ':') {
       auth[i] = '\0';           // so i have user ready
       passwd = &auth[i + 1];
     } else
-- 
2.43.0


From 9e9303d6ee9dba8df9df857fbebcf52e9cb07f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:23 +0000
Subject: [PATCH 025/103] fix: PAM authentication overflows the buffer for long
 realms

---
 src/onion/handlers/auth_pam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index b9f9c4d..f798507 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -92,7 +92,7 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
 
   // Not authorized. Ask for it.
   char temp[256];
-  sprintf(temp, "Basic realm=\"%s\"", d->realm);
+  snprintf(temp, sizeof(temp), "Basic realm=\"%s\"", d->realm);
   onion_response_set_header(res, "WWW-Authenticate", temp);
   onion_response_set_code(res, HTTP_UNAUTHORIZED);
   onion_response_set_length(res, sizeof(RESPONSE_UNAUTHORIZED));
-- 
2.43.0


From 9e6e2cd4485615739f46a7a574e71428280882dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:42 +0000
Subject: [PATCH 026/103] fix: directory listing does not escape the directory
 and file names

---
 src/onion/handlers/exportlocal.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index b54d892..68a9f99 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -37,6 +37,7 @@
 #include <onion/handler.h>
 #include <onion/response.h>
 #include <onion/codecs.h>
+#include <onion/block.h>
 #include <onion/log.h>
 #include <onion/low.h>
 
@@ -120,7 +121,9 @@ void onion_handler_export_local_header_default(onion_response * res,
                         " table a{ display: block; } th{ cursor: pointer} h1,h2{ color: black; text-align: center; } \n"
                         " a{ color: red; text-decoration: none; }</style>\n");
 
-  onion_response_printf(res, "<h1>Listing of directory %s</h1>\n", dirname);
+  const char *qdirname = onion_html_quote_dup(dirname);
+  onion_response_printf(res, "<h1>Listing of directory %s</h1>\n", qdirname);
+  onion_low_free((char *)qdirname);
 
   if (dirname[0] != '\0' && dirname[1] != '\0') // It will be 0, when showpath is "/"
     onion_response_write0(res, "<h2><a href=\"..\">Go up..</a></h2>\n");
@@ -150,8 +153,10 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
                         "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Transitional//EN\" \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd\">\n"
                         "<html>\n"
                         " <head><meta content=\"text/html; charset=UTF-8\" http-equiv=\"content-type\"/>\n");
+  const char *qshowpath = onion_html_quote_dup(showpath);
   onion_response_printf(res, "<title>Directory listing of %s</title>\n",
-                        showpath);
+                        qshowpath);
+  onion_low_free((char *)qshowpath);
   onion_response_write0(res,
                         "</head>\n" " <body>\n" "<script>\n"
                         "showListing = function(){\n"
@@ -194,12 +199,23 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
     stat(temp, &st);
     pwd = getpwuid(st.st_uid);
 
+    // The name ends up as HTML, from a javascript string.
+    snprintf(temp, sizeof(temp), "%s%s", fi->d_name,
+             S_ISDIR(st.st_mode) ? "/" : "");
+    const char *hname = onion_html_quote_dup(temp);
+    onion_block *qname = onion_block_new();
+    onion_json_quote_add(qname, hname);
+    onion_low_free((char *)hname);
+
     if (S_ISDIR(st.st_mode))
-      onion_response_printf(res, "  ['%s/',%ld,'%s','dir'],\n", fi->d_name,
+      onion_response_printf(res, "  [\"%s\",%ld,'%s','dir'],\n",
+                            onion_block_data(qname),
                             st.st_size, pwd ? pwd->pw_name : "???");
     else
-      onion_response_printf(res, "  ['%s',%ld,'%s','file'],\n", fi->d_name,
+      onion_response_printf(res, "  [\"%s\",%ld,'%s','file'],\n",
+                            onion_block_data(qname),
                             st.st_size, pwd ? pwd->pw_name : "???");
+    onion_block_free(qname);
   }
 
   onion_response_write0(res, "  [] ]\n</script>\n");
-- 
2.43.0


From 4b1d26320767e6258cfdead2ee5391ca7bf0246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:00 +0000
Subject: [PATCH 027/103] fix: directory listing uses a non reentrant function
 from several threads

---
 src/onion/handlers/exportlocal.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index 68a9f99..fbb4d78 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -191,13 +191,16 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
   struct dirent *fi;
   struct stat st;
   char temp[1024];
+  struct passwd pwdbuf;
   struct passwd *pwd;
+  char pwdtemp[1024];
   while ((fi = readdir(dir)) != NULL) {
     if (fi->d_name[0] == '.')
       continue;
     snprintf(temp, sizeof(temp), "%s/%s", realp, fi->d_name);
     stat(temp, &st);
-    pwd = getpwuid(st.st_uid);
+    pwd = NULL;
+    getpwuid_r(st.st_uid, &pwdbuf, pwdtemp, sizeof(pwdtemp), &pwd);
 
     // The name ends up as HTML, from a javascript string.
     snprintf(temp, sizeof(temp), "%s%s", fi->d_name,
-- 
2.43.0


From 5a88f050ff87b6b5b46c6eb0babb7f2d128bbb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:00 +0000
Subject: [PATCH 028/103] fix: internal status page does not escape the client
 headers

---
 src/onion/handlers/internal_status.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/internal_status.c b/src/onion/handlers/internal_status.c
index b7e2d33..f304e21 100644
--- a/src/onion/handlers/internal_status.c
+++ b/src/onion/handlers/internal_status.c
@@ -23,12 +23,18 @@
 
 #include <onion/onion.h>
 #include <onion/dict.h>
+#include <onion/codecs.h>
+#include <onion/low.h>
 #include <onion/types.h>
 #include <onion/types_internal.h>
 
 static void header_write(onion_response * res, const char *key,
                          const char *value, int flags) {
-  onion_response_printf(res, "<li><b>%s</b> = %s</li>", key, value);
+  const char *qkey = onion_html_quote_dup(key);
+  const char *qvalue = onion_html_quote_dup(value);
+  onion_response_printf(res, "<li><b>%s</b> = %s</li>", qkey, qvalue);
+  onion_low_free((char *)qkey);
+  onion_low_free((char *)qvalue);
 }
 
 // static void session_write(onion_response *res, const char *key, onion_dict *value, int flags){
-- 
2.43.0


From 94352d4556ba73f9dc58bb0995b72a63981446cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 029/103] fix: poller list is searched without the lock

---
 src/onion/poller.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 39d5678..d0f09e7 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -480,13 +480,15 @@ int onion_poller_remove(onion_poller * poller, int fd) {
  * This might be used for long polling, removing the default deleter.
  */
 onion_poller_slot *onion_poller_get(onion_poller * poller, int fd) {
+  pthread_mutex_lock(&poller->mutex);
   onion_poller_slot *next = poller->head;
   while (next) {
     if (next->fd == fd)
-      return next;
+      break;
     next = next->next;
   }
-  return NULL;
+  pthread_mutex_unlock(&poller->mutex);
+  return next;
 }
 
 // Max of events per loop. If not al consumed for next, so no prob.  right number uses less memory, and makes less calls.
-- 
2.43.0


From d34da45d743ccd5f4b3091363bb21b06705e94ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 030/103] fix: poller crashes removing a descriptor when there
 are none

---
 src/onion/poller.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index d0f09e7..d4f616f 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -450,7 +450,7 @@ int onion_poller_remove(onion_poller * poller, int fd) {
     onion_poller_slot_free(el);
     return 0;
   }
-  while (el->next) {
+  while (el && el->next) {
     if (el->next->fd == fd) {
       ONION_DEBUG0("Removed from tail %p", el);
       onion_poller_slot *t = el->next;
-- 
2.43.0


From 6e400ff14f06a86c07e30661f23de1d461b5f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 031/103] fix: poller creation crashes when there are no more
 descriptors

---
 src/onion/poller.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index d4f616f..4672793 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -344,12 +344,21 @@ onion_poller *onion_poller_new(int n) {
 
   onion_poller_static_init();
 
+  p->timerfd = -1;
   onion_poller_slot *ev =
       onion_poller_slot_new(p->eventfd, onion_poller_stop_helper, p);
+  if (!ev) {
+    onion_poller_free(p);
+    return NULL;
+  }
   onion_poller_add(p, ev);
 
   p->timerfd = timerfd_create(CLOCK_MONOTONIC, TFD_CLOEXEC | TFD_NONBLOCK);
   ev = onion_poller_slot_new(p->timerfd, &onion_poller_timer, p);
+  if (!ev) {
+    onion_poller_free(p);
+    return NULL;
+  }
   onion_poller_add(p, ev);
   onion_poller_timer(p);        // Force first timeout
 
-- 
2.43.0


From 726cd455e62444816f3fe0e560f8e68a63da5842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 032/103] fix: listen points that never listened close stdin
 when freed

---
 src/onion/listen_point.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index ebc5bb3..74849b5 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -63,6 +63,7 @@ static int onion_listen_point_read_ready(onion_request * req);
  */
 onion_listen_point *onion_listen_point_new() {
   onion_listen_point *ret = onion_low_calloc(1, sizeof(onion_listen_point));
+  ret->listenfd = -1;
   return ret;
 }
 
-- 
2.43.0


From 9562df1fc0950af802db4b536937c01fbafb3ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 033/103] fix: connections that do not fit in the poller are
 never closed

---
 src/onion/listen_point.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index 74849b5..0aac973 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -111,8 +111,10 @@ int onion_listen_point_accept(onion_listen_point * op) {
                                                       (void *)
                                                       onion_listen_point_read_ready,
                                                       req);
-      if (!slot)
+      if (!slot) {
+        onion_request_free(req);
         return 1;
+      }
       onion_poller_slot_set_timeout(slot,
                                     req->connection.listen_point->server->
                                     timeout);
-- 
2.43.0


From 8390a9d602dc4705f94ac57c929039d29fa1d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 034/103] fix: listen leaks the addresses and may return ok
 when there is no address to listen at

---
 src/onion/listen_point.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index 0aac973..b6129db 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -201,7 +201,7 @@ int onion_listen_point_listen(onion_listen_point * op) {
   if (getaddrinfo(op->hostname, op->port ? op->port : "8080", &hints, &result)
       != 0) {
     ONION_ERROR("Error getting local address and port: %s", strerror(errno));
-    return errno;
+    return errno ? errno : EADDRNOTAVAIL;
   }
 
   int optval = 1;
@@ -233,7 +233,9 @@ int onion_listen_point_listen(onion_listen_point * op) {
   }
   if (rp == NULL) {
     ONION_ERROR("Could not find any suitable address to bind to.");
-    return errno;
+    int e = errno ? errno : EADDRNOTAVAIL;
+    freeaddrinfo(result);
+    return e;
   }
 #ifdef __DEBUG__
   char address[64];
-- 
2.43.0


From a682b763267f3d2b1c2ba7d5dbc7b13b0f0f3b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 035/103] fix: HTTPS listen points close an invalid descriptor
 when not listening

---
 src/onion/https.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index e1c9e71..15e0654 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -167,9 +167,11 @@ onion_listen_point *onion_https_new() {
  */
 static void onion_https_listen_stop(onion_listen_point * op) {
   ONION_DEBUG("Close HTTPS %s:%s", op->hostname, op->port);
-  shutdown(op->listenfd, SHUT_RDWR);
-  close(op->listenfd);
-  op->listenfd = -1;
+  if (op->listenfd >= 0) {
+    shutdown(op->listenfd, SHUT_RDWR);
+    close(op->listenfd);
+    op->listenfd = -1;
+  }
 }
 
 /**
-- 
2.43.0


From 8dccb55aa1c956cdc5084f32d167f963c3b5a7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 036/103] fix: HTTPS does the handshake even when there is no
 connection

---
 src/onion/https.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 15e0654..88a8029 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -204,7 +204,8 @@ static void onion_https_free_user_data(onion_listen_point * op) {
  * @returns <0 in case of error.
  */
 static int onion_https_request_init(onion_request * req) {
-  onion_listen_point_request_init_from_socket(req);
+  if (onion_listen_point_request_init_from_socket(req) < 0)
+    return -1;
   onion_https *https = (onion_https *) req->connection.listen_point->user_data;
 
   ONION_DEBUG("Accept new request, fd %d", req->connection.fd);
-- 
2.43.0


From bca193113fae033ef6f8d141347875111d39a9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 037/103] fix: listen crashes when only some of the listen
 points could listen

---
 src/onion/onion.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 279fd18..cc5719c 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -502,8 +502,10 @@ int onion_listen(onion * o) {
       onion_poller_slot *slot =
           onion_poller_slot_new(p->listenfd, (void *)onion_listen_point_accept,
                                 p);
-      onion_poller_slot_set_type(slot, O_POLL_ALL);
-      onion_poller_add(o->poller, slot);
+      if (slot) {               // It may be that this one could not listen
+        onion_poller_slot_set_type(slot, O_POLL_ALL);
+        onion_poller_add(o->poller, slot);
+      }
       listen_points++;
     }
 
-- 
2.43.0


From cdb5c884607305fb9648f9108cec4a6fa2e457de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 038/103] fix: get_listen_point reads after the end of the list

---
 src/onion/onion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index cc5719c..34e0466 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -672,7 +672,7 @@ int onion_add_listen_point(onion * server, const char *hostname,
  */
 onion_listen_point *onion_get_listen_point(onion * server, int nlisten_point) {
   onion_listen_point **next = server->listen_points;
-  while (next) {                // I have to go one by one, as NULL is the stop marker.
+  while (next && *next) {       // I have to go one by one, as NULL is the stop marker.
     if (nlisten_point == 0)
       return *next;
     nlisten_point--;
-- 
2.43.0


From c16df18610f1af6471892836fbbb20cf4a872f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 039/103] fix: set_certificate crashes when can not promote to
 HTTPS

---
 src/onion/onion.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 34e0466..93cc5a5 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -857,13 +857,16 @@ int onion_set_certificate_va(onion * onion, onion_ssl_certificate_type type,
           ? onion_low_strdup(first_listen_point->port) : NULL;
       char *hostname = first_listen_point->hostname
           ? onion_low_strdup(first_listen_point->hostname) : NULL;
-      onion_listen_point_free(first_listen_point);
       onion_listen_point *https = onion_https_new();
-      https->server = onion;
       if (NULL == https) {
         ONION_ERROR
             ("Could not promote from HTTP to HTTPS. Certificate not set.");
+        onion_low_free(port);
+        onion_low_free(hostname);
+        return -1;
       }
+      onion_listen_point_free(first_listen_point);
+      https->server = onion;
       https->port = port;
       https->hostname = hostname;
       onion->listen_points[0] = https;
-- 
2.43.0


From 15f907ad6ec2b9e798c1f4445c87337e789d2dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 040/103] fix: listen_stop deadlocks with handlers that use the
 server client data

---
 src/onion/onion.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 93cc5a5..d14561c 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -542,7 +542,13 @@ int onion_listen(onion * o) {
     }
   }
 
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&o->mutex);
+  o->flags = o->flags & ~O_LISTENING;
+  pthread_mutex_unlock(&o->mutex);
+#else
   o->flags = o->flags & ~O_LISTENING;
+#endif
   shutdown_server_first_call = true;    // Mark as listen_stop/shutdown worked.
   return 0;
 }
@@ -580,9 +586,12 @@ void onion_listen_stop(onion * server) {
     onion_poller_stop(server->poller);
   }
 #ifdef HAVE_PTHREADS
-  if (server->flags & O_DETACHED)
-    onion_low_pthread_join(server->listen_thread, NULL);
+  // Do not wait with the mutex held, as the listen thread may need it to finish.
+  int detached = server->flags & O_DETACHED;
+  server->flags = server->flags & ~O_DETACHED;
   pthread_mutex_unlock (&server->mutex);
+  if (detached)
+    onion_low_pthread_join(server->listen_thread, NULL);
 #endif	/* end HAVE_PTHREADS */
 }
 
-- 
2.43.0


From ffaa55ca801a63fe36a0489abd2e0ea4bd8eb031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:44 +0000
Subject: [PATCH 041/103] fix: parser overflows the token when the data comes
 in small pieces

---
 src/onion/request_parser.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index e6aa933..2451510 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -104,9 +104,6 @@ int token_read_STRING(onion_token * token, onion_buffer * data) {
 
   char c = data->data[data->pos++];
   while (!is_space(c)) {
-    token->str[token->pos++] = c;
-    if (data->pos >= data->size)
-      return OCS_NEED_MORE_DATA;
     if (token->pos >= (sizeof(token->str) - 1)) {
       char tmp[16];
       strncpy(tmp, token->str, 16);
@@ -116,6 +113,9 @@ int token_read_STRING(onion_token * token, onion_buffer * data) {
            token->pos);
       return OCS_INTERNAL_ERROR;
     }
+    token->str[token->pos++] = c;
+    if (data->pos >= data->size)
+      return OCS_NEED_MORE_DATA;
     c = data->data[data->pos++];
   }
   int ret;
@@ -146,16 +146,17 @@ int token_read_until(onion_token * token, onion_buffer * data, char delimiter) {
 
   char c = data->data[data->pos++];
   while (c != delimiter && c != '\n') {
-    if (c != '\r')              // Just ignore it here
-      token->str[token->pos++] = c;
-    if (data->pos >= data->size) {
-      return OCS_NEED_MORE_DATA;
-    }
     if (token->pos >= (sizeof(token->str) - 1)) {
+      token->str[sizeof(token->str) - 1] = '\0';
       ONION_ERROR("Token too long to parse it. Part read is %s (%d bytes)",
                   token->str, token->pos);
       return OCS_INTERNAL_ERROR;
     }
+    if (c != '\r')              // Just ignore it here
+      token->str[token->pos++] = c;
+    if (data->pos >= data->size) {
+      return OCS_NEED_MORE_DATA;
+    }
     c = data->data[data->pos++];
   }
   int ret = STRING;
-- 
2.43.0


From 5c86ba59ac4ddfb6c42f074c0dd038f7473f87e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:44 +0000
Subject: [PATCH 042/103] fix: parser writes before the token on empty header
 values

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 2451510..fe0a03d 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -213,7 +213,7 @@ int token_read_LINE(onion_token * token, onion_buffer * data) {
 
     c = data->data[data->pos++];
   }
-  if (token->str[token->pos - 1] == '\r')
+  if (token->pos > 0 && token->str[token->pos - 1] == '\r')
     token->str[token->pos - 1] = '\0';
   else
     token->str[token->pos] = '\0';
-- 
2.43.0


From e20114703ee514838ef3c39dbb70bde51e809b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:44 +0000
Subject: [PATCH 043/103] fix: parser overflows the token on multiline headers

---
 src/onion/request_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index fe0a03d..d4d47c3 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -735,6 +735,10 @@ parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
       onion_token *token = req->parser_data;
       if (peek == '\n')
         return OCS_NEED_MORE_DATA;
+      if (token->pos >= (sizeof(token->str) - 2)) {
+        ONION_ERROR("Multiline header too long to parse it.");
+        return OCS_INTERNAL_ERROR;
+      }
       token->str[token->pos++] = ' ';
       token->str[token->pos++] = peek;
       req->parser = parse_headers_VALUE;
-- 
2.43.0


From 91c0c1c61655a41ff56418e7933e570714bd9523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:44 +0000
Subject: [PATCH 044/103] fix: multipart parser allocates less memory than it
 uses

---
 src/onion/request_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index d4d47c3..24a3559 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -1066,7 +1066,7 @@ static onion_connection_status prepare_POST(onion_request * req) {
   token->extra_size = cl;       // Max size of the multipart->data
   onion_multipart_buffer *multipart =
       onion_low_malloc(token->extra_size + sizeof(onion_multipart_buffer) +
-                       mp_token_size + 2);
+                       mp_token_size + 7);      // boundary extras, and ending 0s
   assert(token->extra == NULL);
   token->extra = (char *)multipart;
 
@@ -1081,7 +1081,7 @@ static onion_connection_status prepare_POST(onion_request * req) {
   multipart->boundary[3] = '-';
   strcpy(&multipart->boundary[4], mp_token);
   multipart->data =
-      (char *)multipart + sizeof(onion_multipart_buffer) + multipart->size + 1;
+      (char *)multipart + sizeof(onion_multipart_buffer) + multipart->size + 2;
 
   //ONION_DEBUG("Multipart POST boundary '%s'",multipart->boundary);
 
-- 
2.43.0


From 28d618002f8adcdfbf8c5105718ecac94adb80a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:38 +0000
Subject: [PATCH 045/103] fix: double free when an urlencoded POST is aborted

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 24a3559..63cf7a1 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -715,6 +715,7 @@ static onion_connection_status parse_POST_urlencode(onion_request * req,
     return res;
 
   req->POST = onion_dict_new();
+  req->free_list = onion_ptr_list_add(req->free_list, token->extra);    // Free when the request is freed.
   onion_request_parse_query_to_dict(req->POST, token->extra);
   token->extra = NULL;          // At query to dict, it keeps the pointer and free it when POST is freed.
 
@@ -1046,7 +1047,6 @@ static onion_connection_status prepare_POST(onion_request * req) {
     assert(token->extra == NULL);
     token->extra = onion_low_scalar_malloc(cl + 1);     // Cl + \0
     token->extra_size = cl;
-    req->free_list = onion_ptr_list_add(req->free_list, token->extra);  // Free when the request is freed.
 
     req->parser = parse_POST_urlencode;
     return OCS_NEED_MORE_DATA;
-- 
2.43.0


From 0efac4f0c0f05b0c794c15140c074262cb2a4893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:38 +0000
Subject: [PATCH 046/103] fix: multipart names may overflow the POST buffer

---
 src/onion/request_parser.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 63cf7a1..503ff68 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -570,37 +570,39 @@ static onion_connection_status parse_POST_multipart_content_type(onion_request *
   const char *name;
   name = strstr(token->str, "filename=");
   if (name) {
-    int l = strlen(token->str) - 9;
-    if (l > multipart->post_total_size) {
+    int l = strlen(name + 9);
+    if (l >= multipart->post_total_size) {
       ONION_ERROR("Post buffer exhausted. content-Length wrong passed.");
       return OCS_INTERNAL_ERROR;
     }
     multipart->filename = multipart->data;
     memcpy(multipart->filename, name + 9, l);
     multipart->filename[l] = 0;
+    multipart->post_total_size -= l + 1;
     multipart->data = multipart->data + l + 1;
-    if (*multipart->filename == '"' && multipart->filename[l - 2] == '"') {
-      multipart->filename[l - 2] = '\0';
+    if (l > 1 && *multipart->filename == '"'
+        && multipart->filename[l - 1] == '"') {
+      multipart->filename[l - 1] = '\0';
       multipart->filename++;
     }
     ONION_DEBUG0("Set filename '%s'", multipart->filename);
   } else {
     name = strstr(token->str, "name=");
     if (name) {
-      int l = strlen(token->str) - 5;
-      if (l > multipart->post_total_size) {
+      int l = strlen(name + 5);
+      if (l >= multipart->post_total_size) {
         ONION_ERROR("Post buffer exhausted. Content-Length had wrong size.");
         return OCS_INTERNAL_ERROR;
       }
       multipart->name = multipart->data;
       memcpy(multipart->name, name + 5, l);
       multipart->name[l] = 0;
-      if (*multipart->name == '"' && multipart->name[l - 2] == '"') {
-        l -= 2;
-        multipart->name[l] = '\0';
+      multipart->post_total_size -= l + 1;
+      multipart->data = multipart->data + l + 1;
+      if (l > 1 && *multipart->name == '"' && multipart->name[l - 1] == '"') {
+        multipart->name[l - 1] = '\0';
         multipart->name++;
       }
-      multipart->data = multipart->name + l + 1;
       ONION_DEBUG0("Set field name '%s'", multipart->name);
     }
   }
-- 
2.43.0


From 7782d63b36871a9c2a4afbb72accd7723bf260ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:38 +0000
Subject: [PATCH 047/103] fix: multipart data that looks like a boundary is
 read from after the input

---
 src/onion/request_parser.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 503ff68..76aa132 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -500,8 +500,12 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
   char *d = &multipart->data[token->pos];
 
   for (; data->pos < data->size; data->pos++) {
-    if (multipart->pos == 0 && *p == '\n')      // \r is optional.
-      multipart->pos = 1;
+    if (multipart->pos == 0) {
+      if (*p == '\n')           // \r is optional.
+        multipart->startpos = multipart->pos = 1;
+      else
+        multipart->startpos = 0;
+    }
     if (*p == multipart->boundary[multipart->pos]) {    // Check boundary
       multipart->pos++;
       if (multipart->pos == multipart->size) {
@@ -514,6 +518,11 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
         if (token->pos > 0 && *(d - 1) == '\r')
           d--;
 
+        if (multipart->post_total_size <= 0) {
+          ONION_ERROR("No space left for this post.");
+          return OCS_INTERNAL_ERROR;
+        }
+        multipart->post_total_size--;
         *d = '\0';
         ONION_DEBUG0("Adding POST data '%s'", multipart->name);
         onion_dict_add(req->POST, multipart->name, multipart->data, 0);
@@ -524,17 +533,20 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
       }
     } else {                    // No boundary
       if (multipart->pos != 0) {        // Maybe i was checking before... so I need to copy as much as I wrongly thought I got.
-        if (multipart->post_total_size <= multipart->pos) {
+        int r = multipart->pos - multipart->startpos;
+        if (multipart->post_total_size <= r) {
           ONION_ERROR("No space left for this post.");
           return OCS_INTERNAL_ERROR;
         }
-        multipart->post_total_size -= multipart->pos;
-        memcpy(d, p, multipart->pos);
-        d += multipart->pos;
-        token->pos += multipart->pos;
-        multipart->pos = 0;
+        multipart->post_total_size -= r;
+        memcpy(d, multipart->boundary + multipart->startpos, r);
+        d += r;
+        token->pos += r;
+        multipart->startpos = multipart->pos = 0;
+        data->pos--;            // Ignore read charater, try again. May be start of boundary.
+        continue;
       }
-      if (multipart->post_total_size <= 0) {
+      if (multipart->post_total_size <= 1) {    // Keep space for the ending 0
         ONION_ERROR("No space left for this post.");
         return OCS_INTERNAL_ERROR;
       }
-- 
2.43.0


From e8f36c9c306f7720c1bd7528a468fee1c87a6d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:38 +0000
Subject: [PATCH 048/103] fix: aborted uploads leak the temporal file
 descriptor

---
 src/onion/request_parser.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 76aa132..6f380c6 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -61,6 +61,8 @@ typedef struct onion_token_s {
 
   char *extra;                  // Only used when need some previous data, like at header value, i need the key
   size_t extra_size;
+
+  int fd;                       // Temporal file being written, -1 if none
 } onion_token;
 
 /// @private
@@ -365,11 +367,7 @@ static onion_connection_status parse_PUT(onion_request * req,
 
   int *fd = (int *)token->extra;
   ssize_t w = write(*fd, &data->data[data->pos], length);
-  if (w < 0) {
-    // cleanup
-    close(*fd);
-    onion_low_free(token->extra);
-    token->extra = NULL;
+  if (w != length) {
     ONION_ERROR("Could not write all data to temporal file.");
     return OCS_INTERNAL_ERROR;
   }
@@ -383,6 +381,7 @@ static onion_connection_status parse_PUT(onion_request * req,
 
   if (exit) {
     close(*fd);
+    token->fd = -1;
     onion_low_free(token->extra);
     token->extra = NULL;
     return OCS_REQUEST_READY;
@@ -422,11 +421,11 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
 
         close(multipart->fd);
+        token->fd = -1;
         req->parser = parse_POST_multipart_next;
         return OCS_NEED_MORE_DATA;
       }
@@ -444,7 +443,6 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
         tmppos = 0;
@@ -453,7 +451,6 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         if (w != r) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
         multipart->startpos = multipart->pos = 0;
@@ -467,7 +464,6 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
         tmppos = 0;
@@ -480,7 +476,6 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
   if (w != tmppos) {
     ONION_ERROR
         ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-    close(multipart->fd);
     return OCS_INTERNAL_ERROR;
   }
   return OCS_NEED_MORE_DATA;
@@ -661,8 +656,11 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
     if (multipart->filename) {
       char filename[] = "/tmp/onion-XXXXXX";
       multipart->fd = mkstemp(filename);
-      if (multipart->fd < 0)
+      if (multipart->fd < 0) {
         ONION_ERROR("Could not create temporal file at %s.", filename);
+        return OCS_INTERNAL_ERROR;
+      }
+      token->fd = multipart->fd;
       if (!req->FILES)
         req->FILES = onion_dict_new();
       onion_dict_add(req->POST, multipart->name, multipart->filename, 0);
@@ -932,7 +930,9 @@ static onion_connection_status parse_headers_GET(onion_request * req,
 onion_connection_status onion_request_write(onion_request * req,
                                             const char *data, size_t size) {
   if (!req->parser_data) {
-    req->parser_data = onion_low_calloc(1, sizeof(onion_token));
+    onion_token *token = onion_low_calloc(1, sizeof(onion_token));
+    token->fd = -1;
+    req->parser_data = token;
     req->parser = parse_headers_GET;
   }
 
@@ -1156,8 +1156,10 @@ static onion_connection_status prepare_PUT(onion_request * req) {
 
   char filename[] = "/tmp/onion-XXXXXX";
   int fd = mkstemp(filename);
-  if (fd < 0)
+  if (fd < 0) {
     ONION_ERROR("Could not create temporary file at %s.", filename);
+    return OCS_INTERNAL_ERROR;
+  }
 
   onion_block_add_str(req->data, filename);
   ONION_DEBUG0("Creating PUT file %s (%d bytes long)", filename,
@@ -1179,6 +1181,7 @@ static onion_connection_status prepare_PUT(onion_request * req) {
 
   int *pfd = onion_low_scalar_malloc(sizeof(fd));
   *pfd = fd;
+  token->fd = fd;
 
   assert(token->extra == NULL);
   token->extra = (char *)pfd;
@@ -1199,5 +1202,7 @@ void onion_request_parser_data_free(void *t) {
     onion_low_free(token->extra);
     token->extra = NULL;
   }
+  if (token->fd >= 0)           // Request aborted while receiving a file
+    close(token->fd);
   onion_low_free(token);
 }
-- 
2.43.0


From 67a4e4d8052464a4a6ee7dc408845aeaf4a8349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:38 +0000
Subject: [PATCH 049/103] fix: multipart files without name are never removed

---
 src/onion/request_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 6f380c6..06b8b3d 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -654,6 +654,10 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
     multipart->pos = 0;
 
     if (multipart->filename) {
+      if (!multipart->name) {
+        ONION_ERROR("Multipart file without field name.");
+        return OCS_INTERNAL_ERROR;
+      }
       char filename[] = "/tmp/onion-XXXXXX";
       multipart->fd = mkstemp(filename);
       if (multipart->fd < 0) {
-- 
2.43.0


From fc246003ed16b6e458baeb7dd34c7628204a2a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:38 +0000
Subject: [PATCH 050/103] fix: requests without HTTP version have no query
 dictionary

---
 src/onion/request_parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 06b8b3d..00f30d3 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -888,6 +888,8 @@ static onion_connection_status parse_headers_URL(onion_request * req,
   ONION_DEBUG0("URL path is %s", req->fullpath);
 
   if (res == STRING_NEW_LINE) { // Old HTTP/0? or lazy user, dont set the HTTP version, straigth new line.
+    if (!req->GET)
+      req->GET = onion_dict_new();
     req->parser = parse_headers_KEY;
     return parse_headers_KEY(req, data);
   } else {
-- 
2.43.0


From b76159b84fc0e5d73bb0b6bc2ab2cfeb3c508e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:27 +0000
Subject: [PATCH 051/103] fix: forbidden requests get no answer

---
 src/onion/request.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 00e0af3..a49cbac 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -580,7 +580,8 @@ onion_connection_status onion_request_process(onion_request * req) {
                            req, res);
 
   if (hs == OCS_INTERNAL_ERROR ||
-      hs == OCS_NOT_IMPLEMENTED || hs == OCS_NOT_PROCESSED) {
+      hs == OCS_NOT_IMPLEMENTED || hs == OCS_NOT_PROCESSED ||
+      hs == OCS_FORBIDDEN) {
     if (hs == OCS_INTERNAL_ERROR)
       req->flags |= OR_INTERNAL_ERROR;
     if (hs == OCS_NOT_IMPLEMENTED)
-- 
2.43.0


From 2a8a6269a4e952285ae97e1143f89c0b01d2f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:27 +0000
Subject: [PATCH 052/103] fix: yield crashes when the connection is not at the
 poller

---
 src/onion/request.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index a49cbac..4c7adbd 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -600,7 +600,8 @@ onion_connection_status onion_request_process(onion_request * req) {
     onion_poller *poller =
         onion_get_poller(req->connection.listen_point->server);
     onion_poller_slot *slot = onion_poller_get(poller, req->connection.fd);
-    onion_poller_slot_set_shutdown(slot, NULL, NULL);
+    if (slot)
+      onion_poller_slot_set_shutdown(slot, NULL, NULL);
 
     return hs;
   }
-- 
2.43.0


From db321dccaac0e24d0e8e32bfeba8e12dd4942af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:27 +0000
Subject: [PATCH 053/103] fix: requests are created even when there is no
 connection

---
 src/onion/request.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 4c7adbd..1d5c875 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -79,14 +79,16 @@ onion_request *onion_request_new(onion_listen_point * op) {
   ONION_DEBUG0("Create request %p", req);
 
   if (op) {
-    if (op->request_init) {
-      if (op->request_init(req) < 0) {
-        ONION_DEBUG("Invalid request, closing");
-        onion_request_free(req);
-        return NULL;
-      }
-    } else
-      onion_listen_point_request_init_from_socket(req);
+    int ok;
+    if (op->request_init)
+      ok = op->request_init(req);
+    else
+      ok = onion_listen_point_request_init_from_socket(req);
+    if (ok < 0) {
+      ONION_DEBUG("Invalid request, closing");
+      onion_request_free(req);
+      return NULL;
+    }
   }
   return req;
 }
@@ -97,6 +99,8 @@ onion_request *onion_request_new_from_socket(onion_listen_point * con, int fd,
                                              struct sockaddr_storage * cli_addr,
                                              socklen_t cli_len) {
   onion_request *req = onion_request_new(con);
+  if (!req)
+    return NULL;
   req->connection.fd = fd;
   memcpy(&req->connection.cli_addr, cli_addr, cli_len);
   req->connection.cli_len = cli_len;
-- 
2.43.0


From 124eff11d5577b6616cc034a1bbb41e1120d8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:27 +0000
Subject: [PATCH 054/103] fix: cookie headers with no cookies are leaked

---
 src/onion/request.c | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 1d5c875..8bf9b82 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -692,11 +692,11 @@ onion_dict *onion_request_get_cookies_dict(onion_request * req) {
   if (!ccookies)
     return req->cookies;
   char *cookies = onion_low_strdup(ccookies);   // I prepare a temporary string, will modify it.
+  req->free_list = onion_ptr_list_add(req->free_list, cookies); // All keys and values point here, free with the request.
   char *val = NULL;
   char *key = NULL;
   char *p = cookies;
 
-  int first = 1;
   while (*p) {
     if (*p != ' ' && !key && !val) {
       key = p;
@@ -705,25 +705,16 @@ onion_dict *onion_request_get_cookies_dict(onion_request * req) {
       val = p + 1;
     } else if (*p == ';' && key && val) {
       *p = 0;
-      if (first) {
-        // The first cookie is special as it is the pointer to the reserved area for all the keys and values
-        // for all th eother cookies, to free at dict free.
-        onion_dict_add(req->cookies, cookies, val, OD_FREE_KEY);
-        first = 0;
-      } else
-        onion_dict_add(req->cookies, key, val, 0);      /// Can use as static data as will be freed at first cookie free
-      ONION_DEBUG0("Add cookie <%s>=<%s> %d", key, val, first);
+      onion_dict_add(req->cookies, key, val, 0);        /// Can use as static data as will be freed at free_list
+      ONION_DEBUG0("Add cookie <%s>=<%s>", key, val);
       val = NULL;
       key = NULL;
     }
     p++;
   }
   if (key && val && val < p) {  // A final element, with value.
-    if (first)
-      onion_dict_add(req->cookies, cookies, val, OD_FREE_KEY);
-    else
-      onion_dict_add(req->cookies, key, val, 0);
-    ONION_DEBUG0("Add cookie <%s>=<%s> %d", key, val, first);
+    onion_dict_add(req->cookies, key, val, 0);
+    ONION_DEBUG0("Add cookie <%s>=<%s>", key, val);
   }
 
   return req->cookies;
-- 
2.43.0


From dc91696ec9f6d83da2bca0e3b9b72e02be03230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:27 +0000
Subject: [PATCH 055/103] fix: session id leaked when the session could not be
 loaded

---
 src/onion/request.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 8bf9b82..7214237 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -148,7 +148,8 @@ void onion_request_free(onion_request * req) {
       onion_dict_free(req->session);    // Not really remove, just dereference
       onion_low_free(req->session_id);
     }
-  }
+  } else if (req->session_id)
+    onion_low_free(req->session_id);
   if (req->data)
     onion_block_free(req->data);
   if (req->connection.cli_info)
-- 
2.43.0


From a597c1c816b156799a8d7552d854cad1a7542010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:27 +0000
Subject: [PATCH 056/103] fix: connections are inherited by children when
 accept4 is not available

---
 src/onion/listen_point.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index b6129db..fbba79f 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -298,6 +298,7 @@ int onion_listen_point_request_init_from_socket(onion_request * req) {
     if (errno == ENOSYS) {
       clientfd = accept(listenfd, (struct sockaddr *)&req->connection.cli_addr,
                         &req->connection.cli_len);
+      set_cloexec = 1;
     }
     ONION_DEBUG("How was it? errno %d, clientfd %d", errno, clientfd);
     if (clientfd < 0) {
-- 
2.43.0


From 7cf2f084ca6f48bad8bce322c61f092cdc1cf762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:01 +0000
Subject: [PATCH 057/103] fix: set_length overflows the buffer on big lengths

---
 src/onion/response.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 20cc39a..112bc69 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -224,8 +224,8 @@ void onion_response_set_length(onion_response * res, size_t len) {
         ("Trying to set length after headers sent. Undefined onion behaviour.");
     return;
   }
-  char tmp[16];
-  sprintf(tmp, "%lu", (unsigned long)len);
+  char tmp[24];
+  snprintf(tmp, sizeof(tmp), "%lu", (unsigned long)len);
   onion_response_set_header(res, "Content-Length", tmp);
   res->length = len;
   res->flags |= OR_LENGTH_SET;
-- 
2.43.0


From 731aed9552156dde4f569b064aa3ab1cc10c2a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:01 +0000
Subject: [PATCH 058/103] fix: headers can be sent twice, or after the content

---
 src/onion/response.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/onion/response.c b/src/onion/response.c
index 112bc69..73f2caf 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -281,6 +281,12 @@ int onion_response_write_headers(onion_response * res) {
         ("Bad formed response. Need a request at creation. Will not write headers.");
     return -1;
   }
+  if (res->flags & OR_HEADER_SENT)      // Only once
+    return res->flags & OR_SKIP_CONTENT;
+  if (res->buffer_pos > 0) {    // There is content already waiting. Flush sends first the headers.
+    onion_response_flush(res);
+    return res->flags & OR_SKIP_CONTENT;
+  }
 
   res->flags |= OR_HEADER_SENT; // I Set at the begining so I can do normal writing.
   res->request->flags |= OR_HEADER_SENT;
-- 
2.43.0


From a212c0f7fb32a0e407d5cd22b255cd64319153df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:01 +0000
Subject: [PATCH 059/103] fix: cookies overflow the buffer, and use a non
 reentrant function

---
 src/onion/response.c | 49 +++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 73f2caf..4740188 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -606,6 +606,18 @@ onion_dict *onion_response_get_headers(onion_response * res) {
   return res->headers;
 }
 
+/**
+ * @short Appends a couple of strings to the cookie, if they fit.
+ *
+ * @returns The new position, or size (or more) if it did not fit.
+ */
+static int cookie_append(char *data, size_t size, int pos, const char *a,
+                         const char *b) {
+  if (pos < 0 || pos >= size)
+    return size;
+  return pos + snprintf(data + pos, size - pos, "%s%s", a, b);
+}
+
 /**
  * @short Sets a new cookie into the response.
  * @ingroup response
@@ -631,37 +643,42 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
                                int flags) {
   char data[4096];
   int pos;
-  pos = snprintf(data, sizeof(data), "%s=%s", cookiename, cookievalue);
+  pos = cookie_append(data, sizeof(data), 0, cookiename, "=");
+  pos = cookie_append(data, sizeof(data), pos, cookievalue, "");
   if (validity_t == 0)
-    pos +=
-        snprintf(data + pos, sizeof(data) - pos,
-                 "; expires=Thu, 01 Jan 1970 00:00:00 GMT");
+    pos =
+        cookie_append(data, sizeof(data), pos, "; expires=",
+                      "Thu, 01 Jan 1970 00:00:00 GMT");
   else if (validity_t > 0) {
-    struct tm *tmp;
+    struct tm tmp;
+    char expires[64];
     time_t t = time(NULL) + validity_t;
-    tmp = localtime(&t);
-    pos +=
-        strftime(data + pos, sizeof(data) - pos,
-                 "; expires=%a, %d %b %Y %H:%M:%S %Z", tmp);
+    if (!localtime_r(&t, &tmp)
+        || strftime(expires, sizeof(expires), "%a, %d %b %Y %H:%M:%S %Z",
+                    &tmp) == 0) {
+      ONION_WARNING("Invalid cookie validity. Not added to response.");
+      return false;
+    }
+    pos = cookie_append(data, sizeof(data), pos, "; expires=", expires);
   }
   if (path)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; path=%s", path);
+    pos = cookie_append(data, sizeof(data), pos, "; path=", path);
   if (domain)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; domain=%s", domain);
+    pos = cookie_append(data, sizeof(data), pos, "; domain=", domain);
   if (flags & OC_HTTP_ONLY)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; HttpOnly");
+    pos = cookie_append(data, sizeof(data), pos, "; HttpOnly", "");
   if (flags & OC_SECURE)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; Secure");
+    pos = cookie_append(data, sizeof(data), pos, "; Secure", "");
 
   switch (flags & (OC_SAMESITE_NONE | OC_SAMESITE_LAX | OC_SAMESITE_STRICT)) {
   case OC_SAMESITE_NONE:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=None");
+    pos = cookie_append(data, sizeof(data), pos, "; SameSite=", "None");
     break;
   case OC_SAMESITE_LAX:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=Lax");
+    pos = cookie_append(data, sizeof(data), pos, "; SameSite=", "Lax");
     break;
   case OC_SAMESITE_STRICT:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=Strict");
+    pos = cookie_append(data, sizeof(data), pos, "; SameSite=", "Strict");
     break;
   default:
     break;
-- 
2.43.0


From 8224cd7bb9517df4ffe75bbc5683bda499db8db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:01 +0000
Subject: [PATCH 060/103] fix: range responses announce more data than the file
 has

---
 src/onion/shortcuts.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 860a2be..b9ecd6a 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -226,7 +226,9 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
       else
         ends = length - 1;
       starts = atol(start);
-      if (starts > ends || starts > length) {
+      if (ends >= length)
+        ends = length - 1;
+      if (starts > ends || starts >= length) {
         ONION_DEBUG0("Range not satisfiable");
         snprintf(tmp, sizeof(tmp), "bytes */%d", (unsigned int)length);
         onion_response_set_header(res, "Content-Range", tmp);
-- 
2.43.0


From 7fb827aab694eefdd6eb38bccd4d8ed314177484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:01 +0000
Subject: [PATCH 061/103] fix: etag overflows the buffer on long ranges

---
 src/onion/shortcuts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index b9ecd6a..efad928 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -198,7 +198,7 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
 
   const char *range = onion_request_get_header(request, "Range");
   if (range) {
-    strncat(etag, range, sizeof(etag) - 1);
+    strncat(etag, range, sizeof(etag) - strlen(etag) - 1);
   }
   onion_response_set_header(res, "Etag", etag);
 
-- 
2.43.0


From 6afead89cba01c67fc9745f3de9a27bfc5b12029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:01 +0000
Subject: [PATCH 062/103] fix: sending a file loops forever or crashes when it
 can not be read

---
 src/onion/shortcuts.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index efad928..431ab0f 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -290,9 +290,9 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
         size_t max = length - sizeof(tmp);
         while (tr < max) {
           r = read(fd, tmp, sizeof(tmp));
-          tr += r;
-          if (r < 0)
+          if (r <= 0)
             break;
+          tr += r;
           w = onion_response_write(res, tmp, r);
           if (w != r) {
             ONION_ERROR
@@ -304,6 +304,8 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
       }
       if (sizeof(tmp) >= (length - tr)) {
         r = read(fd, tmp, length - tr);
+        if (r < 0)
+          r = 0;
         w = onion_response_write(res, tmp, r);
         if (w != r) {
           ONION_ERROR
-- 
2.43.0


From c9a49b5ba1426091a09eedc60ad594e0ea70c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:01 +0000
Subject: [PATCH 063/103] fix: files are not sent for methods other than GET

---
 src/onion/shortcuts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 431ab0f..4632f8c 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -261,7 +261,7 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     return OCS_PROCESSED;
   }
   onion_response_write_headers(res);
-  if ((onion_request_get_flags(request) & OR_HEAD) == OR_HEAD) {        // Just head.
+  if ((onion_request_get_flags(request) & OR_METHODS) == OR_HEAD) {        // Just head.
     length = 0;
   }
 
-- 
2.43.0


From d5a9333670d559e058b0ec56628d445aab3b52a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:01 +0000
Subject: [PATCH 064/103] fix: date strings may be longer than the buffer

---
 src/onion/shortcuts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 4632f8c..d59d856 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -352,7 +352,7 @@ onion_connection_status onion_shortcut_response_json(onion_dict * d,
 void onion_shortcut_date_string(time_t t, char *dest) {
   struct tm ts;
   gmtime_r(&t, &ts);
-  strftime(dest, t, "%a, %d %b %Y %T %Z", &ts);
+  strftime(dest, 32, "%a, %d %b %Y %T %Z", &ts);
 }
 
 /**
@@ -364,7 +364,7 @@ void onion_shortcut_date_string(time_t t, char *dest) {
 void onion_shortcut_date_string_iso(time_t t, char *dest) {
   struct tm ts;
   gmtime_r(&t, &ts);
-  strftime(dest, t, "%FT%TZ", &ts);
+  strftime(dest, 21, "%FT%TZ", &ts);
 }
 
 /**
-- 
2.43.0


From 6ff0ef4878266e9f5da926b8f5f58af4ba70bdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:01 +0000
Subject: [PATCH 065/103] fix: rename removes the original file even if it
 could not be copied

---
 src/onion/shortcuts.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index d59d856..2a3a1a3 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -407,18 +407,23 @@ int onion_shortcut_rename(const char *orig, const char *dest) {
       char tmp[4096];
       int r;
       while ((r = read(fd_orig, tmp, sizeof(tmp))) > 0) {
-        r = write(fd_dest, tmp, r);
-        if (r < 0) {
+        int w = write(fd_dest, tmp, r);
+        if (w != r) {
           ONION_ERROR("Error writing to destination file (%s)",
                       strerror(errno));
           ok = 1;
           break;
         }
       }
+      if (r < 0) {
+        ONION_ERROR("Error reading origin file (%s)", strerror(errno));
+        ok = 1;
+      }
     }
     if (fd_orig >= 0) {
       close(fd_orig);
-      unlink(orig);
+      if (ok == 0)
+        unlink(orig);
     }
     if (fd_dest >= 0)
       close(fd_dest);
-- 
2.43.0


From 389a3878a4e7318a93a9c330ae7b19e3af9b88b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:43 +0000
Subject: [PATCH 066/103] fix: websocket frames of more than 64k have a wrong
 length

---
 src/onion/websocket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index cf49bef..edac86b 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -202,9 +202,9 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     } else {
       header[1] |= 127;
       int i;
-      int tlen = len;
+      ssize_t tlen = len;
       for (i = 0; i < 8; i++) {
-        header[3 + 8 - i] = tlen & 0x0FF;
+        header[2 + 7 - i] = tlen & 0x0FF;
         tlen >>= 8;
       }
       hlen += 8;
-- 
2.43.0


From a06ab9988ab86c491c28e2c5ab3cb896d18be167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:43 +0000
Subject: [PATCH 067/103] fix: websocket writes multiple of 1024 lose the last
 block

---
 src/onion/websocket.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index edac86b..7aecbfb 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -230,12 +230,12 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     }
     ret += (*lpwriter) (ws->req, tout, sizeof(tout));
   }
-  for (; i < len; i++) {
+  for (j = 0; i < len; i++) {
     //ONION_DEBUG("At %d, %02X ^ %02X = %02X", i&1023, buffer[i]&0x0FF, mask[i&3]&0x0FF, (buffer[i]^mask[i&3])&0x0FF);
-    tout[i & 1023] = buffer[i];
+    tout[j++] = buffer[i];
   }
 
-  return (*lpwriter) (ws->req, tout, len & 1023);
+  return (*lpwriter) (ws->req, tout, j);
 }
 
 /**
-- 
2.43.0


From 0971aa812029144e59773f72aa0aea106e842ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:43 +0000
Subject: [PATCH 068/103] fix: websocket printf uses twice the arguments on
 long messages

---
 src/onion/websocket.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 7aecbfb..77fb055 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -314,8 +314,14 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
   */
 int onion_websocket_vprintf(onion_websocket * ws, const char *fmt, va_list args) {
   char temp[512];
-  int l = vsnprintf(temp, sizeof(temp) - 1, fmt, args);
-  if (l < sizeof(temp))
+  va_list argz;
+  va_copy(argz, args);
+  int l = vsnprintf(temp, sizeof(temp), fmt, argz);
+  va_end(argz);
+  if (l < 0) {
+    ONION_ERROR("Invalid vprintf fmt");
+    return -1;
+  } else if (l < sizeof(temp))
     return onion_websocket_write(ws, temp, l);
   else {
     ssize_t s;
@@ -326,7 +332,7 @@ int onion_websocket_vprintf(onion_websocket * ws, const char *fmt, va_list args)
       ONION_ERROR("Could not reserve %d bytes", l + 1);
       return -1;
     }
-    vsnprintf(buf, l, fmt, args);
+    vsnprintf(buf, l + 1, fmt, args);
     s = onion_websocket_write(ws, buf, l);
     onion_low_free(buf);
     return s;
-- 
2.43.0


From d22ae357929d34dab4ed18d6e6bb4258b5b6310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:43 +0000
Subject: [PATCH 069/103] fix: websocket ping leaks memory, and allocates as
 much as the client asks

---
 src/onion/websocket.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 77fb055..e9a8c7a 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -468,8 +468,16 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
 
   if (ws->opcode == OWS_PING) { // I do answer ping myself.
     onion_websocket_set_opcode(ws, OWS_PONG);
-    char *data = onion_low_scalar_malloc(ws->data_left);
-    ssize_t r = onion_websocket_read(ws, data, ws->data_left);
+    char data[125];
+    if (ws->data_left > sizeof(data)) {
+      ONION_ERROR("Websocket ping too long, closing.");
+      return OCS_CLOSE_CONNECTION;
+    }
+    ssize_t r = 0;
+    if (ws->data_left > 0)
+      r = onion_websocket_read(ws, data, ws->data_left);
+    if (r < 0)
+      return OCS_CLOSE_CONNECTION;
 
     onion_websocket_write(ws, data, r);
   }
-- 
2.43.0


From c1364a616922914dddeb43714156203d7a84c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:43 +0000
Subject: [PATCH 070/103] fix: websocket read errors are counted as data

---
 src/onion/websocket.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index e9a8c7a..7d73d58 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -281,6 +281,10 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
     //ONION_DEBUG("Read %d bytes now, %d bytes later", len, left_len);
   }
   int r = (*lpreader) (ws->req, buffer, len);
+  if (r < 0) {
+    ws->callback = NULL;        // Easy way to force close of websocket, which is ok as it closed.
+    return r;
+  }
   if (ws->flags & WS_MASK) {
     char *p = buffer;
     int i;
@@ -292,9 +296,13 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
   ws->data_left -= r;
 
   if (left_len && r == len)
-    r += onion_websocket_read(ws, &buffer[len], left_len);
+  {
+    int rest = onion_websocket_read(ws, &buffer[len], left_len);
+    if (rest > 0)
+      r += rest;
+  }
 
-  if (r < 0 || (r == 0 && errno != 0)) {
+  if ((r == 0 && errno != 0)) {
     ws->callback = NULL;        // Easy way to force close of websocket, which is ok as it closed.
   }
   return r;
-- 
2.43.0


From 9e092a4fabd728f5ec91cda6e2311dc58d14554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:43 +0000
Subject: [PATCH 071/103] fix: websocket subprotocol is answered in a wrong
 header

---
 src/onion/websocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 7d73d58..5e04a0a 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -121,7 +121,7 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
   res->flags |= OR_LENGTH_SET;  // Fix for Chrome to close cleanly websocket connections
   onion_response_set_header(res, "Upgrade", "websocket");
   if (ws_protocol)
-    onion_response_set_header(res, "Sec-Websocket-Procotol", ws_protocol);
+    onion_response_set_header(res, "Sec-Websocket-Protocol", ws_protocol);
   onion_response_set_header(res, "Sec-Websocket-Accept", key_answer);
   onion_low_free(key_answer);
 
-- 
2.43.0


From 2e08a1f51617a0dd07a849c2057ea533588165fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:55 +0000
Subject: [PATCH 072/103] fix: path handler frees a regular expression that is
 not compiled

---
 src/onion/handlers/path.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/path.c b/src/onion/handlers/path.c
index 53e27c0..b1ecf1e 100644
--- a/src/onion/handlers/path.c
+++ b/src/onion/handlers/path.c
@@ -88,8 +88,9 @@ onion_handler *onion_handler_path(const char *path,
     char buffer[1024];
     regerror(err, &priv_data->path, buffer, sizeof(buffer));
     fprintf(stderr, "%s:%d Error analyzing regular expression '%s': %s.\n",
-            __FILE__, __LINE__, path, buffer);
-    onion_handler_path_delete(priv_data);
+            __FILE__, __LINE__, path ? path : "", buffer);
+    onion_handler_free(inside_level);
+    onion_low_free(priv_data);
     return NULL;
   }
 
-- 
2.43.0


From 62fcd8a3175e275e1bb765e4ebcb4ffedbda308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:20 +0000
Subject: [PATCH 073/103] fix: urls with a wrong regular expression leak the
 handler

---
 src/onion/url.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/onion/url.c b/src/onion/url.c
index 4d0d643..ba0227b 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -246,8 +246,11 @@ int onion_url_add_handler(onion_url * url, const char *regexp,
  * @returns 0 if everything ok. Else there is a regexp error.
  */
 int onion_url_add(onion_url * url, const char *regexp, void *handler) {
-  return onion_url_add_handler(url, regexp,
-                               onion_handler_new(handler, NULL, NULL));
+  onion_handler *next = onion_handler_new(handler, NULL, NULL);
+  int err = onion_url_add_handler(url, regexp, next);
+  if (err)
+    onion_handler_free(next);
+  return err;
 }
 
 /**
@@ -258,8 +261,11 @@ int onion_url_add(onion_url * url, const char *regexp, void *handler) {
  */
 int onion_url_add_with_data(onion_url * url, const char *regexp, void *handler,
                             void *data, void *f) {
-  return onion_url_add_handler(url, regexp,
-                               onion_handler_new(handler, data, f));
+  onion_handler *next = onion_handler_new(handler, data, f);
+  int err = onion_url_add_handler(url, regexp, next);
+  if (err)
+    onion_handler_free(next);
+  return err;
 }
 
 /**
-- 
2.43.0


From 834ef2444782f2e43000a70d7de11b8631f37237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:20 +0000
Subject: [PATCH 074/103] fix: png response leaks on HEAD requests and errors

---
 src/onion/extras/png.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/onion/extras/png.c b/src/onion/extras/png.c
index f33811d..6e2f19a 100644
--- a/src/onion/extras/png.c
+++ b/src/onion/extras/png.c
@@ -103,8 +103,10 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
   /* where user_io_ptr is a structure you want available to the callbacks */
 
   onion_response_set_header(res, "Content-Type", "image/png");
-  if (onion_response_write_headers(res) == OR_SKIP_CONTENT)     // Maybe it was HEAD.
+  if (onion_response_write_headers(res) == OR_SKIP_CONTENT) {   // Maybe it was HEAD.
+    png_destroy_write_struct(&png_ptr, &info_ptr);
     return OCS_PROCESSED;
+  }
 
   /* Set the image information here.  Width and height are up to 2^31,
    * bit_depth is one of 1, 2, 4, 8, or 16, but valid values also depend on
@@ -159,6 +161,7 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
 
   // If header already sent, then there was an error.
   if (opd.sent) {
+    png_destroy_write_struct(&png_ptr, &info_ptr);
     return OCS_PROCESSED;
   }
   opd.sent = 1;
-- 
2.43.0


From 0b4ac79f8af450e9e516e4f229042a8795660f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:20 +0000
Subject: [PATCH 075/103] fix: jpeg response leaks on error

---
 src/onion/extras/jpeg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/extras/jpeg.c b/src/onion/extras/jpeg.c
index 3a9c1fe..9443d8e 100644
--- a/src/onion/extras/jpeg.c
+++ b/src/onion/extras/jpeg.c
@@ -178,6 +178,7 @@ int onion_jpeg_response(unsigned char *image, int image_num_color_channels, J_CO
 
   // If header already sent, then there was an error.
   if (ojd.sent) {
+    jpeg_destroy_compress(&cinfo);
     return OCS_PROCESSED;
   }
 
-- 
2.43.0


From d5b6e9e3afa382b5ed67590a8fd1a28f75dba287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:20 +0000
Subject: [PATCH 076/103] fix: C++ not found exception answers as internal
 error

---
 src/bindings/cpp/exceptions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/exceptions.hpp b/src/bindings/cpp/exceptions.hpp
index c332356..dd34988 100644
--- a/src/bindings/cpp/exceptions.hpp
+++ b/src/bindings/cpp/exceptions.hpp
@@ -74,7 +74,7 @@ namespace Onion {
 	*/
   class HttpNotFound:public HttpException {
  public:
-    HttpNotFound(const std::string & str):HttpException(str) {
+    HttpNotFound(const std::string & str):HttpException(str, HTTP_NOT_FOUND) {
     };
     virtual ~ HttpNotFound()throw() {
     }
-- 
2.43.0


From 3749b42c138f908c36f2ef99802490f3ea645ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:00 +0000
Subject: [PATCH 077/103] fix: websocket crashes if the connection is closed in
 the middle of a ping

---
 src/onion/websocket.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 5e04a0a..9e03d74 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -535,6 +535,8 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
             ONION_ERROR("Error reading websocket header (%i)", err);
           return err;
         }
+        if (!ws->callback)      // Connection closed while reading a ping.
+          return OCS_CLOSE_CONNECTION;
       }
 
       size_t last_d_l;
-- 
2.43.0


From b668c72904d20f91cc88d0911d258a3c3a194352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:00 +0000
Subject: [PATCH 078/103] fix: PAM authentication crashes when the session
 backend is not available

---
 src/onion/handlers/auth_pam.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index f798507..60356c8 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -77,11 +77,14 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
 
     if (ok) {                   // I save the username at the session, so it can be accessed later.
       onion_dict *session = onion_request_get_session_dict(request);
-      onion_dict_lock_write(session);
-      onion_dict_add(session, "username", username, OD_REPLACE | OD_DUP_VALUE);
-      onion_dict_add(session, "pam_logged_in", username,
-                     OD_REPLACE | OD_DUP_VALUE);
-      onion_dict_unlock(session);
+      if (session) {            // The session backend may not be available
+        onion_dict_lock_write(session);
+        onion_dict_add(session, "username", username,
+                       OD_REPLACE | OD_DUP_VALUE);
+        onion_dict_add(session, "pam_logged_in", username,
+                       OD_REPLACE | OD_DUP_VALUE);
+        onion_dict_unlock(session);
+      }
 
       onion_low_free(auth);
       return onion_handler_handle(d->inside, request, res);
-- 
2.43.0


From 1322c276ec318a4a3805ea254131a8ab38a22391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:39 +0000
Subject: [PATCH 079/103] fix: parser loops forever on headers that start with
 a 0 byte

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 00f30d3..a5044c3 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -770,7 +770,7 @@ parse_headers_VALUE_multiline_if_space(onion_request * req,
                                        onion_buffer * data) {
   char peek = token_peek_next_char(data);
   ONION_DEBUG0("Multiline if space, peek %d", peek);
-  if (peek == 0) {
+  if (data->pos >= data->size) {
     req->parser = parse_headers_VALUE_multiline_if_space;
     return OCS_NEED_MORE_DATA;
   }
-- 
2.43.0


From 5595814163a66553e8e535eb1e764b3e54b05f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:16 +0000
Subject: [PATCH 080/103] fix: do not truncate Content-Length when deciding
 whether a request has a body

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index a5044c3..c5c60a0 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -826,7 +826,7 @@ static onion_connection_status parse_headers_KEY(onion_request * req,
     if ((req->flags & OR_METHODS) == OR_PUT)
       return prepare_PUT(req);
     if (onion_request_get_header(req, "Content-Length")) {      // Some length, not POST, get data.
-      int n = atoi(onion_request_get_header(req, "Content-Length"));
+      long n = atol(onion_request_get_header(req, "Content-Length"));
       if (n > 0)
         return prepare_CONTENT_LENGTH(req);
     }
-- 
2.43.0


From b7e70cbd4d147cf2501acc9e275346a1234ccd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:19 +0000
Subject: [PATCH 081/103] fix: session identifier leaks when the session store
 cannot return the session

---
 src/onion/request.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/request.c b/src/onion/request.c
index 7214237..d46a0c8 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -457,6 +457,8 @@ onion_dict *onion_request_get_session_dict(onion_request * req) {
     }
     onion_request_guess_session_id(req);
     if (!req->session) {        // Maybe old session is not to be used anymore
+      if (req->session_id)
+        onion_low_free(req->session_id);
       req->session_id =
           onion_sessions_create(req->connection.listen_point->server->sessions);
       req->session =
-- 
2.43.0


From f7f0594b243e3acf64588708fefe43dcfdc7ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:45 +0000
Subject: [PATCH 082/103] fix: concurrent requests race to fill the mime types
 table, and free it while in use

---
 src/onion/mime.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index ea2925b..f840b03 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -27,6 +27,9 @@
 
 #include "types.h"
 #include "mime.h"
+#ifdef HAVE_PTHREADS
+#include <pthread.h>
+#endif
 #include "dict.h"
 #include "log.h"
 #include "utils.h"
@@ -36,6 +39,15 @@
 /// Dict with all extension to mime type. This will never be freed.
 static onion_dict *onion_mime_dict = NULL;
 
+#ifdef HAVE_PTHREADS
+static pthread_mutex_t onion_mime_mutex = PTHREAD_MUTEX_INITIALIZER;
+#define onion_mime_lock() pthread_mutex_lock(&onion_mime_mutex)
+#define onion_mime_unlock() pthread_mutex_unlock(&onion_mime_mutex)
+#else
+#define onion_mime_lock()
+#define onion_mime_unlock()
+#endif
+
 static void onion_mime_fill();
 
 /**
@@ -47,9 +59,12 @@ static void onion_mime_fill();
  * At onion_server_free it is freed, as if this function is called again.
  */
 void onion_mime_set(onion_dict * d) {
-  if (onion_mime_dict)
-    onion_dict_free(onion_mime_dict);
+  onion_mime_lock();
+  onion_dict *old = onion_mime_dict;
   onion_mime_dict = d;
+  onion_mime_unlock();
+  if (old)
+    onion_dict_free(old);
 }
 
 /**
@@ -64,9 +79,6 @@ void onion_mime_set(onion_dict * d) {
  * If none is found, returns text/plain.
  */
 const char *onion_mime_get(const char *filename) {
-  if (!onion_mime_dict)
-    onion_mime_fill();
-
   const char *extension = filename;
   int l = strlen(filename);
   int i;
@@ -79,7 +91,11 @@ const char *onion_mime_get(const char *filename) {
 
   //ONION_DEBUG("I know %d mime types", onion_dict_count(onion_mime_dict));
 
+  onion_mime_lock();
+  if (!onion_mime_dict)
+    onion_mime_fill();
   const char *r = onion_dict_get(onion_mime_dict, extension);
+  onion_mime_unlock();
   if (r)
     return r;
   //ONION_DEBUG("Mime type for extension '%s' %s",extension, r);
@@ -90,10 +106,9 @@ const char *onion_mime_get(const char *filename) {
  * @short Reads the /etc/mime.types file
  * @ingroup mime
  *
- *
+ * Only called with the mime lock held, and no mime dict.
  */
 static void onion_mime_fill() {
-  onion_mime_set(NULL);
   onion_mime_dict = onion_dict_new();
   //ONION_DEBUG("Filling mime types");
 
@@ -172,6 +187,7 @@ static void onion_mime_fill() {
  * User can add new mime types, or remove (if mimetype == NULL).
  */
 void onion_mime_update(const char *extension, const char *mimetype) {
+  onion_mime_lock();
   if (!onion_mime_dict)
     onion_mime_fill();
 
@@ -179,4 +195,5 @@ void onion_mime_update(const char *extension, const char *mimetype) {
     onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
   else
     onion_dict_remove(onion_mime_dict, extension);
+  onion_mime_unlock();
 }
-- 
2.43.0


From 7817212bce0fcc838150296f3f5cdd55d7783ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:45 +0000
Subject: [PATCH 083/103] fix: poller reads the slot list without its lock
 after an epoll error

---
 src/onion/poller.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 4672793..e5814fb 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -536,15 +536,16 @@ void onion_poller_poll(onion_poller * p) {
 
     if (nfds < 0) {             // This is normally closed p->fd
       //ONION_DEBUG("Some error happened"); // Also spurious wakeups... gdb is to blame sometimes or any other.
+      ONION_DEBUG("Error on epoll: %s", strerror(errno));
+      pthread_mutex_lock(&p->mutex);
       if (p->fd < 0 || !p->head) {
-        ONION_DEBUG("Finishing the epoll as finished: %s", strerror(errno));
 #ifdef HAVE_PTHREADS
-        pthread_mutex_lock(&p->mutex);
         p->npollers--;
-        pthread_mutex_unlock(&p->mutex);
 #endif
+        pthread_mutex_unlock(&p->mutex);
         return;
       }
+      pthread_mutex_unlock(&p->mutex);
     }
     int i;
     for (i = 0; i < nfds; i++) {
-- 
2.43.0


From 006ac2813496f9cceb04b8b9001fa4750f480953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:52 +0000
Subject: [PATCH 084/103] fix: websocket messages of 65535 bytes do not use the
 shortest length encoding

---
 src/onion/websocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 9e03d74..c2ab13d 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -194,7 +194,7 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     header[1] = 0x00;           // Do not mask on send
     if (len < 126)
       header[1] |= len;
-    else if (len < 0x0FFFF) {
+    else if (len <= 0x0FFFF) {
       header[1] |= 126;
       header[2] = (len >> 8) & 0x0FF;
       header[3] = (len) & 0x0FF;
-- 
2.43.0


From 90be61a2404b9dfafc33951a15b23c6568462c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:52 +0000
Subject: [PATCH 085/103] fix: websocket frames with an invalid length are
 reported as negative length

---
 src/onion/websocket.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index c2ab13d..aaaafad 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -462,6 +462,11 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     int i;
     for (i = 0; i < 8; i++)
       ws->data_left += ((uint64_t) utmp[i]) << ((7 - i) * 8);   // Maybe problematic on 32bits systems
+    if (ws->data_left < 0) {
+      ONION_ERROR("Invalid websocket frame length, closing.");
+      ws->data_left = 0;
+      return OCS_CLOSE_CONNECTION;
+    }
   }
   ONION_DEBUG("Data left %d", ws->data_left);
   if (ws->flags & WS_MASK) {
-- 
2.43.0


From c935648a1d1ca2949ab326f69481d33b78cd1da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:52 +0000
Subject: [PATCH 086/103] fix: onion_websocket_write returns only the size of
 the last block written

---
 src/onion/websocket.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index aaaafad..719674b 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -228,14 +228,20 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
       //ONION_DEBUG("At %d, %02X ^ %02X = %02X", (i+j)&1023, buffer[i+j]&0x0FF, mask[j&3]&0x0FF, (buffer[i]^mask[j&3])&0x0FF);
       tout[j] = buffer[i + j];
     }
-    ret += (*lpwriter) (ws->req, tout, sizeof(tout));
+    int w = (*lpwriter) (ws->req, tout, sizeof(tout));
+    if (w < 0)
+      return w;
+    ret += w;
   }
   for (j = 0; i < len; i++) {
     //ONION_DEBUG("At %d, %02X ^ %02X = %02X", i&1023, buffer[i]&0x0FF, mask[i&3]&0x0FF, (buffer[i]^mask[i&3])&0x0FF);
     tout[j++] = buffer[i];
   }
 
-  return (*lpwriter) (ws->req, tout, j);
+  int w = (*lpwriter) (ws->req, tout, j);
+  if (w < 0)
+    return w;
+  return ret + w;
 }
 
 /**
-- 
2.43.0


From 8fabb2133923ada852dae1774699063736aa9cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:11 +0000
Subject: [PATCH 087/103] fix: long source file names overflow the log line
 buffer

---
 src/onion/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/log.c b/src/onion/log.c
index d034652..34253d2 100644
--- a/src/onion/log.c
+++ b/src/onion/log.c
@@ -176,7 +176,7 @@ void onion_log_stderr(onion_log_level level, const char *filename, int lineno,
   localtime_r(&t, &result);
   strftime(datetime, sizeof(datetime), "%Y-%m-%d %H:%M:%S", &result);
 
-  strout_length += sprintf(strout + strout_length, "[%s] [%s %s:%d] ", datetime, levelstr[level], filename, lineno);    // I dont know why basename is char *. Please somebody tell me.
+  strout_length += sprintf(strout + strout_length, "[%s] [%s %.100s:%d] ", datetime, levelstr[level], filename, lineno);    // I dont know why basename is char *. Please somebody tell me.
 
   va_list ap;
   va_start(ap, fmt);
-- 
2.43.0


From 9ec1d12f144894d33a7e85945300a0594efd19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:11 +0000
Subject: [PATCH 088/103] fix: a Range header of 1023 bytes is parsed without
 terminator

---
 src/onion/shortcuts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 2a3a1a3..0cfa29c 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -206,11 +206,11 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
     //ONION_DEBUG("Need just a range: %s",range);
     char tmp[1024];
-    if (strlen(range + 6) >= sizeof(tmp)) {
+    if (strlen(range + 6) >= sizeof(tmp) - 1) {
       close(fd);
       return OCS_INTERNAL_ERROR;        // Bad specified range. Very bad indeed.
     }
-    strncpy(tmp, range + 6, sizeof(tmp) - 1);
+    strncpy(tmp, range + 6, sizeof(tmp));
     char *start = tmp;
     char *end = tmp;
     while (*end != '-' && *end)
-- 
2.43.0


From ddcdc596a5fc8db775fe667fa00a4fe8cf14bcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:11 +0000
Subject: [PATCH 089/103] fix: Content-Range of files over 2 GB is truncated

---
 src/onion/shortcuts.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 0cfa29c..07cfda2 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -230,7 +230,7 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
         ends = length - 1;
       if (starts > ends || starts >= length) {
         ONION_DEBUG0("Range not satisfiable");
-        snprintf(tmp, sizeof(tmp), "bytes */%d", (unsigned int)length);
+        snprintf(tmp, sizeof(tmp), "bytes */%lu", (unsigned long)length);
         onion_response_set_header(res, "Content-Range", tmp);
         onion_response_set_code(res, HTTP_RANGE_NOT_SATISFIABLE);
         onion_response_write_headers(res);
@@ -239,8 +239,8 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
       }
       length = ends - starts + 1;
       lseek(fd, starts, SEEK_SET);
-      snprintf(tmp, sizeof(tmp), "bytes %d-%d/%d", (unsigned int)starts,
-               (unsigned int)ends, (unsigned int)st.st_size);
+      snprintf(tmp, sizeof(tmp), "bytes %lu-%lu/%lu", (unsigned long)starts,
+               (unsigned long)ends, (unsigned long)st.st_size);
       //onion_response_set_header(res, "Accept-Ranges","bytes");
       onion_response_set_header(res, "Content-Range", tmp);
     }
-- 
2.43.0


From 61e3e8a75365fd84a0d14df36eab06bd2dc03bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:36 +0000
Subject: [PATCH 090/103] fix: onion_c_quote writes a carriage return as \\n

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 5a4d416..c1aca0e 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -379,7 +379,7 @@ char *onion_c_quote(const char *str, char *ret, int l) {
     } else if (*p == '\r') {
       *r = '\\';
       r++;
-      *r = 'n';
+      *r = 'r';
     } else if (*p == '"') {
       *r = '\\';
       r++;
-- 
2.43.0


From 8159eee34b489c9674b88416c02a50aee2d341a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:30 +0000
Subject: [PATCH 091/103] fix: a multipart file could be stored with one byte
 more than the maximum file size

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index c5c60a0..7a3076c 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -430,7 +430,7 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         return OCS_NEED_MORE_DATA;
       }
     } else {
-      if (multipart->file_total_size >
+      if (multipart->file_total_size >=
           req->connection.listen_point->server->max_file_size) {
         ONION_ERROR("Files on this post too big. Aborting.");
         return OCS_INTERNAL_ERROR;
-- 
2.43.0


From 48a2eb52f927a48b0319ff73f8ac6799f8de1341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:17 +0000
Subject: [PATCH 092/103] fix: a Range header without a range gets the whole
 file marked as partial content

---
 src/onion/shortcuts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 07cfda2..98b45f0 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -203,7 +203,6 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   onion_response_set_header(res, "Etag", etag);
 
   if (range && strncmp(range, "bytes=", 6) == 0) {
-    onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
     //ONION_DEBUG("Need just a range: %s",range);
     char tmp[1024];
     if (strlen(range + 6) >= sizeof(tmp) - 1) {
@@ -237,6 +236,7 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
         close(fd);
         return OCS_PROCESSED;
       }
+      onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
       length = ends - starts + 1;
       lseek(fd, starts, SEEK_SET);
       snprintf(tmp, sizeof(tmp), "bytes %lu-%lu/%lu", (unsigned long)starts,
-- 
2.43.0


From 7dad547c53a6a8608412c5e1cc96abe2e1b4a10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:23 +0000
Subject: [PATCH 093/103] fix: removing an entry whose key is there several
 times leaves freed data in the dictionary

---
 src/onion/dict.c | 78 +++++++++++++++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 30 deletions(-)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index 45fbbe1..7c00f43 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -388,6 +388,48 @@ static void onion_dict_node_data_free(onion_dict_node_data * data) {
   }
 }
 
+/// Sets the subtree balanced again after something was removed from it
+static onion_dict_node *onion_dict_node_rebalance(onion_dict_node * node) {
+  decrease_level(node);
+  node = skew(node);
+  if (node->right) {
+    node->right = skew(node->right);
+    if (node->right->right)
+      node->right->right = skew(node->right->right);
+  }
+  node = split(node);
+  if (node->right)
+    node->right = split(node->right);
+  return node;
+}
+
+/// Takes the first node out of the subtree, and leaves its data at data.
+static onion_dict_node *onion_dict_node_take_first(onion_dict_node * node,
+                                                   onion_dict_node_data *
+                                                   data) {
+  if (!node->left) {
+    onion_dict_node *rest = node->right;
+    memcpy(data, &node->data, sizeof(onion_dict_node_data));
+    onion_low_free(node);
+    return rest;
+  }
+  node->left = onion_dict_node_take_first(node->left, data);
+  return onion_dict_node_rebalance(node);
+}
+
+/// Takes the last node out of the subtree, and leaves its data at data.
+static onion_dict_node *onion_dict_node_take_last(onion_dict_node * node,
+                                                  onion_dict_node_data * data) {
+  if (!node->right) {
+    onion_dict_node *rest = node->left;
+    memcpy(data, &node->data, sizeof(onion_dict_node_data));
+    onion_low_free(node);
+    return rest;
+  }
+  node->right = onion_dict_node_take_last(node->right, data);
+  return onion_dict_node_rebalance(node);
+}
+
 /// AA tree remove the node
 static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
                                                onion_dict_node * node,
@@ -408,37 +450,13 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
       onion_low_free(node);
       return NULL;
     }
-    if (node->left == NULL) {
-      onion_dict_node *t = node->right; // Get next key node
-      while (t->left)
-        t = t->left;
-      //ONION_DEBUG("Set data from %p[%s] to %p[already deleted %s]",t,t->data.key, node, key);
-      memcpy(&node->data, &t->data, sizeof(onion_dict_node_data));
-      t->data.flags = 0;        // No double free later, please
-      node->right = onion_dict_node_remove(d, node->right, t->data.key);
-      //ONION_DEBUG("%p[%s]->right=%p[%s]",node, node->data.key, node->right, node->right ? node->right->data.key : "NULL");
-    } else {
-      onion_dict_node *t = node->left;  // Get prev key node
-      while (t->right)
-        t = t->right;
-
-      memcpy(&node->data, &t->data, sizeof(onion_dict_node_data));
-      t->data.flags = 0;        // No double free later, please
-      node->left = onion_dict_node_remove(d, node->left, t->data.key);
-      //ONION_DEBUG("%p[%s]->left=%p[%s]",node, node->data.key, node->left, node->left ? node->left->data.key : "NULL");
-    }
-  }
-  decrease_level(node);
-  node = skew(node);
-  if (node->right) {
-    node->right = skew(node->right);
-    if (node->right->right)
-      node->right->right = skew(node->right->right);
+    // Takes the place of it the next or previous node; not searched by key, as there may be several with the same one.
+    if (node->left == NULL)
+      node->right = onion_dict_node_take_first(node->right, &node->data);
+    else
+      node->left = onion_dict_node_take_last(node->left, &node->data);
   }
-  node = split(node);
-  if (node->right)
-    node->right = split(node->right);
-  return node;
+  return onion_dict_node_rebalance(node);
 }
 
 /**
-- 
2.43.0


From 43f41cf48ed22682a81fc18fe689b2d55fc15025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:54 +0000
Subject: [PATCH 094/103] fix: the hard duplicate of a case insensitive
 dictionary is case sensitive

---
 src/onion/dict.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index 7c00f43..2f14f44 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -172,6 +172,7 @@ void onion_dict_hard_dup_helper(onion_dict * dict, const char *key,
  */
 onion_dict *onion_dict_hard_dup(onion_dict * dict) {
   onion_dict *d = onion_dict_new();
+  d->cmp = dict->cmp;
   onion_dict_preorder(dict, onion_dict_hard_dup_helper, d);
   return d;
 }
-- 
2.43.0


From c6fd44186a76acbcec98ca35519129f9f8e32a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:19 +0000
Subject: [PATCH 095/103] fix: do not lose the timeouts of slots added in the
 second of the last timer tick

---
 src/onion/poller.c | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index e5814fb..bb43d81 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -239,8 +239,6 @@ static int onion_poller_stop_helper(void *p) {
   return 1;
 }
 
-static time_t onion_poller_last_time = 0;
-
 static int onion_poller_timer(void *p_);
 
 static void onion_poller_timer_check(onion_poller * p, time_t timelimit) {
@@ -263,25 +261,21 @@ static int onion_poller_timer(void *p_) {
   time_t ctime = onion_time();
   time_t next_timeout = ctime + (24 * 60 * 60); // At least once per day
 
-  // Do this only once per second max.
-  if (ctime != onion_poller_last_time) {
-    onion_poller_last_time = ctime;
-    pthread_mutex_lock(&p->mutex);
-    onion_poller_slot *next = p->head;
-    while (next) {
-      onion_poller_slot *cur = next;
-      next = next->next;
-      if (cur->timeout_limit <= ctime) {
-        ONION_DEBUG("Timeout on %d, was %d (ctime %d)", cur->fd,
-                    cur->timeout_limit, ctime);
-        cur->timeout_limit = INT_MAX;
-        shutdown(cur->fd, SHUT_RD);
-      } else if (cur->timeout_limit < next_timeout) {
-        next_timeout = cur->timeout_limit;
-      }
+  pthread_mutex_lock(&p->mutex);
+  onion_poller_slot *slot = p->head;
+  while (slot) {
+    onion_poller_slot *cur = slot;
+    slot = slot->next;
+    if (cur->timeout_limit <= ctime) {
+      ONION_DEBUG("Timeout on %d, was %d (ctime %d)", cur->fd,
+                  cur->timeout_limit, ctime);
+      cur->timeout_limit = INT_MAX;
+      shutdown(cur->fd, SHUT_RD);
+    } else if (cur->timeout_limit < next_timeout) {
+      next_timeout = cur->timeout_limit;
     }
-    pthread_mutex_unlock(&p->mutex);
   }
+  pthread_mutex_unlock(&p->mutex);
   // Atomic store.
   // Try until set if <= next_timeout.
   time_t origval;
-- 
2.43.0


From b33646b4f450f9f0ed6344b21fb0a5363a893129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:19 +0000
Subject: [PATCH 096/103] fix: set the poller timer while the slots it was
 calculated from are locked

---
 src/onion/poller.c | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index bb43d81..36b378f 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -242,8 +242,10 @@ static int onion_poller_stop_helper(void *p) {
 static int onion_poller_timer(void *p_);
 
 static void onion_poller_timer_check(onion_poller * p, time_t timelimit) {
-  // If maybe timeout limit (p->current_timeout_limit is used atomically)
-  if (timelimit < p->current_timeout_limit) {
+  pthread_mutex_lock(&p->mutex);
+  char earlier = timelimit < p->current_timeout_limit;
+  pthread_mutex_unlock(&p->mutex);
+  if (earlier) {
     // Recalculate with proper mutexes.
     onion_poller_timer(p);
   }
@@ -275,25 +277,13 @@ static int onion_poller_timer(void *p_) {
       next_timeout = cur->timeout_limit;
     }
   }
-  pthread_mutex_unlock(&p->mutex);
-  // Atomic store.
-  // Try until set if <= next_timeout.
-  time_t origval;
-  time_t oldval;
-  do {                          // Spin until change is acceptable.
-    origval = p->current_timeout_limit;
-    oldval =
-        __sync_val_compare_and_swap(&p->current_timeout_limit, origval,
-                                    next_timeout);
-  } while (                     // Repeat if
-            origval != oldval   // different, so not changed because somebody else changed the value
-            && oldval > next_timeout    // and current timer is for later than my timeout
-      );                        // Ths is when another thread changed if for a later timeout, so I must insist on mine
+  p->current_timeout_limit = next_timeout;
 
   //ONION_DEBUG("Next timeout in %d seconds", p->current_timeout_limit - ctime);
-  // rearm
+  // rearm, before any other thread can look for the next timeout
   struct itimerspec next = { {0, 0}, {next_timeout - ctime, 0} };
   timerfd_settime(p->timerfd, 0, &next, NULL);
+  pthread_mutex_unlock(&p->mutex);
 
   return 1;
 }
-- 
2.43.0


From 8ff30e3453cc7634588b5f3c1e2bbabf54902c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:23 +0000
Subject: [PATCH 097/103] fix: files being uploaded are inherited by children

---
 src/onion/request_parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 7a3076c..5069e09 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -21,6 +21,7 @@
   <http://www.apache.org/licenses/LICENSE-2.0>.
 */
 
+#define _GNU_SOURCE             // mkostemp
 #include <string.h>
 #include <stdlib.h>
 #include <libgen.h>
@@ -659,7 +660,7 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
         return OCS_INTERNAL_ERROR;
       }
       char filename[] = "/tmp/onion-XXXXXX";
-      multipart->fd = mkstemp(filename);
+      multipart->fd = mkostemp(filename, O_CLOEXEC);
       if (multipart->fd < 0) {
         ONION_ERROR("Could not create temporal file at %s.", filename);
         return OCS_INTERNAL_ERROR;
@@ -1161,7 +1162,7 @@ static onion_connection_status prepare_PUT(onion_request * req) {
   req->data = onion_block_new();
 
   char filename[] = "/tmp/onion-XXXXXX";
-  int fd = mkstemp(filename);
+  int fd = mkostemp(filename, O_CLOEXEC);
   if (fd < 0) {
     ONION_ERROR("Could not create temporary file at %s.", filename);
     return OCS_INTERNAL_ERROR;
-- 
2.43.0


From 966b6edc41fc2ed49f8bad433142990ba29a12af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:23 +0000
Subject: [PATCH 098/103] fix: files being copied are inherited by children

---
 src/onion/shortcuts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 98b45f0..0415428 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -392,12 +392,12 @@ int onion_shortcut_rename(const char *orig, const char *dest) {
   if (ok != 0 && errno == EXDEV) {      // Ok, old way, open both, copy
     ONION_DEBUG0("Slow cp, as tmp is in another FS");
     ok = 0;
-    int fd_orig = open(orig, O_RDONLY);
+    int fd_orig = open(orig, O_RDONLY | O_CLOEXEC);
     if (fd_orig < 0) {
       ok = 1;
       ONION_ERROR("Could not open orig for reading (%s)", strerror(errno));
     }
-    int fd_dest = open(dest, O_WRONLY | O_CREAT | O_TRUNC, 0666);
+    int fd_dest = open(dest, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0666);
     if (fd_dest < 0) {
       ok = 1;
       ONION_ERROR("Could not open destination for writing (%s)",
-- 
2.43.0


From 8d3a4cbe6e4853b5745b15f7214a83316c7391ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:01 +0000
Subject: [PATCH 099/103] fix: the exported path comes from realpath, so it is
 the C library who has to free it

---
 src/onion/handlers/exportlocal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index fbb4d78..2a14dae 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -247,7 +247,7 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
 /// Frees local data from the directory handler
 void onion_handler_export_local_delete(void *data) {
   onion_handler_export_local_data *d = data;
-  onion_low_free(d->localpath);
+  free(d->localpath);           // From realpath
   onion_low_free(d);
 }
 
@@ -289,7 +289,7 @@ onion_handler *onion_handler_export_local_new(const char *localpath) {
   struct stat st;
   if (stat(rp, &st) != 0) {
     ONION_ERROR("Cant access to the exported directory/file (%s).", rp);
-    onion_low_free(rp);
+    free(rp);                   // From realpath
     return NULL;
   }
   onion_handler_export_local_data *priv_data =
-- 
2.43.0


From 285f309074baa26ecc0bd3f50631068e69894d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:01 +0000
Subject: [PATCH 100/103] fix: the paths checked for webdav come from realpath,
 so it is the C library who has to free them

---
 src/onion/handlers/webdav.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 850ab0c..bfdadb2 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -764,9 +764,9 @@ int onion_webdav_default_check_permissions(const char *exported_path,
   }
 
   if (base)
-    onion_low_free(base);
+    free(base);                 // From realpath
   if (file)
-    onion_low_free(file);
+    free(file);
   ONION_DEBUG0("Permission %s", ret == 0 ? "granted" : "denied");
   return ret;
 }
-- 
2.43.0


From 1bc5af88e85de7fcfe4be202c4555349b53e4cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:01 +0000
Subject: [PATCH 101/103] fix: the answers to PAM are released by PAM with
 free()

---
 src/onion/handlers/auth_pam.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index 60356c8..d431b36 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -143,8 +143,7 @@ static int authPAM_passwd(int num_msg, const struct pam_message **msg,
   struct pam_response *r;
 
   *resp = r =
-      (struct pam_response *)onion_low_calloc(num_msg,
-                                              sizeof(struct pam_response));
+      (struct pam_response *)calloc(num_msg, sizeof(struct pam_response));      // PAM frees them with free()
   if (r == NULL)
     return PAM_BUF_ERR;
 
@@ -152,7 +151,7 @@ static int authPAM_passwd(int num_msg, const struct pam_message **msg,
 
   for (i = 0; i < num_msg; i++) {
     ONION_DEBUG0("Question %d: %s", i, (*msg)[i].msg);
-    r->resp = onion_low_strdup((const char *)appdata_ptr);
+    r->resp = strdup((const char *)appdata_ptr);
     r->resp_retcode = 0;
     r++;
   }
-- 
2.43.0


From 99b17d25b18f4194e09b6bfa58820cd7b9831bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:01 +0000
Subject: [PATCH 102/103] fix: the DH parameters are leaked if they can not be
 generated

---
 src/onion/https.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/https.c b/src/onion/https.c
index 88a8029..fc92dea 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -132,6 +132,7 @@ onion_listen_point *onion_https_new() {
   if (e < 0) {
     ONION_ERROR("Error initializing HTTPS: %s", gnutls_strerror(e));
     gnutls_certificate_free_credentials(https->x509_cred);
+    gnutls_dh_params_deinit(https->dh_params);
     op->free_user_data = NULL;
     onion_listen_point_free(op);
     onion_low_free(https);
-- 
2.43.0


From 3ac11566013763900da030a4ad1a1104e4c2ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:59 +0000
Subject: [PATCH 103/103] fix: the message of a jpeg error does not use the
 application's allocator, nor checks that there is memory

---
 src/onion/extras/jpeg.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/onion/extras/jpeg.c b/src/onion/extras/jpeg.c
index 9443d8e..87abec7 100644
--- a/src/onion/extras/jpeg.c
+++ b/src/onion/extras/jpeg.c
@@ -30,6 +30,7 @@
 #include <onion/types_internal.h>
 #include <onion/response.h>
 #include <onion/log.h>
+#include <onion/low.h>
 
 struct onion_jpeg_data_t {
   onion_response *res;
@@ -57,7 +58,7 @@ void onion_error_exit(j_common_ptr cinfo) {
   /* We could postpone this until after returning, if we chose. */
   //(*cinfo->err->output_message) (cinfo);
   /* Create the message */
-  char *msg = (char *)malloc(JMSG_LENGTH_MAX);
+  char *msg = (char *)onion_low_malloc(JMSG_LENGTH_MAX);
   (*(cinfo->err->format_message)) (cinfo, msg);
 
   onion_jpeg_data *d = (onion_jpeg_data *) cinfo->client_data;
@@ -68,7 +69,7 @@ void onion_error_exit(j_common_ptr cinfo) {
   }
 
   ONION_ERROR("%s", msg);
-  free(msg);
+  onion_low_free(msg);
   msg = NULL;
 
   /* Return control to the setjmp point */
-- 
2.43.0

