From 9714f9275db3b84a4d65e59d08d9239d9b9ca018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:14 +0000
Subject: [PATCH 01/16] fix: strtol0X: no signed overflow when negating
 LONG_MIN

---
 src/arg_int.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arg_int.c b/src/arg_int.c
index 9d760c9..a298db5 100644
--- a/src/arg_int.c
+++ b/src/arg_int.c
@@ -103,8 +103,10 @@ static long int strtol0X(const char* str, const char** endptr, char X, int base)
         return 0;
     }
 
-    /* success */
-    return s * val;
+    /* success (the negation of LONG_MIN is not representable: saturate like strtol) */
+    if (s < 0)
+        return (val == LONG_MIN) ? LONG_MAX : -val;
+    return val;
 }
 
 /* Returns 1 if str matches suffix (case insensitive).    */
-- 
2.43.0


From b525865a6be7cd761a9bd54ddc74ef6b1b7742b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:06 +0000
Subject: [PATCH 02/16] build: compile the library as gnu89 instead of c89

Strict -std=c89 rejects // comments, so no line comment can be added to a
library source. gnu89 is the same language with that (and no __STRICT_ANSI__);
the sources and their behaviour are unchanged.
---
 src/CMakeLists.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index 22bbc7f..b71aa02 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -37,7 +37,7 @@ if(CMAKE_C_COMPILER_ID MATCHES "MSVC")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} /wd4668")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} /wd4711")
 else(CMAKE_C_COMPILER_ID MATCHES "GNU|Clang")
-  set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=c89")
+  set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=gnu89")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wconversion")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wextra")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wall")
-- 
2.43.0


From 12daf3cb3f6de276971f9662ffae5767ab58acaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:57 +0000
Subject: [PATCH 03/16] fix: getopt: a '-' that ends a group of short options
 no longer loops forever

getopt_internal() returned BADARG for the '-' in "-a-" without advancing, so
the next call scanned the same argument again and arg_parse() never returned.
It is now reported as an unknown option and the scan goes on.
---
 src/arg_getopt_long.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arg_getopt_long.c b/src/arg_getopt_long.c
index b2dc4d8..b7d6ade 100644
--- a/src/arg_getopt_long.c
+++ b/src/arg_getopt_long.c
@@ -529,8 +529,12 @@ start:
 #endif
 		if (*place == '-') {
 			place++;		/* --foo long option */
-			if (*place == '\0')
-				return (BADARG);	/* malformed option */
+			if (*place == '\0') {
+				/* malformed option: "-" ends a group */
+				++optind;
+				optopt = (int)'-';
+				return (BADCH);
+			}
 #ifdef GNU_COMPATIBLE
 			dash_prefix = DD_PREFIX;
 #endif
-- 
2.43.0


From d59bfd0eeb354526a9f42eca7992a388170342bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:02 +0000
Subject: [PATCH 04/16] fix: arg_rex: never match or read past the end of the
 argument

---
 src/arg_rex.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 158a922..a5dc9f0 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -855,8 +855,9 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             return cur;
         }
         case OP_WB:
-            if ((str == exp->_bol && !isspace((int)(*str))) || (str == exp->_eol && !isspace((int)(*(str - 1)))) || (!isspace((int)(*str)) && isspace((int)(*(str + 1)))) ||
-                (isspace((int)(*str)) && !isspace((int)(*(str + 1))))) {
+            if ((str == exp->_bol && !isspace((int)(*str))) || (str == exp->_eol && str != exp->_bol && !isspace((int)(*(str - 1)))) ||
+                (str != exp->_eol && !isspace((int)(*str)) && isspace((int)(*(str + 1)))) ||
+                (str != exp->_eol && isspace((int)(*str)) && !isspace((int)(*(str + 1))))) {
                 return (node->left == 'b') ? str : NULL;
             }
             return (node->left == 'b') ? NULL : str;
@@ -869,11 +870,15 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
                 return str;
             return NULL;
         case OP_DOT: {
+            if (str == exp->_eol)
+                return NULL;
             str++;
         }
             return str;
         case OP_NCLASS:
         case OP_CLASS:
+            if (str == exp->_eol)
+                return NULL;
             if (trex_matchclass(exp, &exp->_nodes[node->left], *str) ? (type == OP_CLASS ? TRex_True : TRex_False)
                                                                      : (type == OP_NCLASS ? TRex_True : TRex_False)) {
                 str++;
@@ -881,6 +886,8 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             }
             return NULL;
         case OP_CCLASS:
+            if (str == exp->_eol)
+                return NULL;
             if (trex_matchcclass(node->left, *str)) {
                 str++;
                 return str;
-- 
2.43.0


From ea309ed3654260b956076669280a03872478e9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:02 +0000
Subject: [PATCH 05/16] fix: arg_rex: compare the ends of a range, not a node
 index

---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index a5dc9f0..370fa86 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -509,7 +509,7 @@ static int trex_class(TRex* exp) {
             if (*exp->_p++ == ']')
                 trex_error(exp, _SC("unfinished range"));
             r = trex_newnode(exp, OP_RANGE);
-            if (first > *exp->_p)
+            if (exp->_nodes[first].type <= MAX_CHAR && exp->_nodes[first].type > *exp->_p)
                 trex_error(exp, _SC("invalid range"));
             if (exp->_nodes[first].type == OP_CCLASS)
                 trex_error(exp, _SC("cannot use character classes in ranges"));
-- 
2.43.0


From 07ade285aa15064a460003716e8d2ebd4652426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:02 +0000
Subject: [PATCH 06/16] fix: arg_rex: a pattern that ends in a backslash is an
 error

---
 src/arg_rex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 370fa86..751ddb8 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -416,6 +416,9 @@ static TRexChar trex_escapechar(TRex* exp) {
             case 'f':
                 exp->_p++;
                 return '\f';
+            case '\0':
+                trex_error(exp, _SC("letter expected"));
+                /* fall through */
             default:
                 return (*exp->_p++);
         }
@@ -481,6 +484,8 @@ static int trex_charnode(TRex* exp, TRexBool isclass) {
                 /* fall through */
             default:
                 t = *exp->_p;
+                if (t == '\0')
+                    trex_error(exp, _SC("letter expected"));
                 exp->_p++;
                 return trex_newnode(exp, t);
         }
-- 
2.43.0


From 99134162856c6195824bccbbf2a5e43c3be7de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:02 +0000
Subject: [PATCH 07/16] fix: arg_rex: room for the first node of an empty
 pattern

---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 751ddb8..89d98cf 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -916,7 +916,7 @@ TRex* trex_compile(const TRexChar* pattern, const TRexChar** error, int flags) {
     TRex* exp = (TRex*)xmalloc(sizeof(TRex));
     exp->_eol = exp->_bol = NULL;
     exp->_p = pattern;
-    exp->_nallocated = (int)(scstrlen(pattern) * sizeof(TRexChar));
+    exp->_nallocated = (int)(scstrlen(pattern) * sizeof(TRexChar)) + 1;
     exp->_nodes = (TRexNode*)xmalloc((size_t)exp->_nallocated * sizeof(TRexNode));
     exp->_nsize = 0;
     exp->_matches = 0;
-- 
2.43.0


From e4d1c203c4c3644a39d99b4f9fe31631c978f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:02 +0000
Subject: [PATCH 08/16] fix: arg_rex: no value matches a pattern that cannot be
 compiled

---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 89d98cf..e01ea45 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -148,7 +148,7 @@ static int arg_rex_scanfn(struct arg_rex* parent, const char* argval) {
         /* if a match is detected, record the argument value in the arg_rex struct */
 
         rex = trex_compile(priv->pattern, &error, priv->flags);
-        is_match = trex_match(rex, argval);
+        is_match = rex ? trex_match(rex, argval) : TRex_False;
         if (!is_match)
             errorcode = ARG_ERR_REGNOMATCH;
         else
-- 
2.43.0


From 7594260f2a20c9ebfab9e922ac27fce44a3f7c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:26 +0000
Subject: [PATCH 09/16] fix: arg_end: keep the pointer arrays aligned for an
 odd capacity

---
 src/arg_end.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arg_end.c b/src/arg_end.c
index a7abfdd..baccc21 100644
--- a/src/arg_end.c
+++ b/src/arg_end.c
@@ -99,15 +99,15 @@ struct arg_end* arg_end(int maxcount) {
     result->hdr.checkfn = NULL;
     result->hdr.errorfn = (arg_errorfn*)arg_end_errorfn;
 
-    /* store error[maxcount] array immediately after struct arg_end */
-    result->error = (int*)(result + 1);
-
-    /* store parent[maxcount] array immediately after error[] array */
-    result->parent = (void**)(result->error + maxcount);
+    /* store parent[maxcount] array immediately after struct arg_end */
+    result->parent = (void**)(result + 1);
 
     /* store argval[maxcount] array immediately after parent[] array */
     result->argval = (const char**)(result->parent + maxcount);
 
+    /* store error[maxcount] array last, so that the arrays of pointers stay aligned */
+    result->error = (int*)(result->argval + maxcount);
+
     ARG_TRACE(("arg_end(%d) returns %p\n", maxcount, result));
     return result;
 }
-- 
2.43.0


From d60ca5591598c554c5313103c207b1e83ac22450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:26 +0000
Subject: [PATCH 10/16] fix: arg_end: a new end entry holds no errors

---
 src/arg_end.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arg_end.c b/src/arg_end.c
index baccc21..f8c0cd8 100644
--- a/src/arg_end.c
+++ b/src/arg_end.c
@@ -99,6 +99,8 @@ struct arg_end* arg_end(int maxcount) {
     result->hdr.checkfn = NULL;
     result->hdr.errorfn = (arg_errorfn*)arg_end_errorfn;
 
+    result->count = 0;
+
     /* store parent[maxcount] array immediately after struct arg_end */
     result->parent = (void**)(result + 1);
 
-- 
2.43.0


From 6655a5b1690cb7f36e5e6ac6a8336016d9d75fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:26 +0000
Subject: [PATCH 11/16] fix: arg_end: make room for at least one error

---
 src/arg_end.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arg_end.c b/src/arg_end.c
index f8c0cd8..6295d8c 100644
--- a/src/arg_end.c
+++ b/src/arg_end.c
@@ -79,6 +79,9 @@ struct arg_end* arg_end(int maxcount) {
     size_t nbytes;
     struct arg_end* result;
 
+    /* foolproof things by ensuring there is room to report an error */
+    maxcount = (maxcount < 1) ? 1 : maxcount;
+
     nbytes = sizeof(struct arg_end) + (size_t)maxcount * sizeof(int) /* storage for int error[maxcount] array*/
              + (size_t)maxcount * sizeof(void*)                      /* storage for void* parent[maxcount] array */
              + (size_t)maxcount * sizeof(char*);                     /* storage for char* argval[maxcount] array */
-- 
2.43.0


From 1f1923cbb02a5f4e9600a7ba39b57ca5f58906ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:26 +0000
Subject: [PATCH 12/16] fix: arg_date: a century (%C) counts from year 0, not
 from 1900

---
 src/arg_date.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 1977479..76e4370 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -402,9 +402,9 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
                     return (0);
 
                 if (split_year) {
-                    tm->tm_year = (tm->tm_year % 100) + (i * 100);
+                    tm->tm_year = (tm->tm_year % 100) + (i * 100) - TM_YEAR_BASE;
                 } else {
-                    tm->tm_year = i * 100;
+                    tm->tm_year = i * 100 - TM_YEAR_BASE;
                     split_year = 1;
                 }
                 break;
-- 
2.43.0


From 30b3e868c653ce571ac6bf47e0f20dc77e020352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:01 +0000
Subject: [PATCH 13/16] fix: count an empty long option name that other names
 follow

---
 src/argtable3.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index ae1920b..fc3c990 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -134,7 +134,9 @@ static struct longoptions* alloc_longoptions(struct arg_hdr** table) {
         longoptlen += (longopts ? strlen(longopts) : 0) + 1;
         while (longopts) {
             noptions++;
-            longopts = strchr(longopts + 1, ',');
+            longopts = strchr(longopts, ',');
+            if (longopts)
+                longopts++;
         }
     } while (!(table[tabindex++]->flag & ARG_TERMINATOR));
     /*printf("%d long options consuming %d chars in total\n",noptions,longoptlen);*/
-- 
2.43.0


From 69bd959e2cf056b83bcc8d5562a7be9564ccf165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:47 +0000
Subject: [PATCH 14/16] fix: show the example date in the error message of a
 date option

arg_strptime() does not know %F, so the example was never parsed and the
message showed the format filled with zeros (1900-01-00).
---
 src/arg_date.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 76e4370..08d3710 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -103,7 +103,7 @@ static void arg_date_errorfn(struct arg_date* parent, arg_dstr_t ds, int errorco
 
             arg_dstr_catf(ds, "illegal timestamp format \"%s\"\n", argval);
             memset(&tm, 0, sizeof(tm));
-            arg_strptime("1999-12-31 23:59:59", "%F %H:%M:%S", &tm);
+            arg_strptime("1999-12-31 23:59:59", "%Y-%m-%d %H:%M:%S", &tm);
             strftime(buff, sizeof(buff), parent->format, &tm);
             arg_dstr_catf(ds, "correct format is \"%s\"\n", buff);
             break;
-- 
2.43.0


From ee80f3e2e8d44f12c6fd68a910bc9332b09384d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:47 +0000
Subject: [PATCH 15/16] fix: do not print an indeterminate buffer for a long
 date format

strftime() returns 0 and leaves the buffer indeterminate when the result
does not fit.
---
 src/arg_date.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 08d3710..000b21d 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -104,7 +104,8 @@ static void arg_date_errorfn(struct arg_date* parent, arg_dstr_t ds, int errorco
             arg_dstr_catf(ds, "illegal timestamp format \"%s\"\n", argval);
             memset(&tm, 0, sizeof(tm));
             arg_strptime("1999-12-31 23:59:59", "%Y-%m-%d %H:%M:%S", &tm);
-            strftime(buff, sizeof(buff), parent->format, &tm);
+            if (strftime(buff, sizeof(buff), parent->format, &tm) == 0)
+                buff[0] = '\0'; /* the contents are indeterminate */
             arg_dstr_catf(ds, "correct format is \"%s\"\n", buff);
             break;
         }
-- 
2.43.0


From 02bc7625f4866e252a6f4807de0c92eeb42ea0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:02 +0000
Subject: [PATCH 16/16] fix: a command may be registered again with its own
 texts

arg_cmd_register released the old command before it read the name and the
description it was given, which may be those of the old command.
---
 src/arg_cmd.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/arg_cmd.c b/src/arg_cmd.c
index a58e871..10b608b 100644
--- a/src/arg_cmd.c
+++ b/src/arg_cmd.c
@@ -137,15 +137,6 @@ void arg_cmd_register(const char* name, arg_cmdfn* proc, const char* description
     assert(strlen(name) < ARG_CMD_NAME_LEN);
     assert(strlen(description) < ARG_CMD_DESCRIPTION_LEN);
 
-    /* Check if the command already exists. */
-    /* If the command exists, replace the existing command. */
-    /* If the command doesn't exist, insert the command. */
-    cmd_info = (arg_cmd_info_t*)arg_hashtable_search(s_hashtable, name);
-    if (cmd_info) {
-        arg_hashtable_remove(s_hashtable, name);
-        cmd_info = NULL;
-    }
-
     cmd_info = (arg_cmd_info_t*)xmalloc(sizeof(arg_cmd_info_t));
     memset(cmd_info, 0, sizeof(arg_cmd_info_t));
 
@@ -170,6 +161,12 @@ void arg_cmd_register(const char* name, arg_cmdfn* proc, const char* description
     memcpy((char*)k, name, slen_name);
 #endif
 
+    /* If the command exists, replace the existing command. */
+    /* If the command doesn't exist, insert the command. */
+    /* The old command goes last: 'name' and 'description' may belong to it. */
+    if (arg_hashtable_search(s_hashtable, k) != NULL)
+        arg_hashtable_remove(s_hashtable, k);
+
     arg_hashtable_insert(s_hashtable, k, cmd_info);
 }
 
-- 
2.43.0

