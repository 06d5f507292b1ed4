From 20a44ffc9cb5e6b8710cae0a729393e978760598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 001/106] fix: pick the most recently introduced entry
 restriction in effect

The difference of two versions does not say how far apart they are, so with
restrictions introduced at 1.0 and 1.5 the one from 1.0 applied at 2.0.
---
 lib/context_restriction.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index b5e6680..3f9c5ad 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1264,9 +1264,8 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     struct disir_restriction **q;
     int min = -1;
     int max = -1;
-    int min_closes_match = INT_MIN;
-    int max_closes_match = INT_MIN;
-    int diff;
+    struct disir_version *min_introduced = NULL;
+    struct disir_version *max_introduced = NULL;
     struct disir_version *element_introduced = NULL;
     struct disir_version *element_deprecated = NULL;
 
@@ -1358,24 +1357,26 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
         if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN ||
             entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX)
         {
-            // XXX: This is severely flawed - the diff does not indicate
-            // how great of a version difference
-            diff = dc_version_compare  (&entry->re_introduced, version);
             // entry is newer than target version
-            if (diff > 0)
+            if (dc_version_compare (&entry->re_introduced, version) > 0)
             {
                 entry = entry->next;
                 continue;
             }
 
-            if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN && diff > min_closes_match)
+            // The most recently introduced entry is the one in effect
+            if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN &&
+                (min_introduced == NULL ||
+                 dc_version_compare (&entry->re_introduced, min_introduced) > 0))
             {
-                min_closes_match = diff;
+                min_introduced = &entry->re_introduced;
                 min = entry->re_value_min;
             }
-            else if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX && diff > max_closes_match)
+            else if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX &&
+                     (max_introduced == NULL ||
+                      dc_version_compare (&entry->re_introduced, max_introduced) > 0))
             {
-                max_closes_match = diff;
+                max_introduced = &entry->re_introduced;
                 max = entry->re_value_max;
             }
         }
-- 
2.43.0


From a6704ab7bc68447d853b620657e5477945d3e533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 002/106] fix: a zero minimum without a maximum keeps the
 default maximum

The raising of the maximum to the minimum ran before the default of one was
applied, so a minimum of zero alone gave a maximum of zero: unlimited.
---
 lib/context_restriction.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 3f9c5ad..6110d39 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1382,22 +1382,22 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
         }
     });
 
+    // Mimimum entries is 1.
+    if (min == -1)
+    {
+        min = 1;
+    }
+
     // Set max.
     // Maximum default is 1.
     // if minimum is set, and the active maximum is lower, it will equal the minimum.
-    if (max != 0 && max < min)
-    {
-        max = min;
-    }
     if (max == -1)
     {
         max = 1;
     }
-
-    // Mimimum entries is 1.
-    if (min == -1)
+    if (max != 0 && max < min)
     {
-        min = 1;
+        max = min;
     }
 
     // If the current element we are comparing was introduced after our target version,
-- 
2.43.0


From c11c152c373496f72a899d6927e55f279a4c3746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:46 +0000
Subject: [PATCH 003/106] fix: a deprecated entry restriction no longer applies

Value restrictions stop applying at the version they are deprecated; entry
restrictions went on limiting every later version.
---
 lib/context_restriction.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 6110d39..385dc13 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1364,6 +1364,14 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
                 continue;
             }
 
+            // entry no longer applies at target version
+            if ((entry->re_deprecated.sv_major != 0 || entry->re_deprecated.sv_minor != 0) &&
+                dc_version_compare (&entry->re_deprecated, version) <= 0)
+            {
+                entry = entry->next;
+                continue;
+            }
+
             // The most recently introduced entry is the one in effect
             if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN &&
                 (min_introduced == NULL ||
-- 
2.43.0


From 37aecb5f0de14303f0e2177c73882c6ebdc25f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:49 +0000
Subject: [PATCH 004/106] fix: compare versions without subtracting unsigned
 numbers

The difference wraps around: 65535.0 compared greater than 2540459911.0.
---
 lib/util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 7a98834..14929f9 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -91,9 +91,9 @@ dc_version_compare (struct disir_version *s1, struct disir_version *s2)
 
     res = 0;
 
-    res = s1->sv_major - s2->sv_major;
+    res = (s1->sv_major > s2->sv_major) - (s1->sv_major < s2->sv_major);
     if (res == 0)
-        res = s1->sv_minor - s2->sv_minor;
+        res = (s1->sv_minor > s2->sv_minor) - (s1->sv_minor < s2->sv_minor);
 
     log_debug (8, "s1 (%u.%u) vs s2 (%u.%u) res (%d)",
                     s1->sv_major, s1->sv_minor,
-- 
2.43.0


From 09e165298ffc9ecc4684ebed6810040ca6313f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:33 +0000
Subject: [PATCH 005/106] fix: refuse version numbers that are negative or do
 not fit

4294967296.0 was converted to 0.0 and -1.0 to 4294967295.0.
---
 lib/util.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/util.c b/lib/util.c
index 14929f9..79fded9 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -3,6 +3,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <limits.h>
+#include <stdint.h>
 
 // Public disir interface
 #include <disir/disir.h>
@@ -147,6 +148,11 @@ dc_version_convert (const char *input, struct disir_version *version)
         log_debug (6, "missing period seperator after major");
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    if (parsed_integer < 0 || parsed_integer > UINT32_MAX)
+    {
+        log_debug (6, "major out of range");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     version->sv_major = parsed_integer;
 
     // Get minor version
@@ -158,6 +164,11 @@ dc_version_convert (const char *input, struct disir_version *version)
         log_debug (6, "no int parsed");
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    if (parsed_integer < 0 || parsed_integer > UINT32_MAX)
+    {
+        log_debug (6, "minor out of range");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     version->sv_minor = parsed_integer;
 
     return DISIR_STATUS_OK;
-- 
2.43.0


From 314b90a66e7c90292445f74635c5e100bfdca69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 006/106] fix: keep value strings owned, whatever their size
 and type

---
 lib/context.c               |  3 +-
 lib/context_default.c       |  6 +--
 lib/context_documentation.c |  3 +-
 lib/context_keyval.c        | 12 +-----
 lib/context_section.c       |  5 +--
 lib/context_util.c          |  2 +-
 lib/context_value.c         | 10 ++---
 lib/include/value.h         |  8 ++++
 lib/util.c                  | 84 +++++++++++++++++++++++++------------
 9 files changed, 79 insertions(+), 54 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 4c0a95d..2cb90ee 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -932,7 +932,8 @@ dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t val
     else if (dc_context_type (context) == DISIR_CONTEXT_KEYVAL)
     {
         context->cx_keyval->kv_mold_equiv = queried;
-        context->cx_keyval->kv_value.dv_type = queried->cx_keyval->kv_value.dv_type;
+        dx_value_set_type (&context->cx_keyval->kv_value,
+                           queried->cx_keyval->kv_value.dv_type);
     }
 
     dx_context_incref (queried);
diff --git a/lib/context_default.c b/lib/context_default.c
index d7ae0a0..18db275 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -145,11 +145,7 @@ dx_default_destroy (struct disir_default **def)
 
     tmp = *def;
 
-    if (tmp->de_value.dv_type == DISIR_VALUE_TYPE_STRING ||
-        tmp->de_value.dv_size > 0)
-    {
-        free (tmp->de_value.dv_string);
-    }
+    dx_value_release (&tmp->de_value);
 
     context = tmp->de_context;
     if (context && context->cx_parent_context)
diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 8a26350..659c94d 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -392,8 +392,7 @@ dx_documentation_destroy (struct disir_documentation **documentation)
     tmp = *documentation;
     queue = NULL;
 
-    if (tmp->dd_value.dv_size > 0)
-        free(tmp->dd_value.dv_string);
+    dx_value_release (&tmp->dd_value);
 
     context = (*documentation)->dd_context;
     if (context && context->cx_parent_context)
diff --git a/lib/context_keyval.c b/lib/context_keyval.c
index fbc7240..1a3e1e6 100644
--- a/lib/context_keyval.c
+++ b/lib/context_keyval.c
@@ -386,18 +386,10 @@ dx_keyval_destroy (struct disir_keyval **keyval)
     }
 
     // Free allocated name
-    if ((*keyval)->kv_name.dv_size != 0)
-    {
-        free ((*keyval)->kv_name.dv_string);
-    }
+    dx_value_release (&(*keyval)->kv_name);
 
     // Free allocated value, if string or enum
-    if (((*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_STRING
-        || (*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_ENUM)
-           && (*keyval)->kv_value.dv_size != 0)
-    {
-        free ((*keyval)->kv_value.dv_string);
-    }
+    dx_value_release (&(*keyval)->kv_value);
 
     // Decref mold_equiv if set
     if ((*keyval)->kv_mold_equiv)
diff --git a/lib/context_section.c b/lib/context_section.c
index a0de3b5..578c459 100644
--- a/lib/context_section.c
+++ b/lib/context_section.c
@@ -189,10 +189,7 @@ dx_section_destroy (struct disir_section **section)
     }
 
     // Free allocated name
-    if ((*section)->se_name.dv_size != 0)
-    {
-        free ((*section)->se_name.dv_string);
-    }
+    dx_value_release (&(*section)->se_name);
 
     // Decref mold_equiv if set
     if ((*section)->se_mold_equiv)
diff --git a/lib/context_util.c b/lib/context_util.c
index caf6a22..498928e 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -486,7 +486,7 @@ dc_set_value_type (struct disir_context *context, enum disir_value_type type)
     {
         //TODO XXX: Cannot set type if keyval has defaults
         //TODO XXX: Cannot set type if toplevel context is not DISIR_MOLD
-        context->cx_keyval->kv_value.dv_type = type;
+        dx_value_set_type (&context->cx_keyval->kv_value, type);
         break;
     }
     default:
diff --git a/lib/context_value.c b/lib/context_value.c
index f1d0cfa..c40f297 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -111,8 +111,8 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
         // (Makes a correction in the type previously sat wrongfully (on purpose) below.)
         if (context->cx_keyval->kv_mold_equiv)
         {
-            context->cx_keyval->kv_value.dv_type
-                = context->cx_keyval->kv_mold_equiv->cx_keyval->kv_value.dv_type;
+            dx_value_set_type (&context->cx_keyval->kv_value,
+                               context->cx_keyval->kv_mold_equiv->cx_keyval->kv_value.dv_type);
         }
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_DEFAULT)
@@ -173,7 +173,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                 // context error message already set by set_name
                 status = DISIR_STATUS_INVALID_CONTEXT;
                 // Set storage type to mirror input
-                (*storage)->dv_type = type;
+                dx_value_set_type (*storage, type);
             }
             // Use-case 3
             // set_name has been called and succeed, but wrong type assigned.
@@ -186,7 +186,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                                       dx_value_type_string (type),
                                       dx_value_type_string ((*storage)->dv_type));
                 // Set storage type to mirror input
-                (*storage)->dv_type = type;
+                dx_value_set_type (*storage, type);
             }
         }
         // Use-case 4
@@ -194,7 +194,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                  context->CONTEXT_STATE_INVALID)
         {
             // Set storage type to mirror input
-            (*storage)->dv_type = type;
+            dx_value_set_type (*storage, type);
             status = DISIR_STATUS_INVALID_CONTEXT;
         }
         else if (context->CONTEXT_STATE_FINALIZED)
diff --git a/lib/include/value.h b/lib/include/value.h
index f107637..ff95b41 100644
--- a/lib/include/value.h
+++ b/lib/include/value.h
@@ -185,6 +185,14 @@ dx_value_set_float (struct disir_value *value, double input_double);
 enum disir_status
 dx_value_get_float (struct disir_value *value, double *output_double);
 
+//! \brief Change the type of `value`, releasing the string it holds if it no longer holds one.
+void
+dx_value_set_type (struct disir_value *value, enum disir_value_type type);
+
+//! \brief Release the memory held by `value`.
+void
+dx_value_release (struct disir_value *value);
+
 
 #endif // _LIBDISIR_PRIVATE_VALUE_H
 
diff --git a/lib/util.c b/lib/util.c
index 79fded9..6c02f1f 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -431,6 +431,8 @@ dx_value_get_float (struct disir_value *value, double *output_double)
 enum disir_status
 dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
 {
+    char *copy;
+
     if (value == NULL)
     {
         log_debug (0, "invoked with NULL value pointer.");
@@ -445,47 +447,77 @@ dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
     }
     if (input == NULL)
     {
-        if (value->dv_size > 0)
-        {
-            free (value->dv_string);
-        }
+        free (value->dv_string);
         value->dv_size = 0;
         value->dv_string = NULL;
         return DISIR_STATUS_OK;
     }
-
-    if (value->dv_string == NULL || value->dv_size - 1 < size)
+    if (size < 0)
     {
-        // Just free the existing memory. We allocate a larger one below
-        if (value->dv_size - 1 < size)
-        {
-            free (value->dv_string);
-            value->dv_string = NULL;
-        }
+        log_debug (0, "invoked with negative string size (%d)", size);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
 
-        // Size of requested string + 1 for NULL terminator
-        value->dv_string = calloc (1, size + 1);
-        if (value->dv_string == NULL)
-        {
-            log_error ("failed to allocate sufficient memory for value string (%d)",
-                       size + 1);
-            return DISIR_STATUS_NO_MEMORY;
-        }
+    // Size of requested string + 1 for NULL terminator
+    // Copy before the old string is released: the input may be that very string.
+    copy = calloc (1, (size_t) size + 1);
+    if (copy == NULL)
+    {
+        log_error ("failed to allocate sufficient memory for value string (%d)", size);
+        return DISIR_STATUS_NO_MEMORY;
     }
+    memcpy (copy, input, size);
 
-    // Copy the incoming docstring to freely available space
-    memcpy (value->dv_string, input, size);
+    free (value->dv_string);
+    value->dv_string = copy;
     value->dv_size = size;
 
-    // Terminate it with a zero terminator. Just to be safe.
-    value->dv_string[size] = '\0';
-
     log_debug (5, "stored string in disir_value (%p) of size (%d): %s\n",
-               value, value->dv_size, value->dv_string);
+               value, (int) value->dv_size, value->dv_string);
 
     return DISIR_STATUS_OK;
 }
 
+//! STATIC API
+static int
+value_holds_string (struct disir_value *value)
+{
+    return value->dv_type == DISIR_VALUE_TYPE_STRING || value->dv_type == DISIR_VALUE_TYPE_ENUM;
+}
+
+//! INTERNAL API
+void
+dx_value_set_type (struct disir_value *value, enum disir_value_type type)
+{
+    int held_string;
+
+    held_string = value_holds_string (value);
+    if (held_string && type != DISIR_VALUE_TYPE_STRING && type != DISIR_VALUE_TYPE_ENUM)
+    {
+        dx_value_release (value);
+        value->dv_integer = 0;
+    }
+
+    value->dv_type = type;
+    if (held_string == 0 && value_holds_string (value))
+    {
+        value->dv_string = NULL;
+        value->dv_size = 0;
+    }
+}
+
+//! INTERNAL API
+void
+dx_value_release (struct disir_value *value)
+{
+    if (value_holds_string (value))
+    {
+        free (value->dv_string);
+        value->dv_string = NULL;
+        value->dv_size = 0;
+    }
+}
+
 //! INTERNAL API
 enum disir_status
 dx_value_get_string (struct disir_value *value, const char **output, int32_t *size)
-- 
2.43.0


From d3a3f2eafbf47c69bd0c01666333877b482f0f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 007/106] fix: compare and print values without overflow

---
 lib/util.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 6c02f1f..2c59515 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -182,6 +182,13 @@ dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
     enum disir_status status;
     int32_t size;
 
+    if (output_buffer_size <= 0)
+    {
+        log_debug (0, "invoked with insufficient buffer size (%d)", output_buffer_size);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
+    size = 0;
     status = DISIR_STATUS_OK;
     switch (value->dv_type)
     {
@@ -200,8 +207,11 @@ dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
             log_debug (3, "Insufficient buffer provided - decrementing output size by one");
         }
 
-        memcpy (output, value->dv_string, copy_size);
-        output[size] = '\0';
+        if (copy_size > 0)
+        {
+            memcpy (output, value->dv_string, copy_size);
+        }
+        output[copy_size] = '\0';
         break;
     }
     case DISIR_VALUE_TYPE_INTEGER:
@@ -241,21 +251,20 @@ dx_value_compare (struct disir_value *v1, struct disir_value *v2)
     if (v1->dv_type != v2->dv_type)
         return (INT_MIN);
 
-    if (v1->dv_size != v2->dv_size)
-        return (v1->dv_size - v2->dv_size);
-
-    // FIXME: There is probably some parts of this
-    //  compare that is sustainable to underflow/overflow..
     switch (dx_value_type_sanify (v1->dv_type))
     {
     case DISIR_VALUE_TYPE_ENUM:
         // FALL-THROUGH
     case DISIR_VALUE_TYPE_STRING:
+        if (v1->dv_size != v2->dv_size)
+            return (v1->dv_size > v2->dv_size ? 1 : -1);
+        if (v1->dv_size == 0)
+            return 0;
         return memcmp (v1->dv_string, v2->dv_string, v1->dv_size);
     case DISIR_VALUE_TYPE_INTEGER:
-        return (v1->dv_integer - v2->dv_integer);
+        return (v1->dv_integer > v2->dv_integer) - (v1->dv_integer < v2->dv_integer);
     case DISIR_VALUE_TYPE_FLOAT:
-        return (int)(v1->dv_float - v2->dv_float);
+        return (v1->dv_float > v2->dv_float) - (v1->dv_float < v2->dv_float);
     case DISIR_VALUE_TYPE_BOOLEAN:
         return (v1->dv_boolean - v2->dv_boolean);
     default:
-- 
2.43.0


From aa6f8c379805530d8322988d92c401472b36339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 008/106] fix: a refused finalize gives back the kept reference

---
 lib/context.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/context.c b/lib/context.c
index 2cb90ee..8f343dc 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -435,8 +435,9 @@ dc_finalize_keep_reference (struct disir_context *context)
     }
 
     status = dc_finalize (&tmp);
-    if (status == DISIR_STATUS_INVALID_CONTEXT && tmp)
+    if (tmp)
     {
+        // The reference was not given to the parent:
         // decref - we have an additional reference acquired above
         dx_context_decref (&context);
     }
-- 
2.43.0


From ffe0add711898ec78f17941edb6133b4cdb3e25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 009/106] fix: refuse operations on destroyed and orphaned
 contexts

---
 lib/context_restriction.c |  5 +++--
 lib/context_util.c        | 38 +++++++++++++++++++++++++++++++++-----
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 385dc13..56f055d 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -37,14 +37,15 @@ const char *disir_restriction_strings[] = {
 const char *
 dc_restriction_enum_string (enum disir_restriction_type restriction)
 {
-    return disir_restriction_strings[restriction];
+    return disir_restriction_strings[dx_restriction_type_sanify (restriction)];
 }
 
 //! PUBLIC API
 const char *
 dc_restriction_context_string (struct disir_context *context)
 {
-    if (context == NULL || dc_context_type (context) != DISIR_CONTEXT_RESTRICTION)
+    if (context == NULL || context->CONTEXT_STATE_DESTROYED ||
+        dc_context_type (context) != DISIR_CONTEXT_RESTRICTION)
     {
         return disir_restriction_strings[0];
     }
diff --git a/lib/context_util.c b/lib/context_util.c
index 498928e..dab3cbb 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -79,7 +79,7 @@ dc_value_type (struct disir_context *context)
     enum disir_value_type value_type;
     enum disir_context_type context_type;
 
-    if (context == NULL)
+    if (context == NULL || context->CONTEXT_STATE_DESTROYED)
     {
         return DISIR_VALUE_TYPE_UNKNOWN;
     }
@@ -273,6 +273,8 @@ dx_context_transfer_logwarn (struct disir_context *destination, struct disir_con
 enum disir_status
 dx_context_sp_full_check_log_error (struct disir_context *context, const char *function_name)
 {
+    struct disir_context *ancestor;
+
     // Check argument
     if (context == NULL)
     {
@@ -287,9 +289,29 @@ dx_context_sp_full_check_log_error (struct disir_context *context, const char *f
         return DISIR_STATUS_DESTROYED_CONTEXT;
     }
 
+    // A child still under construction outlives the parent it can no longer be added to.
+    // Every live context holds a reference to its parent.
+    for (ancestor = context->cx_parent_context;
+         ancestor != NULL;
+         ancestor = ancestor->cx_parent_context)
+    {
+        if (ancestor->CONTEXT_STATE_DESTROYED)
+        {
+            dx_log_context (context, "%s() invoked on %s whose ancestor %s is destroyed",
+                            function_name, dc_context_type_string (context),
+                            dc_context_type_string (ancestor));
+            return DISIR_STATUS_DESTROYED_CONTEXT;
+        }
+        if (ancestor->cx_parent_context == ancestor)
+        {
+            break;
+        }
+    }
+
     if (dx_context_type_sanify(context->cx_type) == DISIR_CONTEXT_UNKNOWN)
     {
-        dx_log_context (context, "%s() invoked on unknown context( %d )", context->cx_type);
+        dx_log_context (context, "%s() invoked on unknown context( %d )",
+                        function_name, context->cx_type);
         return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
     }
 
@@ -332,6 +354,11 @@ dx_context_type_check_log_error (struct disir_context *context, ...)
     variadic_list_length = 0;
     status = DISIR_STATUS_OK;
     variadic_type = DISIR_CONTEXT_UNKNOWN;
+    if (context == NULL)
+    {
+        log_debug (0, "type check invoked with context NULL pointer");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     context_type = dx_context_type_sanify (context->cx_type);
 
     // Check if the passed context matches any of the context types
@@ -446,7 +473,7 @@ dx_context_type_check_log_error (struct disir_context *context, ...)
         // Do we have anything to write?
         if (buffer != buf)
         {
-            log_error (buffer);
+            log_error ("%s", buffer);
         }
     }
 
@@ -491,8 +518,9 @@ dc_set_value_type (struct disir_context *context, enum disir_value_type type)
     }
     default:
     {
-        dx_crash_and_burn ("%s: %s not handled", __func__, dc_context_type_string (context));
-        return DISIR_STATUS_INTERNAL_ERROR; // not reached
+        dx_context_error_set (context, "cannot set value type on %s",
+                              dc_context_type_string (context));
+        return DISIR_STATUS_WRONG_CONTEXT;
     }
     }
 
-- 
2.43.0


From 0793c990fa5800e20e6de6eb130f28cdd892e642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 010/106] fix: destroying a finalized element releases its
 parent's references

---
 lib/context.c         | 76 +++++++++++++++++++++++++++++++++++++++++++
 lib/context_config.c  | 22 +------------
 lib/context_mold.c    | 21 +-----------
 lib/context_section.c | 20 +-----------
 4 files changed, 79 insertions(+), 60 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 8f343dc..f6d5d83 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -16,6 +16,8 @@
 #include "keyval.h"
 #include "log.h"
 #include "mold.h"
+#include "mqueue.h"
+#include "documentation.h"
 #include "restriction.h"
 
 static enum disir_status
@@ -94,13 +96,82 @@ context_get_deprecated_structure (struct disir_context *context,
     return DISIR_STATUS_OK;
 }
 
+//! STATIC API
+//! Remove a default, documentation or restriction from the queue of its parent,
+//! along with the reference it was given upon finalize.
+static void
+context_remove_from_queue (struct disir_context *context)
+{
+    struct disir_context *parent = context->cx_parent_context;
+    struct disir_default **defaults = NULL;
+    struct disir_restriction **restrictions = NULL;
+    struct disir_documentation **documentation = NULL;
+    int removed = 0;
+
+    if (parent == NULL || parent->CONTEXT_STATE_DESTROYED)
+    {
+        return;
+    }
+
+    switch (dc_context_type (parent))
+    {
+    case DISIR_CONTEXT_MOLD:
+        documentation = &parent->cx_mold->mo_documentation_queue;
+        break;
+    case DISIR_CONTEXT_SECTION:
+        documentation = &parent->cx_section->se_documentation_queue;
+        restrictions = &parent->cx_section->se_restrictions_queue;
+        break;
+    case DISIR_CONTEXT_KEYVAL:
+        documentation = &parent->cx_keyval->kv_documentation_queue;
+        restrictions = &parent->cx_keyval->kv_restrictions_queue;
+        defaults = &parent->cx_keyval->kv_default_queue;
+        break;
+    case DISIR_CONTEXT_RESTRICTION:
+        documentation = &parent->cx_restriction->re_documentation_queue;
+        break;
+    default:
+        return;
+    }
+
+    switch (dc_context_type (context))
+    {
+    case DISIR_CONTEXT_DEFAULT:
+        removed = defaults && MQ_REMOVE_SAFE (*defaults, context->cx_default);
+        break;
+    case DISIR_CONTEXT_RESTRICTION:
+        removed = restrictions && MQ_REMOVE_SAFE (*restrictions, context->cx_restriction);
+        break;
+    case DISIR_CONTEXT_DOCUMENTATION:
+        removed = documentation && MQ_REMOVE_SAFE (*documentation, context->cx_documentation);
+        break;
+    default:
+        break;
+    }
+
+    if (removed)
+    {
+        context->CONTEXT_STATE_IN_PARENT = 0;
+        dx_context_decref (&context);
+    }
+}
+
 //! STATIC API
 static void
 context_remove_from_parent (struct disir_context **context)
 {
     struct disir_element_storage *storage = NULL;
+    struct disir_context *parent_reference;
     const char *name = NULL;
 
+    if (dc_context_type (*context) == DISIR_CONTEXT_DEFAULT ||
+        dc_context_type (*context) == DISIR_CONTEXT_RESTRICTION ||
+        dc_context_type (*context) == DISIR_CONTEXT_DOCUMENTATION)
+    {
+        context_remove_from_queue (*context);
+        return;
+    }
+
     // Remove from parent, if applicable
     if ((*context)->CONTEXT_STATE_IN_PARENT == 0)
     {
@@ -165,6 +236,11 @@ context_remove_from_parent (struct disir_context **context)
     {
         log_debug(8, "Removing '%s' from parent storage", name);
         dx_element_storage_remove (storage, name, *context);
+
+        // The parent also holds the reference it was given upon finalize.
+        (*context)->CONTEXT_STATE_IN_PARENT = 0;
+        parent_reference = *context;
+        dx_context_decref (&parent_reference);
     }
 }
 
diff --git a/lib/context_config.c b/lib/context_config.c
index 1d44acd..6397ac4 100644
--- a/lib/context_config.c
+++ b/lib/context_config.c
@@ -166,33 +166,13 @@ error:
 enum disir_status
 dx_config_destroy (struct disir_config **config)
 {
-    enum disir_status status;
-    struct disir_context *context;
-    struct disir_collection *collection;
-
     if (config == NULL || *config == NULL)
         return DISIR_STATUS_INVALID_ARGUMENT;
 
     // Remove our reference to the mold
     disir_mold_finished (&(*config)->cf_mold);
 
-    // Destroy all element_storage children
-    status = dx_element_storage_get_all ((*config)->cf_elements, &collection);
-    if (status == DISIR_STATUS_OK)
-    {
-        while (dx_collection_next_noncoalesce (collection, &context) != DISIR_STATUS_EXHAUSTED)
-        {
-            dx_context_decref (&context);
-            dc_putcontext (&context);
-        }
-        dc_collection_finished (&collection);
-    }
-    else
-    {
-        log_warn ("failed to get_all from internal element storage: %s",
-                  disir_status_string (status));
-    }
-
+    // Destroy all element_storage children, along with the storage
     dx_element_storage_destroy (&(*config)->cf_elements);
 
     free (*config);
diff --git a/lib/context_mold.c b/lib/context_mold.c
index 09cbb2d..95b63ba 100644
--- a/lib/context_mold.c
+++ b/lib/context_mold.c
@@ -157,10 +157,8 @@ error:
 enum disir_status
 dx_mold_destroy (struct disir_mold **mold)
 {
-    enum disir_status status;
     struct disir_context *context;
     struct disir_documentation *doc;
-    struct disir_collection *collection;
 
     if (mold == NULL || *mold == NULL)
     {
@@ -168,24 +166,7 @@ dx_mold_destroy (struct disir_mold **mold)
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-    // Destroy all element_storage children
-    status = dx_element_storage_get_all ((*mold)->mo_elements, &collection);
-    if (status == DISIR_STATUS_OK)
-    {
-        while (dx_collection_next_noncoalesce (collection, &context) != DISIR_STATUS_EXHAUSTED)
-        {
-            dx_context_decref (&context);
-            dc_putcontext (&context);
-        }
-        dc_collection_finished (&collection);
-    }
-    else
-    {
-        log_warn ("failed to get_all from internal element storage: %s",
-                  disir_status_string (status));
-    }
-
-    // Destroy element storage in the mold.
+    // Destroy element storage in the mold, along with all its children.
     dx_element_storage_destroy (&(*mold)->mo_elements);
 
     // Destroy the documentation associated with the mold.
diff --git a/lib/context_section.c b/lib/context_section.c
index 578c459..2c86200 100644
--- a/lib/context_section.c
+++ b/lib/context_section.c
@@ -177,10 +177,8 @@ error:
 enum disir_status
 dx_section_destroy (struct disir_section **section)
 {
-    enum disir_status status;
     struct disir_context *context;
     struct disir_documentation *doc;
-    struct disir_collection *collection;
     struct disir_restriction *restriction;
 
     if (section == NULL || *section == NULL)
@@ -205,23 +203,7 @@ dx_section_destroy (struct disir_section **section)
         dc_destroy (&context);
     }
 
-    // Destroy all element_storage children
-    status = dx_element_storage_get_all ((*section)->se_elements, &collection);
-    if (status == DISIR_STATUS_OK)
-    {
-        while (dx_collection_next_noncoalesce (collection, &context) != DISIR_STATUS_EXHAUSTED)
-        {
-            dx_context_decref (&context);
-            dc_putcontext (&context);
-        }
-        dc_collection_finished (&collection);
-    }
-    else
-    {
-        log_warn ("failed to get_all from internal element storage: %s",
-                  disir_status_string (status));
-    }
-
+    // Destroy all element_storage children, along with the storage
     dx_element_storage_destroy (&(*section)->se_elements);
 
     // Destroy all restrictions
-- 
2.43.0


From f772607997c81f67a08d6956b3601bd2912504cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 011/106] fix: keep the queues of a live parent free of
 destroyed entries

---
 lib/context_default.c       | 2 +-
 lib/context_documentation.c | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/context_default.c b/lib/context_default.c
index 18db275..503f6a1 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -151,7 +151,7 @@ dx_default_destroy (struct disir_default **def)
     if (context && context->cx_parent_context)
     {
         // Don't access parent context type if context is destoyed
-        if (context->cx_parent_context->CONTEXT_STATE_DESTROYED != 0)
+        if (context->cx_parent_context->CONTEXT_STATE_DESTROYED == 0)
         {
             if (dc_context_type (context->cx_parent_context) == DISIR_CONTEXT_KEYVAL)
             {
diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 659c94d..148cd8e 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -395,7 +395,9 @@ dx_documentation_destroy (struct disir_documentation **documentation)
     dx_value_release (&tmp->dd_value);
 
     context = (*documentation)->dd_context;
-    if (context && context->cx_parent_context)
+    // Don't access the parent object if parent is destroyed
+    if (context && context->cx_parent_context &&
+        context->cx_parent_context->CONTEXT_STATE_DESTROYED == 0)
     {
         context = context->cx_parent_context;
 
@@ -424,8 +426,8 @@ dx_documentation_destroy (struct disir_documentation **documentation)
         default:
         {
             log_fatal ("%s - context (%p) parent (%p) type '%s' not handled.",
-                       __func__, context, context->cx_parent_context,
-                       dc_context_type_string (context->cx_parent_context));
+                       __func__, (*documentation)->dd_context, context,
+                       dc_context_type_string (context));
         }
         }
 
-- 
2.43.0


From 56450af98563ba87a8da9ba501f6a3f52a04fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 012/106] fix: finalize adds a context to its parent at most
 once

---
 lib/context.c               |  8 ++++++++
 lib/context_default.c       | 10 +++++++++-
 lib/context_documentation.c |  2 +-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index f6d5d83..002ca35 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -415,6 +415,14 @@ dc_finalize (struct disir_context **context)
         return DISIR_STATUS_WRONG_CONTEXT;
     }
 
+    // Already added to its parent
+    if ((*context)->CONTEXT_STATE_FINALIZED)
+    {
+        dx_log_context (*context, "Cannot finalize %s more than once.",
+                        dc_context_type_string (*context));
+        return DISIR_STATUS_EXISTS;
+    }
+
     // Call finalize on the actual context type
     switch (dx_context_type_sanify ((*context)->cx_type))
     {
diff --git a/lib/context_default.c b/lib/context_default.c
index 503f6a1..368adcd 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -109,7 +109,15 @@ dx_default_finalize (struct disir_context *default_context)
     MQ_ENQUEUE_CONDITIONAL (*queue, def,
         (dc_version_compare (&entry->de_introduced, &def->de_introduced) > 0));
 
-    return dx_validate_context (default_context);
+    status = dx_validate_context (default_context);
+    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
+    {
+        // Refused by its finalized parent: the reference stays with the caller.
+        MQ_REMOVE_SAFE (*queue, def);
+        default_context->CONTEXT_STATE_IN_PARENT = 0;
+    }
+
+    return status;
 }
 
 //! INTERNAL API
diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 148cd8e..b9ef372 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -182,7 +182,7 @@ dc_add_documentation (struct disir_context *parent, const char *doc, int32_t doc
         return status;
     }
 
-    status = dx_documentation_finalize (context);
+    status = dc_finalize (&context);
     if (status != DISIR_STATUS_OK)
     {
         dx_context_transfer_logwarn (parent, context);
-- 
2.43.0


From 278c246d64de2d07fbd86b7badb5313173c550f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 013/106] fix: report missing mold equivalents and defaults
 instead of crashing

---
 lib/context.c               |  4 ++++
 lib/context_default.c       | 20 +++++++++++++++++-
 lib/context_documentation.c |  3 +--
 lib/context_restriction.c   | 42 +++++++++++++++++++++++++++++++++++++
 4 files changed, 66 insertions(+), 3 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 002ca35..083f46e 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -928,6 +928,10 @@ dx_get_mold_equiv_type (struct disir_context *parent,
     }
     else if (dc_context_type (parent) == DISIR_CONTEXT_SECTION)
     {
+        if (parent->cx_section->se_mold_equiv == NULL)
+        {
+            return DISIR_STATUS_NOT_EXIST;
+        }
         storage = parent->cx_section->se_mold_equiv->cx_section->se_elements;
     }
     else
diff --git a/lib/context_default.c b/lib/context_default.c
index 368adcd..a250eef 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -547,6 +547,12 @@ dc_get_default (struct disir_context *context, struct disir_version *version,
             return DISIR_STATUS_INTERNAL_ERROR;
         }
 
+        if (keyval == NULL)
+        {
+            dx_context_error_set (context, "cannot get default on KEYVAL without a MOLD");
+            return DISIR_STATUS_MOLD_MISSING;
+        }
+
         dx_default_get_active (keyval, version, &def);
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_DEFAULT)
@@ -560,6 +566,12 @@ dc_get_default (struct disir_context *context, struct disir_version *version,
         return DISIR_STATUS_INTERNAL_ERROR;
     }
 
+    if (def == NULL)
+    {
+        dx_context_error_set (context, "KEYVAL has no default");
+        return DISIR_STATUS_DEFAULT_MISSING;
+    }
+
     value = &def->de_value;
     return dx_value_stringify (value, output_buffer_size, output, output_string_size);
 }
@@ -577,6 +589,11 @@ dc_get_default_contexts (struct disir_context *context, struct disir_collection
         // Already logged
         return status;
     }
+    if (collection == NULL)
+    {
+        log_debug (0, "invoked with NULL collection pointer.");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     status = CONTEXT_TYPE_CHECK (context, DISIR_CONTEXT_KEYVAL);
     if (status != DISIR_STATUS_OK)
     {
@@ -619,7 +636,8 @@ dx_default_get_active (struct disir_context *keyval, struct disir_version *versi
 {
     struct disir_default *current;
 
-    if (keyval->cx_keyval->kv_default_queue == NULL)
+    if (keyval == NULL || keyval->CONTEXT_STATE_DESTROYED ||
+        keyval->cx_keyval->kv_default_queue == NULL)
     {
         // We cant really do anything - everything is empty.
         current = NULL;
diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index b9ef372..3f39804 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -89,7 +89,7 @@ dx_documentation_add (struct disir_context *parent, struct disir_documentation *
     {
         dx_log_context (parent,
             "already contains a documentation entry with semantic version: %s",
-            dc_version_string (buffer, 40, &doc->dd_introduced));
+            dc_version_string (buffer, 32, &doc->dd_introduced));
         status = DISIR_STATUS_CONFLICTING_SEMVER;
     }
     else
@@ -207,7 +207,6 @@ dc_get_documentation (struct disir_context *context, struct disir_version *versi
         return status;
     }
     status = CONTEXT_TYPE_CHECK (context, DISIR_CONTEXT_KEYVAL,
-                                          DISIR_CONTEXT_CONFIG,
                                           DISIR_CONTEXT_SECTION,
                                           DISIR_CONTEXT_RESTRICTION,
                                           DISIR_CONTEXT_MOLD);
diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 56f055d..bc739cb 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -102,6 +102,29 @@ dx_restriction_type_sanify (enum disir_restriction_type type)
     return type;
 }
 
+//! STATIC API
+//! The restrictions of a config element are those of its mold equivalent.
+static enum disir_status
+restriction_mold_equiv_check (struct disir_context *context)
+{
+    struct disir_context *equiv = NULL;
+
+    if (dc_context_type (context->cx_root_context) != DISIR_CONTEXT_CONFIG)
+    {
+        return DISIR_STATUS_OK;
+    }
+
+    dx_get_mold_equiv (context, &equiv);
+    if (equiv == NULL || equiv->CONTEXT_STATE_DESTROYED)
+    {
+        dx_context_error_set (context, "%s is missing mold equivalent entry.",
+                              dc_context_type_string (context));
+        return DISIR_STATUS_MOLD_MISSING;
+    }
+
+    return DISIR_STATUS_OK;
+}
+
 //! INTERNAL API
 //! Only called from dc_begin
 enum disir_status
@@ -1270,7 +1293,21 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     struct disir_version *element_introduced = NULL;
     struct disir_version *element_deprecated = NULL;
 
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        return status;
+    }
+    if (output == NULL)
+    {
+        log_debug (0, "invoked with output NULL pointer.");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     status = CONTEXT_TYPE_CHECK (context, DISIR_CONTEXT_SECTION, DISIR_CONTEXT_KEYVAL);
+    if (status != DISIR_STATUS_OK)
+        return status;
+    status = restriction_mold_equiv_check (context);
     if (status != DISIR_STATUS_OK)
         return status;
 
@@ -1482,6 +1519,11 @@ dc_restriction_collection (struct disir_context *context, struct disir_collectio
     {
         return status;
     }
+    status = restriction_mold_equiv_check (context);
+    if (status != DISIR_STATUS_OK)
+    {
+        return status;
+    }
 
     // Get inclusive queue from context
     switch (dc_context_type (context))
-- 
2.43.0


From 5da6c60cf27d933abcebddbb6f613dc7dbb53318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 014/106] fix: setting a name again releases and re-keys what
 the old name held

---
 lib/context.c                 | 159 +++++++++++++++++++++++++++-------
 lib/element_storage.c         |  53 +++++++++++-
 lib/include/element_storage.h |  12 +++
 3 files changed, 190 insertions(+), 34 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 083f46e..53ce3e4 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -585,6 +585,32 @@ dc_context_valid (struct disir_context *context)
     return status;
 }
 
+static enum disir_status
+find_mold_equiv (struct disir_context *context, const char *value, int32_t value_size,
+                 struct disir_context **equiv);
+static void
+assign_mold_equiv (struct disir_context *context, struct disir_context *queried);
+
+//! STATIC API
+//! The element storage a KEYVAL or SECTION is kept in by its parent.
+static struct disir_element_storage *
+context_parent_storage (struct disir_context *context)
+{
+    struct disir_context *parent = context->cx_parent_context;
+
+    switch (dc_context_type (parent))
+    {
+    case DISIR_CONTEXT_CONFIG:
+        return parent->cx_config->cf_elements;
+    case DISIR_CONTEXT_MOLD:
+        return parent->cx_mold->mo_elements;
+    case DISIR_CONTEXT_SECTION:
+        return parent->cx_section->se_elements;
+    default:
+        return NULL;
+    }
+}
+
 //! PUBLIC API
 enum disir_status
 dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
@@ -594,12 +620,16 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
     int max;
     int current_entries_count;
     struct disir_collection *collection;
+    struct disir_context *equiv;
+    struct disir_value *name_value;
+    char *key;
 
     collection = NULL;
+    equiv = NULL;
     max = 0;
     invalid = DISIR_STATUS_OK;
 
-    TRACE_ENTER ("context (%p), name (%s), name_size (%d)", context, name, name_size);
+    TRACE_ENTER ("context (%p), name (%p), name_size (%d)", context, name, name_size);
 
     status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
     if (status != DISIR_STATUS_OK)
@@ -614,34 +644,56 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         return status;
     }
 
+    if (name == NULL || name_size < 0)
+    {
+        log_debug (0, "invoked with name (%p) of size (%d).", name, name_size);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
+    name_value = (dc_context_type (context) == DISIR_CONTEXT_KEYVAL
+                    ? &context->cx_keyval->kv_name : &context->cx_section->se_name);
+
+    // The name is not necessarily terminated at its size.
+    key = strndup (name, name_size);
+    if (key == NULL)
+    {
+        return DISIR_STATUS_NO_MEMORY;
+    }
+
     // Find the name in the mold
     if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
     {
-        invalid = dx_set_mold_equiv (context, name, name_size);
+        invalid = find_mold_equiv (context, key, name_size, &equiv);
         if (invalid != DISIR_STATUS_OK && invalid != DISIR_STATUS_NOT_EXIST)
         {
+            free (key);
             return invalid;
         }
-        // If NOT EXIST, let it through and set name but mark context as invalid
-        if (invalid == DISIR_STATUS_NOT_EXIST)
-        {
-            context->CONTEXT_STATE_INVALID = 1;
-        }
-
         // Restriction check: Dis-allow operation if parent is finalized and max restriction exceeded
-        if (invalid == DISIR_STATUS_OK && context->cx_parent_context->CONTEXT_STATE_FINALIZED)
+        if (invalid == DISIR_STATUS_OK && context->cx_parent_context->CONTEXT_STATE_FINALIZED &&
+            !(context->CONTEXT_STATE_IN_PARENT && strcmp (name_value->dv_string, key) == 0))
         {
             // check if number of elements in parent exceed size of restriction
-            dx_restriction_entries_value (context, DISIR_RESTRICTION_INC_ENTRY_MAX, NULL, &max);
-            dc_find_elements (context->cx_parent_context, name, &collection);
-            current_entries_count = dc_collection_size (collection);
-            dc_collection_finished (&collection);
+            dx_restriction_entries_value (equiv, DISIR_RESTRICTION_INC_ENTRY_MAX,
+                                          &context->cx_root_context->cx_config->cf_version, &max);
+            current_entries_count = 0;
+            if (dc_find_elements (context->cx_parent_context,
+                                  key, &collection) == DISIR_STATUS_OK)
+            {
+                current_entries_count = dc_collection_size (collection);
+                dc_collection_finished (&collection);
+            }
 
             log_debug (4, "Maximum restriction for entry '%s' = %d (currently at %d",
-                          name, max, current_entries_count);
+                          key, max, current_entries_count);
             if (max != 0 && max <= current_entries_count)
             {
                 dx_context_error_set (context, "maximum instances of %d exceeded", max);
+                if (name_value->dv_string == NULL)
+                {
+                    assign_mold_equiv (context, equiv);
+                }
+                free (key);
                 return DISIR_STATUS_RESTRICTION_VIOLATED;
             }
         }
@@ -649,24 +701,29 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
 
     // QUESTION: Do not allow setting name on finalized context? Only if not invalid
 
-    if (dc_context_type (context) == DISIR_CONTEXT_KEYVAL)
+    // The parent finds its element under the new name
+    if (context->CONTEXT_STATE_IN_PARENT)
     {
-        status = dx_value_set_string (&context->cx_keyval->kv_name, name, name_size);
+        status = dx_element_storage_rename (context_parent_storage (context),
+                                            name_value->dv_string, key, context);
     }
-    else if (dc_context_type (context) == DISIR_CONTEXT_SECTION)
+    if (status == DISIR_STATUS_OK)
     {
-        status = dx_value_set_string (&context->cx_section->se_name, name, name_size);
+        status = dx_value_set_string (name_value, key, strlen (key));
     }
-    else
+    if (status == DISIR_STATUS_OK &&
+        dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
     {
-        log_fatal_context (context, "slipped through guard - unsupported.");
-        return DISIR_STATUS_INTERNAL_ERROR;
+        // If NOT EXIST, let it through and set name but mark context as invalid
+        if (invalid == DISIR_STATUS_NOT_EXIST)
+        {
+            context->CONTEXT_STATE_INVALID = 1;
+        }
+        assign_mold_equiv (context, equiv);
     }
 
     status = (status == DISIR_STATUS_OK ? invalid : status);
-
-    // TODO:  if context is not in constructing mode (it has been finalized once)
-    // remove old name from parent storage and add it under the new name.
+    free (key);
 
     TRACE_EXIT ("status: %s", disir_status_string (status));
     return status;
@@ -955,9 +1012,11 @@ dx_get_mold_equiv_type (struct disir_context *parent,
     return DISIR_STATUS_OK;
 }
 
-//! INTERNAL API
-enum disir_status
-dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t value_size)
+//! STATIC API
+//! Find the mold equivalent of the context named by value, without assigning it.
+static enum disir_status
+find_mold_equiv (struct disir_context *context, const char *value, int32_t value_size,
+                 struct disir_context **equiv)
 {
     enum disir_status status;
     struct disir_context *queried;
@@ -1014,20 +1073,58 @@ dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t val
         return DISIR_STATUS_WRONG_CONTEXT;
     }
 
+    *equiv = queried;
+    return DISIR_STATUS_OK;
+}
+
+//! STATIC API
+//! Assign the mold equivalent (NULL for none), releasing the one assigned before.
+static void
+assign_mold_equiv (struct disir_context *context, struct disir_context *queried)
+{
+    struct disir_context *previous = NULL;
+
+    if (queried)
+    {
+        dx_context_incref (queried);
+    }
+
     if (dc_context_type (context) == DISIR_CONTEXT_SECTION)
     {
+        previous = context->cx_section->se_mold_equiv;
         context->cx_section->se_mold_equiv = queried;
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_KEYVAL)
     {
+        previous = context->cx_keyval->kv_mold_equiv;
         context->cx_keyval->kv_mold_equiv = queried;
-        dx_value_set_type (&context->cx_keyval->kv_value,
-                           queried->cx_keyval->kv_value.dv_type);
+        if (queried)
+        {
+            dx_value_set_type (&context->cx_keyval->kv_value,
+                               queried->cx_keyval->kv_value.dv_type);
+        }
     }
 
-    dx_context_incref (queried);
+    if (previous)
+    {
+        dx_context_decref (&previous);
+    }
+}
 
-    return DISIR_STATUS_OK;
+//! INTERNAL API
+enum disir_status
+dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t value_size)
+{
+    enum disir_status status;
+    struct disir_context *queried = NULL;
+
+    status = find_mold_equiv (context, value, value_size, &queried);
+    if (status == DISIR_STATUS_OK)
+    {
+        assign_mold_equiv (context, queried);
+    }
+
+    return status;
 }
 
 //! PUBLIC API
diff --git a/lib/element_storage.c b/lib/element_storage.c
index 1d342d3..09048e9 100644
--- a/lib/element_storage.c
+++ b/lib/element_storage.c
@@ -189,6 +189,10 @@ dx_element_storage_add (struct disir_element_storage *storage,
         // key in, so we can safely access the key memory even if the appointed context
         // is destroyed whilst in our storage.
         key = malloc (strlen (name) + 1); // XXX: Is there a more safe way to allocate this memory?
+        if (key == NULL)
+        {
+            return DISIR_STATUS_NO_MEMORY;
+        }
         memcpy(key, name, strlen (name) + 1);
     }
 
@@ -223,8 +227,8 @@ dx_element_storage_add (struct disir_element_storage *storage,
 list_error:
     multimap_remove_value (storage->es_map,
         (keys_in_map ? name : key),
-        free, // Free's the allocated memory above, if removing last element with this key name.
-        NULL);
+        NULL, // The key allocated above is freed below.
+        context);
 
 map_error:
     if (keys_in_map == 0)
@@ -251,6 +255,43 @@ dx_element_storage_remove (struct disir_element_storage *storage,
     return DISIR_STATUS_OK;
 }
 
+//! INTERNAL API
+enum disir_status
+dx_element_storage_rename (struct disir_element_storage *storage, const char *old_name,
+                           const char *new_name, struct disir_context *context)
+{
+    int res;
+    char *key = NULL;
+
+    if (storage == NULL || old_name == NULL || new_name == NULL || context == NULL)
+    {
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+    if (strcmp (old_name, new_name) == 0)
+    {
+        return DISIR_STATUS_OK;
+    }
+
+    if (multimap_contains_key (storage->es_map, new_name) == 0)
+    {
+        key = strdup (new_name);
+        if (key == NULL)
+        {
+            return DISIR_STATUS_NO_MEMORY;
+        }
+    }
+
+    res = multimap_push_value (storage->es_map, (key ? key : new_name), context);
+    if (res != 0)
+    {
+        free (key);
+        return (res == (-ENOMEM) ? DISIR_STATUS_NO_MEMORY : DISIR_STATUS_EXISTS);
+    }
+
+    multimap_remove_value (storage->es_map, old_name, free, context);
+    return DISIR_STATUS_OK;
+}
+
 enum disir_status
 dx_element_storage_get (struct disir_element_storage *storage,
                         const char * const name,
@@ -261,13 +302,19 @@ dx_element_storage_get (struct disir_element_storage *storage,
     struct disir_collection *col;
     struct multimap_value_iterator *iter;
 
+    if (name == NULL || collection == NULL)
+    {
+        log_debug (0, "invoked with NULL pointer(s) (name %p, collection %p)", name, collection);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     iter = multimap_fetch (storage->es_map, name);
     if (iter == NULL)
     {
         return DISIR_STATUS_NOT_EXIST;
     }
     col = dc_collection_create ();
-    if (collection == NULL)
+    if (col == NULL)
     {
         status = DISIR_STATUS_NO_MEMORY;
         goto error;
diff --git a/lib/include/element_storage.h b/lib/include/element_storage.h
index 8198694..56c88c7 100644
--- a/lib/include/element_storage.h
+++ b/lib/include/element_storage.h
@@ -64,6 +64,18 @@ dx_element_storage_remove (struct disir_element_storage *storage,
                            const char * const name,
                            struct disir_context *context);
 
+//! \brief Store a context already in the element storage under a new name
+//!
+//! The context keeps its position among all the elements.
+//!
+//! \return DISIR_STATUS_INVALID_ARGUMENT on NULL pointers.
+//! \return DISIR_STATUS_NO_MEMORY on allocation failure.
+//! \return DISIR_STATUS_OK on success.
+//!
+enum disir_status
+dx_element_storage_rename (struct disir_element_storage *storage, const char *old_name,
+                           const char *new_name, struct disir_context *context);
+
 //! \brief Query the element storage for its elmenets matching name
 //!
 //! \param storage Element storage to query entries from
-- 
2.43.0


From f02a08279b19442d7bd6b22dc6bab1160c4e0e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 015/106] fix: set enum values from text and refuse NULL text
 instead of crashing

---
 lib/context_value.c | 13 +++++++++----
 lib/util.c          |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index c40f297..c64ed71 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -230,6 +230,12 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
         // Already logged
         goto error;
     }
+    if (value == NULL)
+    {
+        log_debug (0, "invoked with value NULL pointer.");
+        status = DISIR_STATUS_INVALID_ARGUMENT;
+        goto error;
+    }
 
     status = CONTEXT_TYPE_CHECK (context, DISIR_CONTEXT_KEYVAL);
     if (status != DISIR_STATUS_OK)
@@ -315,8 +321,7 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
     }
     case DISIR_VALUE_TYPE_ENUM:
     {
-        // TODO: Implement dc_set_value enum
-        dx_crash_and_burn ("dc_set_value ENUM NOT HANDLED!");
+        status = dc_set_value_enum (context, value, value_size);
         break;
     }
     case DISIR_VALUE_TYPE_UNKNOWN:
@@ -398,7 +403,7 @@ dc_set_value_string (struct disir_context *context, const char *value, int32_t v
     enum disir_status invalid;
     struct disir_value *value_storage;
 
-    TRACE_ENTER ("context  (%p) value (%s) value_size (%d)", context, value, value_size);
+    TRACE_ENTER ("context  (%p) value (%p) value_size (%d)", context, value, value_size);
 
     invalid = set_value_input_check (context, DISIR_VALUE_TYPE_STRING, &value_storage);
     if (invalid != DISIR_STATUS_OK && invalid != DISIR_STATUS_INVALID_CONTEXT)
@@ -806,7 +811,7 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
     enum disir_status invalid;
     struct disir_value *value_storage;
 
-    TRACE_ENTER ("context: %p, value: %s, value_size: %d", context, value, value_size);
+    TRACE_ENTER ("context: %p, value: %p, value_size: %d", context, value, value_size);
 
     invalid = set_value_input_check (context, DISIR_VALUE_TYPE_ENUM, &value_storage);
     if (invalid != DISIR_STATUS_OK && invalid != DISIR_STATUS_INVALID_CONTEXT)
diff --git a/lib/util.c b/lib/util.c
index 2c59515..5f28603 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -293,8 +293,8 @@ dx_value_copy (struct disir_value *destination, struct disir_value *source)
         return dx_value_set_boolean (destination, source->dv_boolean);
         break;
     case DISIR_VALUE_TYPE_UNKNOWN:
-        dx_crash_and_burn ("%s unhandled", __func__);
-        break;
+        log_debug (0, "invoked with source of unknown value type.");
+        return DISIR_STATUS_WRONG_VALUE_TYPE;
     }
 
     // Never reached
-- 
2.43.0


From f01e6a76e8875a47b1d2d308e1d317ae1dca36f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 016/106] fix: check values against restrictions without
 overflow or missing text

---
 lib/context_restriction.c | 134 +++++++++++++++++++++++++++++++-------
 1 file changed, 109 insertions(+), 25 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index bc739cb..3cb4e4a 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -79,6 +79,11 @@ dc_restriction_string_to_enum (const char *string)
 {
     int i;
 
+    if (string == NULL)
+    {
+        return DISIR_RESTRICTION_UNKNOWN;
+    }
+
     for (i = 1; i < DISIR_RESTRICTION_UNKNOWN; i++)
     {
         if (strcmp (string, disir_restriction_strings[i]) == 0)
@@ -102,6 +107,71 @@ dx_restriction_type_sanify (enum disir_restriction_type type)
     return type;
 }
 
+//! STATIC API
+//! Discard the fractional part. Numbers outside the integer range have none.
+static double
+restriction_integral (double value)
+{
+    if (value >= -9223372036854775808.0 && value < 9223372036854775808.0)
+    {
+        return (int64_t) value;
+    }
+
+    return value;
+}
+
+//! STATIC API
+//! The number of entries a restriction asks for, which does not have to fit an int.
+static int
+restriction_entries (double value)
+{
+    if (value >= INT_MAX)
+    {
+        return INT_MAX;
+    }
+    if (value <= INT_MIN)
+    {
+        return INT_MIN;
+    }
+
+    return (value == value ? (int) value : -1);
+}
+
+//! STATIC API
+//! Compare an integer with a number, where not every integer has an equal double.
+//! \return -1, 0, 1 as integer is lower, equal or higher, 2 when unordered.
+static int
+restriction_compare_integer (int64_t integer, double number)
+{
+    int64_t whole;
+
+    if (number != number)
+        return 2;
+    if (number >= 9223372036854775808.0)
+        return -1;
+    if (number < -9223372036854775808.0)
+        return 1;
+
+    whole = (int64_t) number;
+    if (integer != whole)
+        return (integer < whole ? -1 : 1);
+
+    return ((double) whole < number) ? -1 : ((double) whole > number);
+}
+
+//! STATIC API
+//! Compare the checked value of a KEYVAL with a number of its restriction.
+static int
+restriction_compare (enum disir_value_type type, int64_t integer, double value, double number)
+{
+    if (type == DISIR_VALUE_TYPE_INTEGER)
+        return restriction_compare_integer (integer, number);
+    if (value != value || number != number)
+        return 2;
+
+    return (value > number) - (value < number);
+}
+
 //! STATIC API
 //! The restrictions of a config element are those of its mold equivalent.
 static enum disir_status
@@ -553,8 +623,8 @@ dc_restriction_set_range (struct disir_context *context, double min, double max)
         // Store restriction value based on keyval type (integer vs float)
         if (dc_value_type (context->cx_parent_context) == DISIR_VALUE_TYPE_INTEGER)
         {
-            context->cx_restriction->re_value_min = (int64_t) min;
-            context->cx_restriction->re_value_max = (int64_t) max;
+            context->cx_restriction->re_value_min = restriction_integral (min);
+            context->cx_restriction->re_value_max = restriction_integral (max);
         }
         else
         {
@@ -642,7 +712,7 @@ dc_restriction_set_numeric (struct disir_context *context, double value)
     // XXX if set_numeric is used by entries_max/min, this doesnt make much sense....
     if (dc_value_type (context->cx_parent_context) == DISIR_VALUE_TYPE_INTEGER)
     {
-        value = (int64_t) value;
+        value = restriction_integral (value);
     }
 
     switch (context->cx_restriction->re_type)
@@ -1052,9 +1122,9 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
     struct disir_version *config_version;
     int exclusive_fulfilled = 0;
     int restriction_entries_inactive = 0;
-    double value;
+    double value = 0;
 
-    char allowed_values[RESTRICTION_ENTRIES_BUFFER_SIZE];
+    char allowed_values[RESTRICTION_ENTRIES_BUFFER_SIZE] = "";
     int allowed_written;
 
     status = DISIR_STATUS_OK;
@@ -1091,6 +1161,12 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
     }
     }
 
+    status = restriction_mold_equiv_check (context);
+    if (status != DISIR_STATUS_OK)
+    {
+        return status;
+    }
+
     queue = &context->cx_keyval->kv_mold_equiv->cx_keyval->kv_restrictions_queue;
     config_version = &context->cx_root_context->cx_config->cf_version;
 
@@ -1136,9 +1212,9 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
             {
                 allowed_written += snprintf (allowed_values + allowed_written,
                                              RESTRICTION_ENTRIES_BUFFER_SIZE - allowed_written,
-                                             "[%lld, %lld], ",
-                                             (long long int)entry->re_value_min,
-                                             (long long int)entry->re_value_max);
+                                             "[%.0f, %.0f], ",
+                                             entry->re_value_min,
+                                             entry->re_value_max);
             }
             else if (dc_value_type (context) == DISIR_VALUE_TYPE_FLOAT)
             {
@@ -1149,12 +1225,16 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
             }
             if (allowed_written >= RESTRICTION_ENTRIES_BUFFER_SIZE)
             {
-                // Set the written property to the size of the buffer, dis-allowing any
+                // Set the written property to the terminator of the buffer, dis-allowing any
                 // further writes.
-                allowed_written = RESTRICTION_ENTRIES_BUFFER_SIZE;
+                allowed_written = RESTRICTION_ENTRIES_BUFFER_SIZE - 1;
             }
 
-            if (value >= entry->re_value_min && value <= entry->re_value_max)
+            int above_min = restriction_compare (dc_value_type (context), integer_value, value,
+                                                 entry->re_value_min);
+            int below_max = restriction_compare (dc_value_type (context), integer_value, value,
+                                                 entry->re_value_max);
+            if ((above_min == 0 || above_min == 1) && (below_max == 0 || below_max == -1))
             {
                 log_debug (8, "Exclusive restriction %s(%p) fulfilled. (Value (%f) == [%f, %f])",
                               dc_restriction_enum_string (entry->re_type), entry,
@@ -1171,7 +1251,7 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
             {
                 allowed_written += snprintf (allowed_values + allowed_written,
                                              RESTRICTION_ENTRIES_BUFFER_SIZE - allowed_written,
-                                             "%lld, ", (long long int)entry->re_value_numeric);
+                                             "%.0f, ", entry->re_value_numeric);
             }
             else if (dc_value_type (context) == DISIR_VALUE_TYPE_FLOAT)
             {
@@ -1181,12 +1261,13 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
             }
             if (allowed_written >= RESTRICTION_ENTRIES_BUFFER_SIZE)
             {
-                // Set the written property to the size of the buffer, dis-allowing any
+                // Set the written property to the terminator of the buffer, dis-allowing any
                 // further writes.
-                allowed_written = RESTRICTION_ENTRIES_BUFFER_SIZE;
+                allowed_written = RESTRICTION_ENTRIES_BUFFER_SIZE - 1;
             }
 
-            if (value == entry->re_value_numeric)
+            if (restriction_compare (dc_value_type (context), integer_value, value,
+                                     entry->re_value_numeric) == 0)
             {
                 log_debug (6, "Exclusive restriction %s(%p) fufilled. (Value (%f) == %f)",
                               dc_restriction_enum_string (entry->re_type), entry,
@@ -1198,23 +1279,25 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
         }
         case DISIR_RESTRICTION_EXC_VALUE_ENUM:
         {
-            log_debug (9, "value (%s) enum (%s)", string_value, entry->re_value_string);
+            const char *enum_string = (entry->re_value_string ? entry->re_value_string : "");
+            log_debug (9, "value (%s) enum (%s)", string_value, enum_string);
 
             allowed_written += snprintf (allowed_values + allowed_written,
                                          RESTRICTION_ENTRIES_BUFFER_SIZE - allowed_written,
-                                         "'%s', ", entry->re_value_string);
+                                         "'%s', ", enum_string);
             if (allowed_written >= RESTRICTION_ENTRIES_BUFFER_SIZE)
             {
-                // Set the written property to the size of the buffer, dis-allowing any
+                // Set the written property to the terminator of the buffer, dis-allowing any
                 // further writes.
-                allowed_written = RESTRICTION_ENTRIES_BUFFER_SIZE;
+                allowed_written = RESTRICTION_ENTRIES_BUFFER_SIZE - 1;
             }
 
-            if (strcmp (string_value, entry->re_value_string) == 0)
+            if (string_value && entry->re_value_string &&
+                strcmp (string_value, entry->re_value_string) == 0)
             {
                 // QUESTION: Check length aswell ?
                 log_debug (6, "Exclusive_restriction fulfilled (Value (%s) == %s)",
-                              string_value, entry->re_value_string);
+                              string_value, enum_string);
                 exclusive_fulfilled = 1;
             }
             break;
@@ -1229,7 +1312,7 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
     });
 
     // Strip the last ', ' from allowed_values buffer
-    if (allowed_written != 0)
+    if (allowed_written > 1 && allowed_written < RESTRICTION_ENTRIES_BUFFER_SIZE - 1)
     {
         allowed_values[allowed_written - 2] = '\0';
     }
@@ -1253,7 +1336,8 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
             break;
         case DISIR_VALUE_TYPE_ENUM:
             dx_context_error_set (context, "No exclusive restrictions fulfilled for value %s." \
-                                  " Must be one of: %s", string_value, allowed_values);
+                                  " Must be one of: %s",
+                                  (string_value ? string_value : ""), allowed_values);
             break;
         default:
             // Do not handle
@@ -1416,14 +1500,14 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
                  dc_version_compare (&entry->re_introduced, min_introduced) > 0))
             {
                 min_introduced = &entry->re_introduced;
-                min = entry->re_value_min;
+                min = restriction_entries (entry->re_value_min);
             }
             else if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX &&
                      (max_introduced == NULL ||
                       dc_version_compare (&entry->re_introduced, max_introduced) > 0))
             {
                 max_introduced = &entry->re_introduced;
-                max = entry->re_value_max;
+                max = restriction_entries (entry->re_value_max);
             }
         }
     });
-- 
2.43.0


From 8543ffe1ff36a3bb97660d718a2f1690eca372aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 017/106] fix: refuse missing names and texts, and validate
 within the buffers and objects at hand

---
 lib/context_keyval.c      |  9 +++++++++
 lib/context_restriction.c | 15 +++++++++++++--
 lib/context_value.c       | 15 ++++++++++++++-
 lib/validate.c            | 22 ++++++++++++++--------
 4 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/lib/context_keyval.c b/lib/context_keyval.c
index 1a3e1e6..933d3d1 100644
--- a/lib/context_keyval.c
+++ b/lib/context_keyval.c
@@ -157,6 +157,15 @@ add_keyval_generic (struct disir_context *parent, const char *name, const char *
 
     keyval = NULL;
 
+    if (name == NULL || doc == NULL ||
+        (string_input == NULL &&
+         (type == DISIR_VALUE_TYPE_ENUM || type == DISIR_VALUE_TYPE_STRING)))
+    {
+        log_debug (0, "invoked with NULL pointer(s) (name %p, doc %p, default %p)",
+                   name, doc, string_input);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     status = dc_begin (parent, DISIR_CONTEXT_KEYVAL, &keyval);
     if (status != DISIR_STATUS_OK)
     {
diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 3cb4e4a..0559fa6 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -330,6 +330,11 @@ dx_restriction_destroy (struct disir_restriction **restriction)
 
     queue = NULL;
 
+    if (restriction == NULL || *restriction == NULL)
+    {
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     tmp = *restriction;
     if (tmp->re_value_string)
     {
@@ -557,6 +562,7 @@ enum disir_status
 dc_restriction_set_string (struct disir_context *context, const char *value)
 {
     enum disir_status status;
+    char *copy;
 
     status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
     if (status != DISIR_STATUS_OK)
@@ -580,11 +586,16 @@ dc_restriction_set_string (struct disir_context *context, const char *value)
     {
     case DISIR_RESTRICTION_EXC_VALUE_ENUM:
     {
+        copy = strdup (value);
+        if (copy == NULL)
+        {
+            return DISIR_STATUS_NO_MEMORY;
+        }
         if (context->cx_restriction->re_value_string)
         {
             free (context->cx_restriction->re_value_string);
         }
-        context->cx_restriction->re_value_string = strdup (value);
+        context->cx_restriction->re_value_string = copy;
         break;
     }
     default:
@@ -968,7 +979,7 @@ dc_add_restriction_value_enum (struct disir_context *parent, const char *value,
     if (status != DISIR_STATUS_OK)
     {
         // Already logged ?
-        goto error;
+        return status;
     }
 
     status = dc_set_restriction_type (context_restriction, DISIR_RESTRICTION_EXC_VALUE_ENUM);
diff --git a/lib/context_value.c b/lib/context_value.c
index c64ed71..d7735b7 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -810,6 +810,7 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
     enum disir_status status;
     enum disir_status invalid;
     struct disir_value *value_storage;
+    char *checked = NULL;
 
     TRACE_ENTER ("context: %p, value: %p, value_size: %d", context, value, value_size);
 
@@ -821,9 +822,20 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
         goto out;
     }
 
+    // Check exactly what is stored: the value is not necessarily terminated at its size.
+    if (value != NULL && value_size >= 0)
+    {
+        checked = strndup (value, value_size);
+        if (checked == NULL)
+        {
+            status = DISIR_STATUS_NO_MEMORY;
+            goto out;
+        }
+    }
+
     if (invalid != DISIR_STATUS_INVALID_CONTEXT)
     {
-        invalid = dx_restriction_exclusive_value_check (context, 0, 0, value);
+        invalid = dx_restriction_exclusive_value_check (context, 0, 0, checked);
     }
 
      // Do not allow finalized context to change value
@@ -851,6 +863,7 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
 
     status = (status == DISIR_STATUS_OK ? invalid : status);
 out:
+    free (checked);
     TRACE_EXIT ("%s", disir_status_string (status));
     return status;
 }
diff --git a/lib/validate.c b/lib/validate.c
index 2ab0082..14d1b67 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -141,8 +141,7 @@ validate_inclusive_restrictions (struct disir_context *context)
             char buffer[50];
             dx_log_context (context,
                             "%s is not a valid element for version %s",
-                            name, dc_version_string(buffer, 50,
-                                                    &(context)->cx_config->cf_version));
+                            name, dc_version_string(buffer, 50, target_version));
             invalid = DISIR_STATUS_RESTRICTION_VIOLATED;
         }
         if (size > max && max > 0)
@@ -402,7 +401,7 @@ validate_config_keyval (struct disir_context *keyval)
     if (dc_value_type (mold_equiv) != dc_value_type (keyval))
     {
         dx_log_context (keyval, "Value type '%s' assigned. Expecting '%s'",
-                                dc_value_type_string (mold_equiv), dc_value_type_string (keyval));
+                                dc_value_type_string (keyval), dc_value_type_string (mold_equiv));
         return DISIR_STATUS_WRONG_VALUE_TYPE;
     }
 
@@ -454,8 +453,8 @@ validate_config_section (struct disir_context *section)
     if (dc_value_type (mold_equiv) != dc_value_type (section))
     {
         dx_log_context (section, "Value type '%s' assigned. Expecting '%s'",
-                                 dc_value_type_string (mold_equiv),
-                                 dc_value_type_string (section));
+                                 dc_value_type_string (section),
+                                 dc_value_type_string (mold_equiv));
         return DISIR_STATUS_WRONG_VALUE_TYPE;
     }
 
@@ -478,7 +477,7 @@ validate_restriction (struct disir_context *context)
     if (dx_restriction_type_sanify (res->re_type) == DISIR_RESTRICTION_UNKNOWN)
     {
        dx_log_context (context, "Missing type component for restriction.");
-       return DISIR_STATUS_INVALID_CONTEXT;
+       return DISIR_STATUS_WRONG_VALUE_TYPE;
     }
 
     // Validate that the restriction context got a valid type set (belongs to a group)
@@ -597,7 +596,7 @@ validate_context_validity (struct disir_context *context)
     {
     case DISIR_CONTEXT_CONFIG:
     {
-        char buffer[30];
+        char buffer[50];
         log_debug(2, "Validating CONFIG for version %s",
                      dc_version_string(buffer, 50, &(context)->cx_config->cf_version));
 
@@ -607,10 +606,17 @@ validate_context_validity (struct disir_context *context)
             // Something is horribly wrong - break out.
             break;
         }
+
+        status = validate_children (context);
+        // Update invalid with new state, if non were already present.
+        invalid = (invalid == DISIR_STATUS_OK ? status : invalid);
+        // Clear ELEMENTS_INVALID status if present - its not a fatal error to proagate
+        status = (status == DISIR_STATUS_ELEMENTS_INVALID ? DISIR_STATUS_OK : status);
+        break;
     }
     case DISIR_CONTEXT_MOLD:
     {
-        char buffer[30];
+        char buffer[50];
         log_debug(2, "Validating MOLD for version %s",
                      dc_version_string(buffer, 50, &(context)->cx_mold->mo_version));
         // TODO: Clear error reports
-- 
2.43.0


From 935be8e771ea739102f94573e01554cf5c82f536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 018/106] fix: resolve root names at any depth and of elements
 not in their parent

---
 lib/context.c | 102 +++++++++++++++++++++++++-------------------------
 1 file changed, 52 insertions(+), 50 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 53ce3e4..484bb69 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -798,13 +798,13 @@ enum disir_status
 dc_resolve_root_name (struct disir_context *context, char **output)
 {
     enum disir_status status;
-    int total_size = 0;
-    const char *reverse_name_index[20];
-    int reverse_name_index_index[20];
+    size_t total_size = 0;
+    int levels = 0;
+    const char **reverse_name_index = NULL;
+    int *reverse_name_index_index = NULL;
     int current_name_index = -1;
     struct disir_context *current_context = NULL;
     const char *name = NULL;
-    int32_t name_size;
     char *buffer;
 
     TRACE_ENTER ("context (%p) output (%p)", context, output);
@@ -826,77 +826,78 @@ dc_resolve_root_name (struct disir_context *context, char **output)
         goto out;
     }
 
+    // Every ancestor but the root context is part of the name
+    for (current_context = context;
+         current_context->cx_parent_context != NULL;
+         current_context = current_context->cx_parent_context)
+    {
+        levels += 1;
+    }
+
+    reverse_name_index = calloc (levels, sizeof (*reverse_name_index));
+    reverse_name_index_index = calloc (levels, sizeof (*reverse_name_index_index));
+    if (reverse_name_index == NULL || reverse_name_index_index == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto out;
+    }
+
     current_context = context;
-    while (current_context != NULL)
+    while (current_context->cx_parent_context != NULL)
     {
         current_name_index += 1;
-        reverse_name_index_index[current_name_index] = -1;
 
-        name_size = 0;
-        status = dc_get_name (current_context, &name, &name_size);
-        if (status != DISIR_STATUS_OK)
+        status = dc_get_name (current_context, &name, NULL);
+        if (status != DISIR_STATUS_OK || name == NULL)
         {
             name = "undefined";
-            name_size = 9;
-            reverse_name_index_index[current_name_index] = 0;
         }
-
-        // Add length of name, plus additional characters for separators and index
-        //  e.g., name@12.
-        total_size += name_size;
-        total_size += 10;
-
-        reverse_name_index[current_name_index] = name;
-        if (reverse_name_index_index[current_name_index] == -1)
+        else
         {
-            int i = -1;
-            struct disir_collection *collection;
-            struct disir_context *queried;
+            int i = 0;
+            struct disir_collection *collection = NULL;
+            struct disir_context *queried = NULL;
 
             status = dc_find_elements (current_context->cx_parent_context, name, &collection);
-            if (status != DISIR_STATUS_OK)
-                break;
+            if (status != DISIR_STATUS_OK && status != DISIR_STATUS_NOT_EXIST)
+                goto out;
 
-            do
+            // A context not (yet) found in its parent is indexed after those that are.
+            while (collection &&
+                   dc_collection_next (collection, &queried) == DISIR_STATUS_OK)
             {
-                status = dc_collection_next (collection, &queried);
-                if (status != DISIR_STATUS_OK && status != DISIR_STATUS_EXHAUSTED)
-                    break;
+                int found = (queried == current_context);
 
-                i += 1;
-                if (queried == current_context)
-                {
-                    reverse_name_index_index[current_name_index] = i;
-                    dc_putcontext (&queried);
-                    status = DISIR_STATUS_OK;
+                dc_putcontext (&queried);
+                if (found)
                     break;
-                }
 
-                dc_putcontext (&queried);
-            } while (1);
+                i += 1;
+            }
 
-            dc_collection_finished (&collection);
+            if (collection)
+                dc_collection_finished (&collection);
 
-            // The context is not found in the parent..
-            if (status != DISIR_STATUS_OK)
-            {
-                break;
-            }
+            reverse_name_index_index[current_name_index] = i;
         }
 
+        // Add length of name, plus additional characters for separators and index
+        //  e.g., name@12.
+        total_size += strlen (name);
+        total_size += 13;
+        reverse_name_index[current_name_index] = name;
+
         // Resolve parent name
         current_context = current_context->cx_parent_context;
-        // This is a root context - ignore it
-        if (current_context->cx_parent_context == NULL)
-        {
-            break;
-        }
     }
 
     // Allocate buffer for name
     buffer = malloc (total_size);
     if (buffer == NULL)
-        return DISIR_STATUS_NO_MEMORY;
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto out;
+    }
 
     int i;
     int written = 0;
@@ -921,10 +922,11 @@ dc_resolve_root_name (struct disir_context *context, char **output)
         }
     }
 
-
     *output = buffer;
     status = DISIR_STATUS_OK;
 out:
+    free (reverse_name_index);
+    free (reverse_name_index_index);
     TRACE_EXIT ("%s", disir_status_string (status));
     return status;
 }
-- 
2.43.0


From d64f7e90f8b2b660cd92e7a46f1fbd759686ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:51 +0000
Subject: [PATCH 019/106] fix: keep the previous error text when a new one
 cannot be stored

---
 lib/log.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/log.c b/lib/log.c
index 9db4576..1e48a37 100644
--- a/lib/log.c
+++ b/lib/log.c
@@ -214,6 +214,7 @@ dx_internal_log_to_storage (char **error_message, int32_t *error_message_size,
     int message_size;
     int res;
     char dummy[4];
+    char *message;
     va_list args_copy;
 
     // Make two instances of variadic arguments list
@@ -234,21 +235,22 @@ dx_internal_log_to_storage (char **error_message, int32_t *error_message_size,
     }
 
     // Allocate sufficiently large buffer, write message
-    if (*error_message_size < message_size + 1)
+    // The previous message may be part of the new one: only then is it released.
+    message = malloc (message_size + 1);
+    if (message == NULL)
     {
-        *error_message = realloc (*error_message, message_size + 1);
-        if (*error_message == NULL)
-        {
-            // What should we do!? Throw a tantrum!?
-            return;
-        }
-        *error_message_size = message_size + 1;
+        // What should we do!? Throw a tantrum!?
+        return;
     }
 
-    res = vsnprintf (*error_message, message_size + 1, fmt_message, args);
+    res = vsnprintf (message, message_size + 1, fmt_message, args);
 
     // Put a null terminator to it.
-    (*error_message)[message_size] = '\0';
+    message[message_size] = '\0';
+
+    free (*error_message);
+    *error_message = message;
+    *error_message_size = message_size + 1;
 
     if (res < 0 || res > message_size)
     {
-- 
2.43.0


From 51fe38162155dac71c3cbb0daf895c17d060fca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 020/106] fix: an update carries the customised values, in
 every section, to the new config

---
 lib/include/update_private.h |   3 +-
 lib/update.c                 | 355 ++++++++++++++++++++++++++++-------
 2 files changed, 293 insertions(+), 65 deletions(-)

diff --git a/lib/include/update_private.h b/lib/include/update_private.h
index 6aa28b4..9909bd5 100644
--- a/lib/include/update_private.h
+++ b/lib/include/update_private.h
@@ -6,7 +6,7 @@ struct disir_update
     //! Target version to upgrade config to
     struct disir_version        up_target;
     //! Config to upgrade
-    struct disir_config         *up_config_old;
+    struct disir_version        up_version_old;
     struct disir_config         *up_config_target;
 
     //! Current collection we're iterating
@@ -20,6 +20,7 @@ struct disir_update
     //! Conflict state - NULL when no conflict
     struct disir_keyval         *up_keyval;
     struct disir_context        *up_context_keyval;
+    char                        *up_name;
     char                        *up_config_value;
     char                        *up_mold_value;
 };
diff --git a/lib/update.c b/lib/update.c
index 7cf2c1b..28a1203 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -7,6 +7,7 @@
 #include <disir/context.h>
 
 #include "config.h"
+#include "context_private.h"
 #include "default.h"
 #include "section.h"
 #include "keyval.h"
@@ -32,6 +33,10 @@ retrieve_all_keyvals_recursively (struct disir_context *current, struct disir_co
     }
     case DISIR_CONTEXT_SECTION:
     {
+        // The section itself may be an instance the target does not have yet.
+        status = dc_collection_push_context (keyvals, current);
+        if (status != DISIR_STATUS_OK)
+            return status;
         elements = current->cx_section->se_elements;
         break;
     }
@@ -68,16 +73,182 @@ retrieve_all_keyvals_recursively (struct disir_context *current, struct disir_co
     if (context)
         dc_putcontext (&context);
 
+    return (status == DISIR_STATUS_EXHAUSTED ? DISIR_STATUS_OK : status);
+}
+
+//! STATIC FUNCTION
+//! Create the next instance of name in the (finalized) parent.
+static enum disir_status
+update_create_element (struct disir_context *parent, enum disir_context_type type,
+                       const char *name, int32_t size)
+{
+    enum disir_status status;
+    struct disir_context *context = NULL;
+
+    status = dc_begin (parent, type, &context);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
+    status = dc_set_name (context, name, size);
+    if (status == DISIR_STATUS_OK && type == DISIR_CONTEXT_KEYVAL)
+    {
+        status = dc_keyval_set_default (context,
+                                        &context->cx_root_context->cx_config->cf_version);
+    }
+    else if (status == DISIR_STATUS_OK)
+    {
+        status = dc_generate_from_config_root (context);
+    }
+    if (status == DISIR_STATUS_OK)
+    {
+        status = dc_finalize_keep_reference (context);
+    }
+    if (status != DISIR_STATUS_OK)
+    {
+        dc_destroy (&context);
+        return status;
+    }
+
+    return dc_putcontext (&context);
+}
+
+//! STATIC FUNCTION
+//! Find the element in the target config that corresponds to element in the config updated,
+//! creating it if needed.
+//!
+//! \return DISIR_STATUS_NOT_EXIST if the target version does not admit the element.
+//!
+static enum disir_status
+update_target_element (struct disir_update *update, struct disir_context *element,
+                       struct disir_context **out)
+{
+    enum disir_status status;
+    struct disir_context *parent = NULL;
+    struct disir_context *sibling = NULL;
+    struct disir_collection *collection = NULL;
+    const char *name;
+    int32_t size;
+    int index = 0;
+    int found = 0;
+
+    if (element->CONTEXT_STATE_DESTROYED)
+    {
+        return DISIR_STATUS_DESTROYED_CONTEXT;
+    }
+    if (dc_context_type (element) == DISIR_CONTEXT_CONFIG)
+    {
+        *out = update->up_config_target->cf_context;
+        dx_context_incref (*out);
+        return DISIR_STATUS_OK;
+    }
+
+    status = dc_get_name (element, &name, &size);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
+    status = dc_find_elements (element->cx_parent_context, name, &collection);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
+    while (found == 0 && dc_collection_next (collection, &sibling) == DISIR_STATUS_OK)
+    {
+        found = (sibling == element);
+        index += (found == 0);
+        dc_putcontext (&sibling);
+    }
+    dc_collection_finished (&collection);
+
+    status = update_target_element (update, element->cx_parent_context, &parent);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
+    status = dc_find_element (parent, name, index, out);
+    while (status == DISIR_STATUS_NOT_EXIST)
+    {
+        status = update_create_element (parent, dc_context_type (element), name, size);
+        if (status == DISIR_STATUS_RESTRICTION_VIOLATED || status == DISIR_STATUS_NOT_EXIST)
+        {
+            log_info ("element not admitted in target version: %s", name);
+            status = DISIR_STATUS_NOT_EXIST;
+            break;
+        }
+        if (status == DISIR_STATUS_OK)
+        {
+            status = dc_find_element (parent, name, index, out);
+        }
+    }
+
+    dc_putcontext (&parent);
     return status;
 }
 
+//! STATIC FUNCTION
+//! Set the value in the target config, if it is admitted there.
+static enum disir_status
+update_set_value (struct disir_context *target, struct disir_value *value)
+{
+    switch (value->dv_type)
+    {
+    case DISIR_VALUE_TYPE_ENUM:
+        return dc_set_value_enum (target, value->dv_string, value->dv_size);
+    case DISIR_VALUE_TYPE_STRING:
+        return dc_set_value_string (target, value->dv_string, value->dv_size);
+    case DISIR_VALUE_TYPE_BOOLEAN:
+        return dc_set_value_boolean (target, value->dv_boolean);
+    case DISIR_VALUE_TYPE_INTEGER:
+        return dc_set_value_integer (target, value->dv_integer);
+    case DISIR_VALUE_TYPE_FLOAT:
+        return dc_set_value_float (target, value->dv_float);
+    default:
+        return DISIR_STATUS_WRONG_VALUE_TYPE;
+    }
+}
+
+//! STATIC FUNCTION
+static char *
+update_value_string (struct disir_value *value)
+{
+    char *output;
+    int32_t size = 512;
+
+    // Every other type fits
+    if (value->dv_type == DISIR_VALUE_TYPE_STRING || value->dv_type == DISIR_VALUE_TYPE_ENUM)
+    {
+        size = value->dv_size + 1;
+    }
+
+    output = calloc (1, size);
+    if (output)
+    {
+        dx_value_stringify (value, size, output, &size);
+    }
+    return output;
+}
+
+//! STATIC FUNCTION
+static void
+update_conflict_clear (struct disir_update *update)
+{
+    update->up_keyval = NULL;
+    if (update->up_context_keyval)
+    {
+        dc_putcontext (&update->up_context_keyval);
+    }
+    free (update->up_name);
+    update->up_name = NULL;
+    free (update->up_config_value);
+    update->up_config_value = NULL;
+    free (update->up_mold_value);
+    update->up_mold_value = NULL;
+}
+
 //! PUBLIC API
 enum disir_status
 disir_update_config (struct disir_config *config,
                      struct disir_version *target, struct disir_update **update)
 {
     enum disir_status status;
-    struct disir_config *config_at_target;
+    struct disir_config *config_at_target = NULL;
     int res;
     char buffer[512];
     struct disir_update *up;
@@ -123,25 +294,34 @@ disir_update_config (struct disir_config *config,
     }
 
     status = disir_generate_config_from_mold (config->cf_mold, target, &config_at_target);
+    // The config is also populated if it is invalid
+    up->up_config_target = config_at_target;
     if (status != DISIR_STATUS_OK)
     {
         log_error ("failed to generate config from mold\n");
-        goto error;;
+        goto error;
     }
 
-    up->up_config_target = config_at_target;
-
     up->up_collection = dc_collection_create();
+    if (up->up_collection == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto error;
+    }
 
     status = retrieve_all_keyvals_recursively (config->cf_context, up->up_collection);
-    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_EXHAUSTED)
+    if (status != DISIR_STATUS_OK)
         goto error;
 
-    up->up_config_old = config;
+    dc_version_set (&up->up_version_old, &config->cf_version);
     dc_version_set (&up->up_target, target);
 
+    status = disir_update_continue (up);
+    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_CONFLICT)
+        goto error;
+
     *update = up;
-    return disir_update_continue (up);
+    return status;
 error:
     disir_update_finished (&up, NULL);
     return status;
@@ -152,10 +332,10 @@ disir_update_continue (struct disir_update *update)
 {
     enum disir_status status;
     struct disir_context *config_keyval = NULL;
+    struct disir_context *target_keyval = NULL;
     struct disir_keyval *keyval;
     struct disir_default *config_def;
     struct disir_default *target_def;
-    int32_t size;
     int res;
 
     config_keyval = NULL;
@@ -174,28 +354,61 @@ disir_update_continue (struct disir_update *update)
 
     while (1)
     {
-        update->up_context_keyval = NULL;
-
         if (config_keyval)
         {
             dc_putcontext (&config_keyval);
         }
+        if (target_keyval)
+        {
+            dc_putcontext (&target_keyval);
+        }
 
         status = dc_collection_next (update->up_collection, &config_keyval);
         if (status != DISIR_STATUS_OK)
             break;
 
-        update->up_context_keyval = config_keyval;
+        // Get the element to update - it may no longer have a place in the target version
+        status = update_target_element (update, config_keyval, &target_keyval);
+        if (status == DISIR_STATUS_NOT_EXIST)
+        {
+            continue;
+        }
+        if (status != DISIR_STATUS_OK)
+            break;
+
+        if (dc_context_type (config_keyval) != DISIR_CONTEXT_KEYVAL)
+        {
+            continue;
+        }
+
         keyval = config_keyval->cx_keyval;
+        if (keyval->kv_mold_equiv == NULL)
+        {
+            continue;
+        }
 
         // Get keyval default of target version - if version is less or equal to current
         // Do nothing
         dx_default_get_active (keyval->kv_mold_equiv, &update->up_target, &target_def);
-        res = dc_version_compare (&target_def->de_introduced,
-                                  &update->up_config_old->cf_version);
+        dx_default_get_active (keyval->kv_mold_equiv, &update->up_version_old, &config_def);
+        if (target_def == NULL || config_def == NULL)
+        {
+            status = DISIR_STATUS_DEFAULT_MISSING;
+            break;
+        }
+
+        res = dc_version_compare (&target_def->de_introduced, &update->up_version_old);
         if (res <= 0)
         {
-            // Do nothing - mold default value for target is older or equal to config version
+            // Keep the value - mold default value for target is older or equal to config version
+            status = update_set_value (target_keyval, &keyval->kv_value);
+            if (status == DISIR_STATUS_RESTRICTION_VIOLATED)
+            {
+                // The value kept is not admitted in the target version.
+                goto conflict;
+            }
+            if (status != DISIR_STATUS_OK)
+                break;
             continue;
         }
         // We might get lucky and have the current config value equal the target default value
@@ -210,45 +423,55 @@ disir_update_continue (struct disir_update *update)
         // Two cases:
         //  * Update config if value of default at config version equals entry in config
         //  * Conflict if default at config version differ from entry in config
-        dx_default_get_active (keyval->kv_mold_equiv, &update->up_config_old->cf_version,
-                               &config_def);
         res = dx_value_compare (&keyval->kv_value, &config_def->de_value);
         if (res == 0)
         {
             // Config has not changed since its last update value.
-            // We can safely update the stored value in config with new default
-            dx_value_copy (&keyval->kv_value, &target_def->de_value);
+            // The target config already holds the new default
             // TODO: Add update report entry
             update->up_updated++;
+            continue;
         }
-        else
+
+conflict:
+        // Oh-oh - We have a conflict
+        // Target default is higher version than config value. Config value differ
+        // from config default. Manual resolution is in order.
+        status = dc_resolve_root_name (config_keyval, &update->up_name);
+        if (status != DISIR_STATUS_OK)
+            break;
+
+        update->up_config_value = update_value_string (&keyval->kv_value);
+        update->up_mold_value = update_value_string (&target_def->de_value);
+        if (update->up_config_value == NULL || update->up_mold_value == NULL)
         {
-            // Oh-oh - We have a conflict
-            // Target default is higher version than config value. Config value differ
-            // from config default. Manual resolution is in order.
-            update->up_keyval = keyval;
+            status = DISIR_STATUS_NO_MEMORY;
+            break;
+        }
 
-            update->up_config_value = malloc (512); // XXX Handle allocation better
-            dx_value_stringify (&keyval->kv_value, 512, update->up_config_value, &size);
-            // XXX Handle buffer overflow / insufficient buffer
+        update->up_keyval = keyval;
+        update->up_context_keyval = config_keyval;
+        dc_putcontext (&target_keyval);
 
-            update->up_mold_value = malloc (512); // XXX: Handle allocation better
-            dx_value_stringify (&target_def->de_value, 512, update->up_mold_value, &size);
-            // XXX Handle buffer overflow / insufficient buffer
+        // Signal that manual resolution is required.
+        return DISIR_STATUS_CONFLICT;
+    }
 
-            // Signal that manual resolution is required.
-            return DISIR_STATUS_CONFLICT;
-        }
+    if (config_keyval)
+    {
+        dc_putcontext (&config_keyval);
+    }
+    if (target_keyval)
+    {
+        dc_putcontext (&target_keyval);
     }
     if (status != DISIR_STATUS_EXHAUSTED)
     {
+        update_conflict_clear (update);
         log_error ("Collection failed with erroenous condition: %s", disir_status_string (status));
         return status;
     }
 
-    // Update version number of config
-    dc_version_set (&update->up_config_old->cf_version, &update->up_target);
-
     TRACE_EXIT ("");
     return DISIR_STATUS_OK;
 }
@@ -270,7 +493,7 @@ disir_update_conflict (struct disir_update *update, const char **name,
         return DISIR_STATUS_NO_CAN_DO;
     }
 
-    *name = update->up_keyval->kv_name.dv_string;
+    *name = update->up_name;
     *keyval = update->up_config_value;
     *mold = update->up_mold_value;
 
@@ -284,9 +507,10 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
 {
     enum disir_status status;
     struct disir_context *context_keyval = NULL;
+    struct disir_default *target_def = NULL;
 
     TRACE_ENTER ("");
-    if (update == NULL)
+    if (update == NULL || resolve == NULL)
     {
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
@@ -297,27 +521,33 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
         return DISIR_STATUS_NO_CAN_DO;
     }
 
-    status = dc_query_resolve_context (update->up_config_target->cf_context,
-                                       update->up_keyval->kv_name.dv_string, &context_keyval);
+    status = update_target_element (update, update->up_context_keyval, &context_keyval);
     if (status != DISIR_STATUS_OK)
         goto out;
 
-    status = dc_set_value (context_keyval, resolve, strlen (resolve));
+    // The text does not represent every value exactly.
+    if (strcmp (resolve, update->up_config_value) == 0)
+    {
+        status = update_set_value (context_keyval, &update->up_keyval->kv_value);
+    }
+    else if (strcmp (resolve, update->up_mold_value) == 0)
+    {
+        dx_default_get_active (update->up_keyval->kv_mold_equiv, &update->up_target, &target_def);
+        status = (target_def ? update_set_value (context_keyval, &target_def->de_value)
+                             : DISIR_STATUS_DEFAULT_MISSING);
+    }
+    else
+    {
+        status = dc_set_value (context_keyval, resolve, strlen (resolve));
+    }
     if (status != DISIR_STATUS_OK)
         goto out;
 
-    dc_putcontext (&update->up_context_keyval);
-
     // TODO: Add update report entry
     update->up_updated++;
 
     // Remove conflict state
-    update->up_keyval = NULL;
-    update->up_context_keyval = NULL;
-    free (update->up_config_value);
-    update->up_config_value = NULL;
-    free (update->up_mold_value);
-    update->up_mold_value = NULL;
+    update_conflict_clear (update);
 
     TRACE_EXIT ("");
     // FALL-THROUGH
@@ -335,30 +565,27 @@ disir_update_finished (struct disir_update **update, struct disir_config **confi
 
     TRACE_ENTER ("");
 
+    if (update == NULL || *update == NULL)
+    {
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     up = *update;
 
     if (config)
     {
         *config = up->up_config_target;
     }
-    else
+    else if (up->up_config_target)
     {
         disir_config_finished (&up->up_config_target);
     }
 
-    dc_collection_finished (&up->up_collection);
-    if (up->up_config_value)
-    {
-        free (up->up_config_value);
-    }
-    if (up->up_mold_value)
-    {
-        free (up->up_mold_value);
-    }
-    if (up->up_context_keyval)
+    if (up->up_collection)
     {
-        dc_putcontext (&up->up_context_keyval);
+        dc_collection_finished (&up->up_collection);
     }
+    update_conflict_clear (up);
 
     free (up);
     *update = NULL;
@@ -380,13 +607,13 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
     const char *mold;
 
     status = disir_update_config (*config, &(*config)->cf_mold->mo_version, &update);
-    if (status != DISIR_STATUS_CONFLICT)
-        goto error;
 
     do
     {
-        if (status != DISIR_STATUS_CONFLICT)
+        if (status == DISIR_STATUS_OK)
             break;
+        if (status != DISIR_STATUS_CONFLICT)
+            goto error;
 
         status = disir_update_conflict (update, &name, &keyval, &mold);
         if (status != DISIR_STATUS_OK)
@@ -398,7 +625,7 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
         {
             status = disir_update_resolve (update, mold);
         }
-        else if (status != DISIR_STATUS_OK)
+        if (status != DISIR_STATUS_OK)
         {
             goto error;
         }
-- 
2.43.0


From c05d54d848e8fab8216104e94dc0bc09fdccaa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:47 +0000
Subject: [PATCH 021/106] fix: generating a config releases what it holds and
 reports its failures

---
 lib/generate.c | 58 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/lib/generate.c b/lib/generate.c
index b43d4a2..cc8595c 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -29,9 +29,9 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
                                           int generate_zero_min)
 {
     enum disir_status status;
-    struct disir_collection *collection;
-    struct disir_context *equiv;
-    struct disir_context *context;
+    struct disir_collection *collection = NULL;
+    struct disir_context *equiv = NULL;
+    struct disir_context *context = NULL;
     struct disir_default *def;
     const char *name;
     int32_t size;
@@ -91,6 +91,12 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
                 //
 
                 dx_default_get_active (equiv, version, &def);
+                if (def == NULL)
+                {
+                    log_debug (2, "keyval has no default: %s", name);
+                    status = DISIR_STATUS_DEFAULT_MISSING;
+                    goto error;
+                }
 
                 status = dx_value_copy (&context->cx_keyval->kv_value, &def->de_value);
                 if (status != DISIR_STATUS_OK)
@@ -102,11 +108,21 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
             else if (dc_context_type (equiv) == DISIR_CONTEXT_SECTION)
             {
                 // Send down parent and context -
-                generate_config_from_mold_recursive_step (equiv, context, version,
-                                                          generate_zero_min);
+                status = generate_config_from_mold_recursive_step (equiv, context, version,
+                                                                   generate_zero_min);
+                if (status != DISIR_STATUS_OK)
+                {
+                    goto error;
+                }
             }
 
             status = dc_finalize (&context);
+            // An invalid element is still part of a parent that is not yet finalized
+            if (status == DISIR_STATUS_INVALID_CONTEXT && config_parent->CONTEXT_STATE_CONSTRUCTING)
+            {
+                dc_putcontext (&context);
+                status = DISIR_STATUS_OK;
+            }
             if (status != DISIR_STATUS_OK)
             {
                 goto error;
@@ -118,6 +134,14 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
 
     status = DISIR_STATUS_OK;
 error:
+    if (context)
+    {
+        dc_destroy (&context);
+    }
+    if (equiv)
+    {
+        dc_putcontext (&equiv);
+    }
     if (collection)
     {
         dc_collection_finished (&collection);
@@ -133,15 +157,15 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
                                  struct disir_config **config)
 {
     enum disir_status status;
-    struct disir_context *config_context;
+    struct disir_context *config_context = NULL;
     char buffer[512];
     struct disir_version version;
 
     TRACE_ENTER ("mold: %p, version: %p", mold, config_version);
 
-    if (mold == NULL)
+    if (mold == NULL || config == NULL)
     {
-        log_debug (0, "invoked with mold NULL pointer");
+        log_debug (0, "invoked with NULL pointer(s) (mold: %p, config: %p)", mold, config);
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
@@ -161,7 +185,7 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
         if (status != DISIR_STATUS_OK)
         {
             // Already logged
-            return status;
+            goto error;
         }
     }
     else
@@ -170,17 +194,22 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
         if (status != DISIR_STATUS_OK)
         {
             // Already logged ?
-            return status;
+            goto error;
         }
     }
     status = dc_set_version (config_context, &version);
     if (status != DISIR_STATUS_OK)
     {
         // Already logged
-        return status;
+        goto error;
     }
 
-    generate_config_from_mold_recursive_step (mold->mo_context, config_context, &version, 0);
+    status = generate_config_from_mold_recursive_step (mold->mo_context, config_context,
+                                                       &version, 0);
+    if (status != DISIR_STATUS_OK)
+    {
+        goto error;
+    }
 
     status = dc_config_finalize (&config_context, config);
     if (status != DISIR_STATUS_OK)
@@ -245,6 +274,11 @@ dc_generate_from_config_root (struct disir_context *context)
     {
         mold_equiv = context->cx_section->se_mold_equiv;
     }
+    if (mold_equiv == NULL)
+    {
+        dx_context_error_set (context, "missing mold equivalent");
+        return DISIR_STATUS_MOLD_MISSING;
+    }
     version = &context->cx_root_context->cx_config->cf_version;
 
     // We do not generate children whose minimum entry count is zero
-- 
2.43.0


From ecbab42cb4813b4968bb130303656d9ffaf8a6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 022/106] fix: the last reference to a context releases the
 object it stands for

---
 lib/context_util.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/context_util.c b/lib/context_util.c
index dab3cbb..77f3e8d 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -170,6 +170,13 @@ dx_context_decref (struct disir_context **context)
         return;
     }
 
+    // The last reference to a context takes the object it stands for with it
+    if ((*context)->cx_refcount == 1 && (*context)->CONTEXT_STATE_DESTROYED == 0)
+    {
+        dc_destroy (context);
+        return;
+    }
+
     (*context)->cx_refcount--;
 
     if ((*context)->cx_refcount == 0)
-- 
2.43.0


From 15e9dd11367a196af49581d623c80b44e4129563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 023/106] fix: compare every restriction and window, and refuse
 destroyed contexts

---
 lib/compare.c | 54 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/lib/compare.c b/lib/compare.c
index be1d66d..42df419 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -52,8 +52,6 @@ dx_diff_report_create (void)
 
     return report;
 error:
-    if (report->dr_diff_string)
-        free (report->dr_diff_string);
     if (report)
         free (report);
 
@@ -341,6 +339,7 @@ compare_restriction_queue (struct disir_restriction *lhs, struct disir_restricti
     if (lhs->re_value_numeric != rhs->re_value_numeric
         || lhs->re_value_min != rhs->re_value_min
         || lhs->re_value_max != rhs->re_value_max
+        || (lhs->re_value_string == NULL) != (rhs->re_value_string == NULL)
         || (lhs->re_value_string != NULL
             && rhs->re_value_string != NULL
             && strcmp (lhs->re_value_string, rhs->re_value_string) != 0))
@@ -349,7 +348,25 @@ compare_restriction_queue (struct disir_restriction *lhs, struct disir_restricti
         return DISIR_STATUS_OK;
     }
 
-    return DISIR_STATUS_OK;
+    // recurse to next entry
+    return compare_restriction_queue (lhs->next, rhs->next, report);
+}
+
+//! STATIC FUNCTION
+static void
+compare_versions (struct disir_context *context, const char *kind,
+                  struct disir_version *lhs, struct disir_version *rhs,
+                  struct disir_diff_report *report)
+{
+    char lhsbuf[100];
+    char rhsbuf[100];
+
+    if (dc_version_compare (lhs, rhs) != 0)
+    {
+        dx_diff_report_add (report, "%s differ in %s (%s vs %s)", dx_context_name (context), kind,
+                                    dc_version_string (lhsbuf, 100, lhs),
+                                    dc_version_string (rhsbuf, 100, rhs));
+    }
 }
 
 //! STATIC FUNCTION
@@ -555,6 +572,11 @@ compare_all_elements (struct disir_context *lhs, struct disir_context *rhs,
         }
     } while (1);
 
+    if (status != DISIR_STATUS_OK)
+    {
+        goto out;
+    }
+
     // Map now contains all entries that exists in lhs.
     // We need to iterate rhs to check if there resides any entries there
     // that is not part of map, e.g., not part of lhs.
@@ -602,6 +624,8 @@ compare_all_elements (struct disir_context *lhs, struct disir_context *rhs,
         dx_diff_report_add (report, "rhs contains entry '%s' not present in lhs.", name);
     } while (1);
 
+    // FALL-THROUGH
+out:
     // Cleanup
     if (map)
     {
@@ -621,8 +645,6 @@ compare_all_elements (struct disir_context *lhs, struct disir_context *rhs,
         dc_putcontext (&element);
     }
 
-    // FALL-THROUGH
-out:
     return status;
 }
 
@@ -706,6 +728,9 @@ diff_compare_contexts_with_report (struct disir_context *lhs, struct disir_conte
 
         if (dc_context_type (lhs->cx_root_context) == DISIR_CONTEXT_MOLD)
         {
+            compare_versions (lhs, "deprecated", &lhs->cx_keyval->kv_deprecated,
+                              &rhs->cx_keyval->kv_deprecated, report);
+
             status = compare_documentation_queues (lhs->cx_keyval->kv_documentation_queue,
                                                    rhs->cx_keyval->kv_documentation_queue,
                                                    report);
@@ -760,6 +785,11 @@ diff_compare_contexts_with_report (struct disir_context *lhs, struct disir_conte
         // For mold, check documentation entries
         if (dc_context_type (lhs->cx_root_context) == DISIR_CONTEXT_MOLD)
         {
+            compare_versions (lhs, "introduced", &lhs->cx_section->se_introduced,
+                              &rhs->cx_section->se_introduced, report);
+            compare_versions (lhs, "deprecated", &lhs->cx_section->se_deprecated,
+                              &rhs->cx_section->se_deprecated, report);
+
             status = compare_documentation_queues (lhs->cx_section->se_documentation_queue,
                                                    rhs->cx_section->se_documentation_queue,
                                                    report);
@@ -800,9 +830,21 @@ dc_compare (struct disir_context *lhs, struct disir_context *rhs,
 
     if (lhs == NULL || rhs == NULL)
     {
-        log_debug (0, "invoked with NULL pointer(s). (lhs %p, rhs %p)");
+        log_debug (0, "invoked with NULL pointer(s). (lhs %p, rhs %p)", lhs, rhs);
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (lhs);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        return status;
+    }
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (rhs);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        return status;
+    }
 
     internal_report = dx_diff_report_create ();
     if (internal_report == NULL)
-- 
2.43.0


From 431918c4f146b09002227a63e00d04ff9540a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:04 +0000
Subject: [PATCH 024/106] fix: a config element whose mold element is destroyed
 has no mold equivalent

---
 lib/context.c                 | 8 ++++----
 lib/context_default.c         | 2 +-
 lib/context_keyval.c          | 2 +-
 lib/context_value.c           | 6 +++---
 lib/generate.c                | 2 +-
 lib/include/context_private.h | 7 +++++++
 lib/update.c                  | 2 +-
 lib/validate.c                | 4 ++--
 8 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 484bb69..ae0b83b 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -951,10 +951,10 @@ dx_get_mold_equiv (struct disir_context *context, struct disir_context **equiv)
         *equiv = context->cx_config->cf_mold->mo_context;
         break;
     case DISIR_CONTEXT_SECTION:
-        *equiv = context->cx_section->se_mold_equiv;
+        *equiv = dx_mold_equiv_alive (context->cx_section->se_mold_equiv);
         break;
     case DISIR_CONTEXT_KEYVAL:
-        *equiv = context->cx_keyval->kv_mold_equiv;
+        *equiv = dx_mold_equiv_alive (context->cx_keyval->kv_mold_equiv);
         break;
     default:
         return DISIR_STATUS_WRONG_CONTEXT;
@@ -987,7 +987,7 @@ dx_get_mold_equiv_type (struct disir_context *parent,
     }
     else if (dc_context_type (parent) == DISIR_CONTEXT_SECTION)
     {
-        if (parent->cx_section->se_mold_equiv == NULL)
+        if (dx_mold_equiv_alive (parent->cx_section->se_mold_equiv) == NULL)
         {
             return DISIR_STATUS_NOT_EXIST;
         }
@@ -1034,7 +1034,7 @@ find_mold_equiv (struct disir_context *context, const char *value, int32_t value
     // Parent section may be invalid with no mold equivalent
     // Parent config will always have a mold equivalent.
     if (dc_context_type (context->cx_parent_context) == DISIR_CONTEXT_SECTION &&
-        context->cx_parent_context->cx_section->se_mold_equiv == NULL)
+        dx_mold_equiv_alive (context->cx_parent_context->cx_section->se_mold_equiv) == NULL)
     {
         const char *name;
         dx_value_get_string (&context->cx_parent_context->cx_section->se_name, &name, NULL);
diff --git a/lib/context_default.c b/lib/context_default.c
index a250eef..d47a850 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -534,7 +534,7 @@ dc_get_default (struct disir_context *context, struct disir_version *version,
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
             // Get the mold
-            keyval = context->cx_keyval->kv_mold_equiv;
+            keyval = dx_mold_equiv_alive (context->cx_keyval->kv_mold_equiv);
         }
         else if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_MOLD)
         {
diff --git a/lib/context_keyval.c b/lib/context_keyval.c
index 933d3d1..b90c047 100644
--- a/lib/context_keyval.c
+++ b/lib/context_keyval.c
@@ -459,7 +459,7 @@ dc_keyval_set_default (struct disir_context *keyval, struct disir_version *versi
         return DISIR_STATUS_WRONG_CONTEXT;
     }
 
-    if (keyval->cx_keyval->kv_mold_equiv == NULL)
+    if (dx_mold_equiv_alive (keyval->cx_keyval->kv_mold_equiv) == NULL)
     {
         log_warn("attempted to set value to default on a keyval who is missing a mold");
         return DISIR_STATUS_MOLD_MISSING;
diff --git a/lib/context_value.c b/lib/context_value.c
index d7735b7..14719cf 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -48,7 +48,7 @@ get_value_input_check (struct disir_context *context, const char *type,
                               "cannot get %s value on KEYVAL whose top-level is MOLD", type);
             return DISIR_STATUS_WRONG_CONTEXT;
         }
-        if (context->cx_keyval->kv_mold_equiv == NULL)
+        if (dx_mold_equiv_alive (context->cx_keyval->kv_mold_equiv) == NULL)
         {
             dx_context_error_set (context,
                                   "cannot get value on context without a MOLD");
@@ -109,7 +109,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
 
         // Assign keyval to its mold equiv type
         // (Makes a correction in the type previously sat wrongfully (on purpose) below.)
-        if (context->cx_keyval->kv_mold_equiv)
+        if (dx_mold_equiv_alive (context->cx_keyval->kv_mold_equiv))
         {
             dx_value_set_type (&context->cx_keyval->kv_value,
                                context->cx_keyval->kv_mold_equiv->cx_keyval->kv_value.dv_type);
@@ -168,7 +168,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
             }
             // Use-case 2
             // set_name has been called and failed - therefore we do not have a mold equivalent
-            else if (context->cx_keyval->kv_mold_equiv == NULL)
+            else if (dx_mold_equiv_alive (context->cx_keyval->kv_mold_equiv) == NULL)
             {
                 // context error message already set by set_name
                 status = DISIR_STATUS_INVALID_CONTEXT;
diff --git a/lib/generate.c b/lib/generate.c
index cc8595c..dcfff61 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -272,7 +272,7 @@ dc_generate_from_config_root (struct disir_context *context)
     }
     else
     {
-        mold_equiv = context->cx_section->se_mold_equiv;
+        mold_equiv = dx_mold_equiv_alive (context->cx_section->se_mold_equiv);
     }
     if (mold_equiv == NULL)
     {
diff --git a/lib/include/context_private.h b/lib/include/context_private.h
index 5a86a42..16dc0cc 100644
--- a/lib/include/context_private.h
+++ b/lib/include/context_private.h
@@ -64,6 +64,13 @@ struct disir_context
     int32_t                     cx_error_message_size;
 };
 
+//! \brief The mold equivalent of a config element, unless it has been destroyed in the mold since.
+static inline struct disir_context *
+dx_mold_equiv_alive (struct disir_context *equiv)
+{
+    return (equiv && equiv->CONTEXT_STATE_DESTROYED == 0 ? equiv : NULL);
+}
+
 //
 // Macro prototypes
 //
diff --git a/lib/update.c b/lib/update.c
index 28a1203..192c5b3 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -382,7 +382,7 @@ disir_update_continue (struct disir_update *update)
         }
 
         keyval = config_keyval->cx_keyval;
-        if (keyval->kv_mold_equiv == NULL)
+        if (dx_mold_equiv_alive (keyval->kv_mold_equiv) == NULL)
         {
             continue;
         }
diff --git a/lib/validate.c b/lib/validate.c
index 14d1b67..08850f2 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -376,7 +376,7 @@ validate_config_keyval (struct disir_context *keyval)
     enum disir_status status;
     struct disir_context *mold_equiv;
 
-    mold_equiv = keyval->cx_keyval->kv_mold_equiv;
+    mold_equiv = dx_mold_equiv_alive (keyval->cx_keyval->kv_mold_equiv);
 
     log_debug_context(2, keyval, "validating config keyval");
 
@@ -430,7 +430,7 @@ validate_config_section (struct disir_context *section)
     enum disir_status status;
     struct disir_context *mold_equiv;
 
-    mold_equiv = section->cx_section->se_mold_equiv;
+    mold_equiv = dx_mold_equiv_alive (section->cx_section->se_mold_equiv);
 
     log_debug_context(2, section, "validating config section");
 
-- 
2.43.0


From 018e4b0d42d424bf8642da97256b6fa930c5833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:20 +0000
Subject: [PATCH 025/106] fix: a refused query leaves nothing behind and
 refuses bad indices

---
 lib/disir_config_query.c |  6 ++++-
 lib/query.c              | 52 ++++++++++++++++++++++++++++------------
 2 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/lib/disir_config_query.c b/lib/disir_config_query.c
index d0320b2..5a746a8 100644
--- a/lib/disir_config_query.c
+++ b/lib/disir_config_query.c
@@ -7,6 +7,7 @@
 #include <disir/context.h>
 #include <disir/config.h>
 
+#include "config.h"
 #include "context_private.h"
 #include "query_private.h"
 #include "log.h"
@@ -178,7 +179,8 @@ config_ensure_keyval_leaf (struct disir_context *immediate_parent, const char *k
     // Check if our keyval_index is out of bounds of the maximum number of instances.
     status = dx_restriction_entries_value (element_mold_equiv,
                                            DISIR_RESTRICTION_INC_ENTRY_MAX,
-                                           NULL, &max_elements);
+                                           &immediate_parent->cx_root_context->cx_config->cf_version,
+                                           &max_elements);
     dc_putcontext (&element_mold_equiv);
     if (status != DISIR_STATUS_OK)
     {
@@ -237,6 +239,8 @@ config_ensure_keyval_leaf (struct disir_context *immediate_parent, const char *k
     {
         log_warn ("set_name failed, even though it shouldnt have: %s",
                   disir_status_string (status));
+        dx_context_transfer_logwarn (immediate_parent, context);
+        dc_destroy (&context);
         return status;
     }
 
diff --git a/lib/query.c b/lib/query.c
index 3db7537..60325db 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -2,9 +2,11 @@
 #include <stdio.h>
 #include <stdarg.h>
 #include <string.h>
+#include <limits.h>
 
 #include <disir/disir.h>
 
+#include "config.h"
 #include "context_private.h"
 #include "query_private.h"
 #include "restriction.h"
@@ -27,6 +29,7 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
     char *key_seperator;
     char *index_indicator;
     char *endptr;
+    long int number;
 
     *index = 0;
     name_below = NULL;
@@ -52,6 +55,13 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
+    // Error check that there is a key (after the last seperator)
+    if (*name_above == '\0')
+    {
+        dx_log_context (parent, "'%s.' missing key after key seperator.", resolved);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     // If we're not the first invocation to process, we need to add
     // the key separator between invocations to resolved buffer.
     if (resolved[0] != '\0')
@@ -94,8 +104,8 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
         strcat (resolved, name_index);
 
         // Find the index
-        *index = strtol (name_index, &endptr, 10);
-        if (name_index == endptr)
+        number = strtol (name_index, &endptr, 10);
+        if (name_index == endptr || number < 0 || number > INT_MAX)
         {
             dx_log_context (parent, "'%s' is an invalid index indicator.", resolved);
             return DISIR_STATUS_INVALID_ARGUMENT;
@@ -110,6 +120,10 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
     }
 
     // Parsing went a-okay. Populate output parameters
+    if (index_indicator != NULL)
+    {
+        *index = (int) number;
+    }
     *next = name_below;
 
     return DISIR_STATUS_OK;
@@ -222,7 +236,8 @@ dx_query_ensure_ancestors (struct disir_context *config,
             int max_elements = 0;
             status = dx_restriction_entries_value (element_mold_equiv,
                                                    DISIR_RESTRICTION_INC_ENTRY_MAX,
-                                                   NULL, &max_elements);
+                                                   &config->cx_root_context->cx_config->cf_version,
+                                                   &max_elements);
             if (status != DISIR_STATUS_OK)
             {
                 dc_putcontext (&element_mold_equiv);
@@ -274,8 +289,7 @@ dx_query_ensure_ancestors (struct disir_context *config,
                 // TODO: Verify / sanify error message
                 // This should only happend if the variable referenced is a KEYVAL, not a section.
                 dx_context_transfer_logwarn (config, current_context);
-                dc_destroy (&current_context);
-                break;
+                goto destroy;
             }
 
             status = dc_generate_from_config_root (current_context);
@@ -283,8 +297,7 @@ dx_query_ensure_ancestors (struct disir_context *config,
             {
                 // This should NOT happend.
                 log_warn ("TODO: HANDLE ERROR MESSAGE: generate_from_config_root");
-                dc_destroy (&current_context);
-                break;
+                goto destroy;
             }
 
             // We do not finalize the section if its our first ancestor
@@ -297,11 +310,15 @@ dx_query_ensure_ancestors (struct disir_context *config,
                     // TODO: error message
                     log_warn ("TODO: HANDLE ERROR MESSAGE: dc_finalize_keep_reference");
                     status = DISIR_STATUS_INTERNAL_ERROR;
-                    dc_destroy (&current_context);
-                    break;
+                    goto destroy;
                 }
             }
         }
+        else if (status != DISIR_STATUS_OK)
+        {
+            dx_context_error_set (config, "failed to resolve %s", resolved);
+            break;
+        }
         else
         {
             // Check that our current_context is a section
@@ -324,19 +341,24 @@ dx_query_ensure_ancestors (struct disir_context *config,
         {
             dx_context_decref (&current_context);
         }
+        current_context = NULL;
+        continue;
 
+destroy:
+        // The section just created is of no use. It may be the ancestor itself.
+        if (ancestor_context == current_context)
+        {
+            ancestor_context = NULL;
+        }
+        dc_destroy (&current_context);
+        break;
     } while (1);
 
     // If we encounter an error condition, and we have created an ancestor,
     // we need to destroy it.
     if (status != DISIR_STATUS_OK && ancestor_context)
     {
-        // We should only destroy the ancestor if we havent already destroyed
-        // it in our loop above
-        if (ancestor_context != current_context)
-        {
-            dc_destroy (&ancestor_context);
-        }
+        dc_destroy (&ancestor_context);
     }
 
     // Populate the output parameters
-- 
2.43.0


From f81c53ec86d3bcc8c605e3b9b235b2012057aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 026/106] fix: reading a string entry as an enum is refused

---
 lib/context_value.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index 14719cf..5cfe5f0 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -785,7 +785,12 @@ dc_get_value_enum (struct disir_context *context, const char **output, int32_t *
         goto out;
     }
 
-    status = dx_value_get_string (storage, output, size);
+    // The storage of strings and enums is the same: only their type tells them apart.
+    status = DISIR_STATUS_WRONG_VALUE_TYPE;
+    if (storage->dv_type == DISIR_VALUE_TYPE_ENUM)
+    {
+        status = dx_value_get_string (storage, output, size);
+    }
     if (status == DISIR_STATUS_INVALID_ARGUMENT)
     {
         dx_context_error_set (context,
-- 
2.43.0


From 7219456b990e30458918b005e2ea82d7167109f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 027/106] fix: a section is not itself invalid because of a
 nested element

---
 lib/validate.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/validate.c b/lib/validate.c
index 08850f2..d899af4 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -820,7 +820,11 @@ dx_validate_context (struct disir_context *context)
 
         // we are returning status as-is.
         // but we are invalid, so mark us as invalid
-        context->CONTEXT_STATE_INVALID = 1;
+        // (an already finalized context is not itself invalid because of its children)
+        if (status != DISIR_STATUS_ELEMENTS_INVALID || context->CONTEXT_STATE_CONSTRUCTING)
+        {
+            context->CONTEXT_STATE_INVALID = 1;
+        }
     }
     // We are invalid - mark us as such.
     // ELEMENTS_INVALID does NOT put the calling context into invalid state.
-- 
2.43.0


From 0c7ee12e12db1bcabe2837e5b7e8f5e6639b2845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:02 +0000
Subject: [PATCH 028/106] fix: keep a collection's iterator in place when
 entries in front of it are destroyed

---
 lib/collection.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/collection.c b/lib/collection.c
index e1fd8a4..2218da5 100644
--- a/lib/collection.c
+++ b/lib/collection.c
@@ -152,6 +152,11 @@ dx_collection_coalesce (struct disir_collection *collection)
             {
                 dx_context_decref (&context);
                 invalid_entries_count += 1;
+                // Every entry removed in front of the iterator moves it back.
+                if ((index - 1) < collection->cc_iterator_index)
+                {
+                    iterator_moveback += 1;
+                }
                 context = collection->cc_collection[index - 1] = NULL;
             }
 
@@ -166,13 +171,6 @@ dx_collection_coalesce (struct disir_collection *collection)
                     context = collection->cc_collection[probe];
                     collection->cc_collection[probe] = NULL;
                     collection->cc_collection[index -1] = context;
-
-                    // Move iterator index if its affected.
-                    if (probe >= collection->cc_iterator_index &&
-                        (index -1) < collection->cc_iterator_index)
-                    {
-                        iterator_moveback  += 1;
-                    }
                 }
 
                 probe++;
-- 
2.43.0


From 5bee2a88f32c022f14ccc0895efc5e596b88b4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 029/106] fix: destroying an instance with a plugin registered
 without a shared object

---
 lib/disir.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/disir.c b/lib/disir.c
index 6f40b26..2e22751 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -328,10 +328,12 @@ disir_instance_destroy (struct disir_instance **instance)
         // Call cleanup method specified by plugin.
         if (plugin->pi_plugin.dp_plugin_finished)
         {
-            plugin->pi_plugin.dp_plugin_finished (*instance, plugin->pi_plugin.dp_storage);
+            plugin->pi_plugin.dp_plugin_finished (*instance, &plugin->pi_plugin);
         }
 
-        dlclose (plugin->pi_dl_handler);
+        // Only plugins loaded from disk have a handle
+        if (plugin->pi_dl_handler)
+            dlclose (plugin->pi_dl_handler);
 
         if (plugin->pi_filepath)
             free (plugin->pi_filepath);
-- 
2.43.0


From 5c6a5f710f966a1375d80ce1c1ae1741ddddefb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 030/106] fix: base directories of a plugin longer than 512
 bytes were cut off

---
 lib/disir.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/disir.c b/lib/disir.c
index 2e22751..ca13a2f 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -56,9 +56,9 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
     memset (&plugin, 0, sizeof (struct disir_register_plugin));
 
     if (config_base_id)
-        plugin.dp_config_base_id = strndup (config_base_id, 512);
+        plugin.dp_config_base_id = strdup (config_base_id);
     if (mold_base_id)
-        plugin.dp_mold_base_id = strndup (mold_base_id, 512);
+        plugin.dp_mold_base_id = strdup (mold_base_id);
 
     status = dio_reg (instance, &plugin);
     if (status != DISIR_STATUS_OK)
@@ -88,7 +88,7 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
         goto error;
     }
     internal->pi_dl_handler = handle;
-    internal->pi_filepath = strndup (plugin_filepath, 512);
+    internal->pi_filepath = strdup (plugin_filepath);
 
     return DISIR_STATUS_OK;
 error:
-- 
2.43.0


From 11340702a8a80b8399de62bb9390bc8ba2eebade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 031/106] fix: a failed instance creation releases plugins,
 configuration and base directories

---
 lib/disir.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/lib/disir.c b/lib/disir.c
index ca13a2f..8690176 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -31,6 +31,8 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
     struct disir_register_plugin_internal *internal;
     plugin_register dio_reg;
 
+    memset (&plugin, 0, sizeof (struct disir_register_plugin));
+
     // Attempt to load the filepath dynamically
     handle = dlopen (plugin_filepath, RTLD_NOW | RTLD_LOCAL);
     if (handle == NULL)
@@ -53,8 +55,6 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
     }
 
     // Populate the plugin object
-    memset (&plugin, 0, sizeof (struct disir_register_plugin));
-
     if (config_base_id)
         plugin.dp_config_base_id = strdup (config_base_id);
     if (mold_base_id)
@@ -92,6 +92,10 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
 
     return DISIR_STATUS_OK;
 error:
+    if (plugin.dp_config_base_id)
+        free (plugin.dp_config_base_id);
+    if (plugin.dp_mold_base_id)
+        free (plugin.dp_mold_base_id);
     if (handle)
     {
         dlclose (handle);
@@ -211,6 +215,7 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
     struct disir_mold *libmold;
 
     status = DISIR_STATUS_OK;
+    libconf = NULL;
     libmold = NULL;
 
     TRACE_ENTER ("config_filepath: %s, config: %p, instance: %p",
@@ -257,11 +262,17 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
         status = disir_generate_config_from_mold (libmold, NULL, &libconf);
 
         // Remove the plugin element from default generated config
+        struct disir_context *context;
         struct disir_context *plugin;
-        status = dc_find_element (dc_config_getcontext (libconf), "plugin", 0, &plugin);
         if (status == DISIR_STATUS_OK)
         {
-            dc_destroy (&plugin);
+            context = dc_config_getcontext (libconf);
+            status = dc_find_element (context, "plugin", 0, &plugin);
+            if (status == DISIR_STATUS_OK)
+            {
+                dc_destroy (&plugin);
+            }
+            dc_putcontext (&context);
         }
     }
     // We do not need the libmold definition anymore
@@ -298,7 +309,9 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
 error:
     if (dis)
     {
-        free (dis);
+        // The configuration provided by the caller remains with the caller
+        dis->libdisir_config = (config ? NULL : libconf);
+        disir_instance_destroy (&dis);
     }
     if (libmold)
     {
@@ -357,7 +370,8 @@ disir_instance_destroy (struct disir_instance **instance)
         free (plugin);
     }
 
-    disir_config_finished(&(*instance)->libdisir_config);
+    if ((*instance)->libdisir_config)
+        disir_config_finished(&(*instance)->libdisir_config);
 
     // Free any error message set on instance
     if ((*instance)->disir_error_message)
-- 
2.43.0


From 5e01f50e7b1d98b0254049d694288370ea8b36f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:26 +0000
Subject: [PATCH 032/106] fix: registering a plugin copies its strings whole
 and unwinds only what it owns

---
 lib/disir_plugin.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/lib/disir_plugin.c b/lib/disir_plugin.c
index 5ea240f..682882e 100644
--- a/lib/disir_plugin.c
+++ b/lib/disir_plugin.c
@@ -8,7 +8,9 @@
 #include "mqueue.h"
 
 #define PLUGIN_STRING_MEMBER_COPY(name) { do {              \
-    internal->pi_plugin.name = strndup (plugin->name, 512); \
+    if (plugin->name == NULL)                               \
+        break;                                              \
+    internal->pi_plugin.name = strdup (plugin->name);       \
     if (internal->pi_plugin.name == NULL)                   \
     {                                                       \
         status = DISIR_STATUS_NO_MEMORY;                    \
@@ -45,11 +47,21 @@ disir_plugin_register (struct disir_instance *instance, struct disir_register_pl
     // Copy the plugin input structure verbatim to our internal copy.
     memcpy (&internal->pi_plugin, plugin, sizeof (*plugin));
 
+    // Make actual copies of the strings, since we do not own the strings
+    // in the input plugin
+    internal->pi_plugin.dp_name = NULL;
+    internal->pi_plugin.dp_description = NULL;
+    internal->pi_plugin.dp_config_entry_type = NULL;
+    internal->pi_plugin.dp_mold_entry_type = NULL;
+
     internal->pi_io_id = strdup (io_id);
     internal->pi_group_id = strdup (group_id);
+    if (internal->pi_io_id == NULL || internal->pi_group_id == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto error;
+    }
 
-    // Make actual copies of the strings, since we do not own the strings
-    // in the input plugin
     // NOTE: These macros route control flow to error:
     PLUGIN_STRING_MEMBER_COPY (dp_name);
     PLUGIN_STRING_MEMBER_COPY (dp_description);
@@ -68,6 +80,12 @@ disir_plugin_register (struct disir_instance *instance, struct disir_register_pl
     return DISIR_STATUS_OK;
 
 error:
+    if (internal == NULL)
+    {
+        return status;
+    }
+    free (internal->pi_io_id);
+    free (internal->pi_group_id);
     if (internal->pi_plugin.dp_name)
     {
         free (internal->pi_plugin.dp_name);
@@ -141,6 +159,7 @@ disir_plugin_finished (struct disir_plugin **plugin)
     {
         free ((*plugin)->pl_group_id);
         free (*plugin);
+        *plugin = NULL;
     }
 
     return DISIR_STATUS_OK;
-- 
2.43.0


From ed4e18404c9ef3c1cd396201643f7e413a81e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 033/106] fix: JSON reader reads the whole stream and keeps the
 document its error messages refer to

---
 3rdparty/jsoncpp/jsoncpp.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index 114d2b2..65fc82d 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -285,7 +285,7 @@ Reader::Reader(const Features& features)
 
 bool
 Reader::parse(const std::string& document, Value& root, bool collectComments) {
-  JSONCPP_STRING documentCopy(document.data(), document.data() + document.capacity());
+  JSONCPP_STRING documentCopy(document.data(), document.data() + document.size());
   std::swap(documentCopy, document_);
   const char* begin = document_.c_str();
   const char* end = begin + document_.length();
@@ -298,11 +298,11 @@ bool Reader::parse(std::istream& sin, Value& root, bool collectComments) {
   // Those would allow streamed input from a file, if parse() were a
   // template function.
 
-  // Since JSONCPP_STRING is reference-counted, this at least does not
-  // create an extra copy.
-  JSONCPP_STRING doc;
-  std::getline(sin, doc, (char)EOF);
-  return parse(doc.data(), doc.data() + doc.size(), root, collectComments);
+  // The document must outlive this call: error messages refer to it.
+  // Every byte of the stream belongs to the document, (char)EOF included.
+  JSONCPP_STRING doc((std::istreambuf_iterator<char>(sin)),
+                     std::istreambuf_iterator<char>());
+  return parse(doc, root, collectComments);
 }
 
 bool Reader::parse(const char* beginDoc,
-- 
2.43.0


From d6f6b9f7d7765c35394b1891b55c4dec7fdbb08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 034/106] fix: descriptor streams finish short transfers and
 report read errors

---
 3rdparty/boost_fdstream/fdstream.hpp | 29 +++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/3rdparty/boost_fdstream/fdstream.hpp b/3rdparty/boost_fdstream/fdstream.hpp
index 585e03d..7db72fb 100644
--- a/3rdparty/boost_fdstream/fdstream.hpp
+++ b/3rdparty/boost_fdstream/fdstream.hpp
@@ -33,6 +33,8 @@
 #include <cstdio>
 // for memmove():
 #include <cstring>
+// for EINTR:
+#include <cerrno>
 
 
 // low-level read and write functions
@@ -69,7 +71,7 @@ class fdoutbuf : public std::streambuf {
     virtual int_type overflow (int_type c) {
         if (c != EOF) {
             char z = c;
-            if (write (fd, &z, 1) != 1) {
+            if (xsputn (&z, 1) != 1) {
                 return EOF;
             }
         }
@@ -79,7 +81,18 @@ class fdoutbuf : public std::streambuf {
     virtual
     std::streamsize xsputn (const char* s,
                             std::streamsize num) {
-        return write(fd,s,num);
+        std::streamsize written = 0;
+        while (written < num) {
+            ssize_t res = write (fd, s + written, num - written);
+            if (res < 0 && errno == EINTR) {
+                continue;
+            }
+            if (res <= 0) {
+                break;
+            }
+            written += res;
+        }
+        return written;
     }
 };
 
@@ -153,9 +166,15 @@ class fdinbuf : public std::streambuf {
 
         // read at most bufSize new characters
         int num;
-        num = read (fd, buffer+pbSize, bufSize);
-        if (num <= 0) {
-            // ERROR or EOF
+        do {
+            num = read (fd, buffer+pbSize, bufSize);
+        } while (num < 0 && errno == EINTR);
+        if (num < 0) {
+            // ERROR: not to be mistaken for the end of the file
+            throw std::ios_base::failure ("read error");
+        }
+        if (num == 0) {
+            // EOF
             return EOF;
         }
 
-- 
2.43.0


From 51aa6b972c19d86098eede1ac40f1c6a1be3ba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 035/106] fix: JSON writer keeps every digit of a real and the
 sign of a zero

---
 3rdparty/jsoncpp/jsoncpp.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index 65fc82d..7bd2e53 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -4429,7 +4429,20 @@ JSONCPP_STRING valueToString(double value, bool useSpecialFloats, unsigned int p
 }
 }
 
-JSONCPP_STRING valueToString(double value) { return valueToString(value, false, 16); }
+JSONCPP_STRING valueToString(double value) {
+  // 16 significant digits identify most doubles, 17 identify them all.
+  JSONCPP_STRING repr = valueToString(value, false, 16);
+  if (isfinite(value)) {
+    double parsed = 0;
+    JSONCPP_ISTRINGSTREAM is(repr);
+    if (!(is >> parsed) || parsed != value)
+      repr = valueToString(value, false, 17);
+    // There is no negative zero among the integers.
+    if (repr == "-0")
+      repr += ".0";
+  }
+  return repr;
+}
 
 JSONCPP_STRING valueToString(bool value) { return value ? "true" : "false"; }
 
-- 
2.43.0


From 90f90d4825a00a650fb4351720aeb37e10a097ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 036/106] fix: JSON integers of 2^31 and above are integers

---
 lib/fslib/json/jsonIO.cc                  | 21 +++++++++++++++++++--
 lib/fslib/json/json_unserialize_config.cc |  1 +
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/json/jsonIO.cc b/lib/fslib/json/jsonIO.cc
index 72ec113..e503062 100644
--- a/lib/fslib/json/jsonIO.cc
+++ b/lib/fslib/json/jsonIO.cc
@@ -41,6 +41,7 @@ std::map<const char *, enum disir_restriction_type, cmp_str> attribute_disir_res
 //! Map holding string representation of json valuetypes
 std::map<Json::ValueType, const char *> json_type_stringified  = {
     {Json::intValue    , "integer"},
+    {Json::uintValue   , "integer"},
     {Json::realValue   , "float"},
     {Json::booleanValue , "boolean"},
     {Json::stringValue , "string"},
@@ -84,6 +85,15 @@ set_value (struct disir_context *context, Json::Value& val)
 {
     switch (val.type())
     {
+    case Json::uintValue:
+    {
+        // An integer beyond the range of int - is it beyond that of int64_t, too?
+        if (val.isInt64 () == false && dc_value_type (context) != DISIR_VALUE_TYPE_FLOAT)
+        {
+            return dc_set_value_float (context, (double)val.asDouble());
+        }
+    }
+    // FALL-THROUGH
     case Json::intValue:
     {
         if (dc_value_type (context) == DISIR_VALUE_TYPE_FLOAT)
@@ -113,7 +123,6 @@ set_value (struct disir_context *context, Json::Value& val)
         }
     }
     case Json::arrayValue:
-    case Json::uintValue:
     case Json::objectValue:
     case Json::nullValue:
     default:
@@ -127,6 +136,15 @@ add_value_default (struct disir_context *context, Json::Value& value,
 {
     switch (value.type())
     {
+    case Json::uintValue:
+    {
+        // An integer beyond the range of int - is it beyond that of int64_t, too?
+        if (value.isInt64 () == false && dc_value_type (context) != DISIR_VALUE_TYPE_FLOAT)
+        {
+            return dc_add_default_float (context, (double)value.asDouble(), version);
+        }
+    }
+    // FALL-THROUGH
     case Json::intValue:
     {
         if (dc_value_type (context) == DISIR_VALUE_TYPE_FLOAT)
@@ -146,7 +164,6 @@ add_value_default (struct disir_context *context, Json::Value& value,
         return dc_add_default_string (context, value.asString().c_str(),
                                                value.asString().size(), version);
     case Json::arrayValue:
-    case Json::uintValue:
     case Json::objectValue:
     case Json::nullValue:
     default:
diff --git a/lib/fslib/json/json_unserialize_config.cc b/lib/fslib/json/json_unserialize_config.cc
index 6df5a56..76f548a 100644
--- a/lib/fslib/json/json_unserialize_config.cc
+++ b/lib/fslib/json/json_unserialize_config.cc
@@ -297,6 +297,7 @@ ConfigReader::unserialize_type (struct disir_context *context, Json::Value& valu
         }
         break;
     case Json::intValue:
+    case Json::uintValue:
     case Json::stringValue:
     case Json::realValue:
     case Json::booleanValue:
-- 
2.43.0


From 168b7d7039262fedc1c340ad2849a92ca7a37f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 037/106] fix: JSON writers report text they could not write or
 represent

---
 lib/fslib/json/json_serialize.cc        |  6 ++++--
 lib/fslib/json/json_serialize_config.cc | 22 ++++++++++++++++++++--
 lib/fslib/json/json_serialize_mold.cc   |  6 ++++++
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/lib/fslib/json/json_serialize.cc b/lib/fslib/json/json_serialize.cc
index 704d79c..4a65489 100644
--- a/lib/fslib/json/json_serialize.cc
+++ b/lib/fslib/json/json_serialize.cc
@@ -19,12 +19,13 @@ dio_json_serialize_config (struct disir_instance *instance,
     try
     {
         boost::fdostream file(fileno(output));
-        dio::ConfigWriter writer (NULL);
+        dio::ConfigWriter writer (instance);
 
-         return writer.serialize (config, file);
+        return writer.serialize (config, file);
     }
     catch (std::exception& e)
     {
+        disir_error_set (instance, "JSON: fatal exception in serialize: %s", e.what ());
         return DISIR_STATUS_INTERNAL_ERROR;
     }
 }
@@ -45,6 +46,7 @@ dio_json_serialize_mold (struct disir_instance *instance,
     }
     catch (std::exception& e)
     {
+        disir_error_set (instance, "JSON: fatal exception in serialize: %s", e.what ());
         return DISIR_STATUS_INTERNAL_ERROR;
     }
 
diff --git a/lib/fslib/json/json_serialize_config.cc b/lib/fslib/json/json_serialize_config.cc
index dff6220..854e9bc 100644
--- a/lib/fslib/json/json_serialize_config.cc
+++ b/lib/fslib/json/json_serialize_config.cc
@@ -5,6 +5,7 @@
 #include <disir/disir.h>
 
 // standard
+#include <cmath>
 #include <iostream>
 #include <stdint.h>
 #include <stdlib.h>
@@ -61,6 +62,12 @@ ConfigWriter::serialize (struct disir_config *config, std::ostream& stream)
     }
 
     stream << writer.writeOrdered (m_configRoot);
+    stream.flush ();
+    if (stream.fail ())
+    {
+        disir_error_set (m_disir, "could not write the serialized config");
+        status = DISIR_STATUS_FS_ERROR;
+    }
 
 end:
     dc_putcontext (&m_contextConfig);
@@ -247,6 +254,13 @@ ConfigWriter::set_keyval (struct disir_context *context, std::string name, Json:
                 goto error;
             }
 
+            // There is no such number in JSON
+            if (std::isfinite (floatval) == false)
+            {
+                status = DISIR_STATUS_WRONG_VALUE_TYPE;
+                goto error;
+            }
+
             keyval = floatval;
             break;
         case DISIR_VALUE_TYPE_BOOLEAN:
@@ -308,6 +322,7 @@ ConfigWriter::_serialize_context (struct disir_context *parent_context, Json::Va
     struct disir_context *child_context;
     enum disir_status status;
 
+    collection = NULL;
     child_context = NULL;
 
     status = dc_get_elements (parent_context, &collection);
@@ -344,7 +359,7 @@ ConfigWriter::_serialize_context (struct disir_context *parent_context, Json::Va
                 if (status != DISIR_STATUS_OK)
                 {
                     // logged
-                    return status;
+                    goto end;
                 }
                 break;
             case DISIR_CONTEXT_KEYVAL:
@@ -366,7 +381,10 @@ end:
         dc_putcontext (&child_context);
     }
 
-    dc_collection_finished (&collection);
+    if (collection)
+    {
+        dc_collection_finished (&collection);
+    }
 
     return status;
 }
diff --git a/lib/fslib/json/json_serialize_mold.cc b/lib/fslib/json/json_serialize_mold.cc
index 504ec8a..37ffd64 100644
--- a/lib/fslib/json/json_serialize_mold.cc
+++ b/lib/fslib/json/json_serialize_mold.cc
@@ -134,6 +134,12 @@ MoldWriter::serialize (struct disir_mold *mold, std::ostream& stream)
         goto end;
 
     stream << writer.writeOrdered (root);
+    stream.flush ();
+    if (stream.fail ())
+    {
+        disir_error_set (m_disir, "could not write the serialized mold");
+        status = DISIR_STATUS_FS_ERROR;
+    }
 
 end:
     dc_putcontext (&context_mold);
-- 
2.43.0


From 27c6d71ddb7422c9dd7231b05f70e753eae7270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 038/106] fix: JSON config reader leaves nothing behind and
 says why it refused

---
 lib/fslib/json/json_unserialize.cc        |  8 ++++----
 lib/fslib/json/json_unserialize_config.cc | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/lib/fslib/json/json_unserialize.cc b/lib/fslib/json/json_unserialize.cc
index 9b9b505..b3596d3 100644
--- a/lib/fslib/json/json_unserialize.cc
+++ b/lib/fslib/json/json_unserialize.cc
@@ -25,7 +25,7 @@ dio_json_unserialize_config (struct disir_instance *instance, FILE *input,
     }
     catch (std::exception& e)
     {
-        disir_log_user (instance, "JSON: fatal exception in unserialize_config");
+        disir_error_set (instance, "JSON: fatal exception in unserialize_config: %s", e.what ());
         return DISIR_STATUS_INTERNAL_ERROR;
     }
 
@@ -48,7 +48,7 @@ dio_json_unserialize_mold (struct disir_instance *instance,
     }
     catch (std::exception& e)
     {
-        disir_log_user (instance, "JSON: fatal exception in unserialize_mold");
+        disir_error_set (instance, "JSON: fatal exception in unserialize_mold: %s", e.what ());
         return DISIR_STATUS_INTERNAL_ERROR;
     }
 
@@ -80,7 +80,7 @@ dio_json_unserialize_mold_override (struct disir_instance *instance,
     }
     catch (std::exception& e)
     {
-        disir_log_user (instance, "JSON: fatal exception in unserialize_mold_override");
+        disir_error_set (instance, "JSON: fatal exception in unserialize_mold_override: %s", e.what ());
         return DISIR_STATUS_INTERNAL_ERROR;
     }
 
@@ -100,7 +100,7 @@ dio_json_determine_mold_override (struct disir_instance *instance, FILE *input)
     }
     catch (std::exception& e)
     {
-        disir_log_user (instance, "JSON: fatal exception in determine_mold_override");
+        disir_error_set (instance, "JSON: fatal exception in determine_mold_override: %s", e.what ());
         return DISIR_STATUS_INTERNAL_ERROR;
     }
 }
diff --git a/lib/fslib/json/json_unserialize_config.cc b/lib/fslib/json/json_unserialize_config.cc
index 76f548a..e6eaa9c 100644
--- a/lib/fslib/json/json_unserialize_config.cc
+++ b/lib/fslib/json/json_unserialize_config.cc
@@ -67,6 +67,12 @@ ConfigReader::construct_config (Json::Value& root, struct disir_config **config)
 
     *config = NULL;
 
+    if (root.isObject () == false)
+    {
+        disir_error_set (m_disir, "Parse error: config is not an object");
+        return DISIR_STATUS_FS_ERROR;
+    }
+
     status = dc_config_begin (m_mold, &context_config);
     if (status != DISIR_STATUS_OK)
     {
@@ -141,6 +147,7 @@ ConfigReader::set_config_version (struct disir_context *context_config, Json::Va
         status = dc_version_convert (version_string, &version);
         if (status != DISIR_STATUS_OK)
         {
+            disir_error_set (m_disir, "config version '%s' is not a version", version_string);
             return status;
         }
     }
@@ -153,6 +160,7 @@ ConfigReader::set_config_version (struct disir_context *context_config, Json::Va
     // Mold version is lower than config version
     if (dc_version_compare (&version, &mold_version) > 0)
     {
+        disir_error_set (m_disir, "config version is higher than that of its mold");
         return DISIR_STATUS_CONFLICTING_SEMVER;
     }
 
@@ -192,7 +200,7 @@ ConfigReader::set_keyval (struct disir_context *parent_context,
         status != DISIR_STATUS_INVALID_CONTEXT &&
         status != DISIR_STATUS_WRONG_VALUE_TYPE)
     {
-        disir_log_user (m_disir, "something went horribly wrong: (%s) with keyname %s",
+        disir_error_set (m_disir, "something went horribly wrong: (%s) with keyname %s",
                           disir_status_string (status), name.c_str ());
         goto error;
     }
@@ -269,7 +277,7 @@ ConfigReader::unserialize_type (struct disir_context *context, Json::Value& valu
         if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
         {
             // logged
-            return status;
+            goto error;
         }
 
         status = dc_finalize (&child_context);
@@ -279,6 +287,7 @@ ConfigReader::unserialize_type (struct disir_context *context, Json::Value& valu
             // Reeling us in by only loggin the error
             disir_log_user (m_disir, "Could not finalize context: %s",
                                      disir_status_string (status));
+            goto error;
         }
 
         // If context is invalid we need to
@@ -308,6 +317,8 @@ ConfigReader::unserialize_type (struct disir_context *context, Json::Value& valu
         }
         break;
     default:
+        disir_error_set (m_disir, "value of '%s' is %s, which no config element can be",
+                                  name.c_str (), json_valuetype_stringify (value.type ()));
         status = DISIR_STATUS_INTERNAL_ERROR;
         break;
     }
-- 
2.43.0


From e81e625f94c1c3790adf5b1b489b8ea1ae389946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 039/106] fix: JSON reader counts its depth per thread

---
 3rdparty/jsoncpp/jsoncpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index 7bd2e53..24f10e7 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -232,7 +232,7 @@ static inline void fixNumericLocale(char* begin, char* end) {
 #endif
 
 static int const stackLimit_g = 1000;
-static int       stackDepth_g = 0;  // see readValue()
+static thread_local int stackDepth_g = 0;  // see readValue()
 
 namespace Json {
 
-- 
2.43.0


From 9f23f88c728d38fdfc6e96105c904fca57196197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 040/106] fix: TOML writer keeps every digit of a double and
 tables that are empty

---
 3rdparty/tinytoml/toml.h | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index c1c0f28..6b330a6 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -396,6 +396,7 @@ private:
     void writeTableWithoutKey(const Value& value, const std::string& keyPrefix);
     void writeTableCatagorizedLexicographical(const Value& value, const std::string& key);
     void writeDatetime(const Value& value);
+    void writeDouble(double value);
     void writeArray(const Value& value);
 };
 
@@ -2040,6 +2041,26 @@ inline void Writer::writeDatetime(const Value& value)
     output_ << buf;
 }
 
+inline void Writer::writeDouble(double value)
+{
+    if (!std::isfinite(value))
+        failwith("a double that is not finite cannot be written");
+
+    // The fewest digits that identify the double: 17 are enough for any.
+    std::string s;
+    for (int precision = 6; precision <= 17; ++precision) {
+        std::stringstream ss;
+        ss << std::setprecision(precision) << value;
+        s = ss.str();
+        if (strtod(s.c_str(), nullptr) == value)
+            break;
+    }
+    // Tell it from an integer.
+    if (s.find_first_of(".e") == std::string::npos)
+        s += ".0";
+    output_ << s;
+}
+
 inline void Writer::writeArray(const Value& value)
 {
     // TODO: Differantiante on inline and multiline formatting options.
@@ -2150,7 +2171,8 @@ inline void Writer::writeTable(const Value& value, const std::string& key)
     std::string pre("\n");
     std::string post("");
 
-    bool hasKeyvals = tableContainsKeyval(value);
+    // A table with nothing in it exists by its key alone.
+    bool hasKeyvals = tableContainsKeyval(value) || value.empty();
 
     // We may write this inline if we are not root, and the FORMAT_TABLE_INLINE option is
     // set either on the global options or on the value specific formatting options.
@@ -2237,7 +2259,7 @@ inline void Writer::writeType(const Value& value)
     case Value::DOUBLE_TYPE: {
         // Inline float type.
         // Can extract out in separate method if float output is specified by format.
-        output_ << std::fixed << std::showpoint << value.double_;
+        writeDouble(value.double_);
         break;
     }
     case Value::STRING_TYPE:
-- 
2.43.0


From 296f41048b31f0d6d6c83a0ff69dadee82dbfd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 041/106] fix: TOML config writer reports what failed and puts
 its contexts

---
 lib/fslib/toml/toml_serialize.cc | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/lib/fslib/toml/toml_serialize.cc b/lib/fslib/toml/toml_serialize.cc
index 82e1238..882e216 100644
--- a/lib/fslib/toml/toml_serialize.cc
+++ b/lib/fslib/toml/toml_serialize.cc
@@ -116,6 +116,7 @@ toml_serialize_inner (struct disir_context *parent,
     toml::Value *table;
 
     key_element = NULL;
+    key_collection = NULL;
 
     // Get all elements from the parent
     status = dc_find_elements (parent, name, &key_collection);
@@ -238,7 +239,10 @@ toml_serialize_elements (struct disir_context *context, toml::Value* current)
         // Check if this element already exists in the current TOML value.
         // If it does, we have already added it (since there are more than one entry of it.)
         if (current->has (name))
+        {
+            dc_putcontext (&element);
             continue;
+        }
 
         status = toml_serialize_inner (context, current, name);
         if (status != DISIR_STATUS_OK)
@@ -301,12 +305,29 @@ dio_toml_serialize_config (struct disir_instance *instance,
     current->setChild ("@DISIR_CONFIG_VERSION", buffer);
 
     // Mjes
-    status = toml_serialize_elements (context_config, current);
-
-    boost::fdostream file(fileno(output));
-    root.write (&file);
+    try
+    {
+        status = toml_serialize_elements (context_config, current);
+        if (status == DISIR_STATUS_OK)
+        {
+            boost::fdostream file(fileno(output));
+            root.write (&file);
+            file.flush ();
+            if (file.fail ())
+            {
+                disir_error_set (instance, "TOML: could not write the serialized config");
+                status = DISIR_STATUS_FS_ERROR;
+            }
+        }
+    }
+    catch (std::exception& e)
+    {
+        disir_error_set (instance, "TOML: cannot serialize config: %s", e.what ());
+        status = DISIR_STATUS_INTERNAL_ERROR;
+    }
+    dc_putcontext (&context_config);
 
     disir_log_user (instance, "TRACE EXIT serialize_config");
-    return DISIR_STATUS_OK;
+    return status;
 }
 
-- 
2.43.0


From f0493a0a67d4f698f91d1109198793165f398cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 042/106] fix: TOML parser refuses numbers, dates and nesting
 out of its range

---
 3rdparty/tinytoml/toml.h | 44 +++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 6b330a6..f8b9f9e 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -363,9 +363,12 @@ private:
 
     void addError(const std::string& reason);
 
+    static const int maxDepth = 1000;
+
     Lexer lexer_;
     Token token_;
     std::string errorReason_;
+    int depth_ = 0;
 };
 
 class Writer {
@@ -815,14 +818,16 @@ inline Token Lexer::nextValue()
     if (isInteger(s)) {
         std::stringstream ss(removeDelimiter(s));
         std::int64_t x;
-        ss >> x;
+        if (!(ss >> x))
+            return Token(TokenType::ERROR, std::string("Integer out of range: ") + s);
         return Token(TokenType::INT, x);
     }
 
     if (isDouble(s)) {
         std::stringstream ss(removeDelimiter(s));
         double d;
-        ss >> d;
+        if (!(ss >> d))
+            return Token(TokenType::ERROR, std::string("Double out of range: ") + s);
         return Token(TokenType::DOUBLE, d);
     }
 
@@ -833,11 +838,15 @@ inline Token Lexer::parseAsTime(const std::string& str)
 {
     const char* s = str.c_str();
 
-    int n;
+    int n = 0;
     int YYYY, MM, DD;
     if (sscanf(s, "%d-%d-%d%n", &YYYY, &MM, &DD, &n) != 3)
         return Token(TokenType::ERROR, std::string("Invalid token"));
 
+    // Out of this range the arithmetic below is undefined.
+    if (YYYY < 0 || YYYY > 9999 || MM < 1 || MM > 12 || DD < 1 || DD > 31)
+        return Token(TokenType::ERROR, std::string("Invalid date"));
+
     if (s[n] == '\0') {
         std::tm t;
         t.tm_sec = 0;
@@ -860,6 +869,9 @@ inline Token Lexer::parseAsTime(const std::string& str)
     if (sscanf(s, "%d:%d:%lf%n", &hh, &mm, &ss, &n) != 3)
         return Token(TokenType::ERROR, std::string("Invalid token"));
 
+    if (hh < 0 || hh > 23 || mm < 0 || mm > 59 || !(ss >= 0 && ss < 61))
+        return Token(TokenType::ERROR, std::string("Invalid time"));
+
     std::tm t;
     t.tm_sec = static_cast<int>(ss);
     t.tm_min = mm;
@@ -889,6 +901,9 @@ inline Token Lexer::parseAsTime(const std::string& str)
     if (pn != '+' && pn != '-')
         return Token(TokenType::ERROR, std::string("Invalid token"));
 
+    if (oh < 0 || oh > 23 || om < 0 || om > 59)
+        return Token(TokenType::ERROR, std::string("Invalid time offset"));
+
     if (pn == '+') {
         tp -= std::chrono::hours(oh);
         tp -= std::chrono::minutes(om);
@@ -1693,9 +1708,13 @@ inline Value* Parser::parseGroupKey(Value* root)
     }
 
     Value* currentValue = root;
-    while (true) {
+    for (int depth = 0; ; ++depth) {
         if (token().type() != TokenType::IDENT && token().type() != TokenType::STRING)
             return nullptr;
+        if (depth > maxDepth) {
+            addError("groups nested too deep");
+            return nullptr;
+        }
 
         std::string key = token().strValue();
         nextKey();
@@ -1771,7 +1790,7 @@ inline bool Parser::parseKeyValue(Value* current)
     if (!consumeEOLorEOFForKey())
         return false;
 
-    if (current->has(key)) {
+    if (current->findChild(key)) {
         addError("Multiple same key: " + key);
         return false;
     }
@@ -1795,6 +1814,17 @@ inline bool Parser::parseKey(std::string* key)
 
 inline bool Parser::parseValue(Value* v)
 {
+    // Values recurse here, through arrays and inline tables.
+    struct Depth {
+        explicit Depth(int& depth) : depth_(depth) { ++depth_; }
+        ~Depth() { --depth_; }
+        int& depth_;
+    } depth(depth_);
+    if (depth_ > maxDepth) {
+        addError("values nested too deep");
+        return false;
+    }
+
     switch (token().type()) {
     case TokenType::STRING:
     case TokenType::MULTILINE_STRING:
@@ -1916,12 +1946,12 @@ inline bool Parser::parseInlineTable(Value* value)
         if (!parseValue(&v))
             return false;
 
-        if (t.has(key)) {
+        if (t.findChild(key)) {
             addError("inline table has multiple same keys: key=" + key);
             return false;
         }
 
-        t.set(key, v);
+        t.setChild(key, v);
     }
 
     if (!consumeForValue(TokenType::RBRACE))
-- 
2.43.0


From cd21212bfb3a888dd0c98f8711deaca54590cc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 043/106] fix: TOML config reader puts its contexts and refuses
 a version it cannot use

---
 lib/fslib/toml/toml_unserialize.cc | 63 +++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 14 deletions(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index 3d62845..f9bd067 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -63,7 +63,7 @@ dio_toml_unserialize_primitive (struct disir_instance *instance, const char *key
                                 const toml::Value& value, struct disir_context *parent)
 {
     enum disir_status status;
-    struct disir_context *context;
+    struct disir_context *context = NULL;
 
     status = dc_begin (parent, DISIR_CONTEXT_KEYVAL, &context);
     if (status != DISIR_STATUS_OK)
@@ -133,10 +133,23 @@ dio_toml_unserialize_primitive (struct disir_instance *instance, const char *key
         goto error;
     }
 
-    return dc_finalize (&context);
+    status = dc_finalize (&context);
+    if (context && status == DISIR_STATUS_INVALID_CONTEXT)
+    {
+        // The parent has it listed; we are done with our reference.
+        dc_putcontext (&context);
+    }
+    if (context == NULL)
+    {
+        return status;
+    }
 error:
-
-    dc_destroy (&context);
+    disir_error_set (instance, "TOML: '%s' cannot be part of the config: %s",
+                               key, disir_status_string (status));
+    if (context)
+    {
+        dc_destroy (&context);
+    }
     return status;
 }
 
@@ -145,7 +158,7 @@ dio_toml_unserialize_table (struct disir_instance *instance, const char *key,
                             const toml::Value& table, struct disir_context *parent)
 {
     enum disir_status status;
-    struct disir_context *context;
+    struct disir_context *context = NULL;
 
     status = dc_begin (parent, DISIR_CONTEXT_SECTION, &context);
     if (status != DISIR_STATUS_OK)
@@ -172,10 +185,23 @@ dio_toml_unserialize_table (struct disir_instance *instance, const char *key,
         goto error;
     }
 
-    return dc_finalize (&context);
+    status = dc_finalize (&context);
+    if (context && status == DISIR_STATUS_INVALID_CONTEXT)
+    {
+        // The parent has it listed; we are done with our reference.
+        dc_putcontext (&context);
+    }
+    if (context == NULL)
+    {
+        return status;
+    }
 error:
-
-    dc_destroy (&context);
+    disir_error_set (instance, "TOML: '%s' cannot be part of the config: %s",
+                               key, disir_status_string (status));
+    if (context)
+    {
+        dc_destroy (&context);
+    }
     return status;
 }
 
@@ -189,7 +215,7 @@ dio_toml_unserialize_all (struct disir_instance *instance, const char *key,
     {
     case toml::Value::NULL_TYPE:
     {
-        disir_log_user (instance, "TOML: Key '%s' of NULL type. Cannot reasonably handle.");
+        disir_error_set (instance, "TOML: Key '%s' of NULL type. Cannot reasonably handle.", key);
         status = DISIR_STATUS_INTERNAL_ERROR;
         break;
     }
@@ -214,7 +240,7 @@ dio_toml_unserialize_all (struct disir_instance *instance, const char *key,
     }
     case toml::Value::TIME_TYPE:
     {
-        disir_log_user (instance, "TOML: Time type not supported by Disir.");
+        disir_error_set (instance, "TOML: Key '%s': Time type not supported by Disir.", key);
         // TODO: Revise error code.
         status = DISIR_STATUS_INTERNAL_ERROR;
         break;
@@ -254,12 +280,18 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
     if (pr.valid() == false)
     {
         disir_log_user (instance, "TOML: Parse error: %s", pr.errorReason.c_str());
-        disir_error_set (instance, pr.errorReason.c_str());
+        disir_error_set (instance, "TOML: Parse error: %s", pr.errorReason.c_str());
         // XXX: Revise error code
         return DISIR_STATUS_FS_ERROR;
     }
     toml::Value& root = pr.value;
 
+    if (file.bad ())
+    {
+        disir_error_set (instance, "TOML: Cannot read config");
+        return DISIR_STATUS_FS_ERROR;
+    }
+
     status = dc_config_begin (mold, &context_config);
     if (status != DISIR_STATUS_OK)
     {
@@ -291,13 +323,16 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
                 disir_error_set (instance, "TOML: Malformed %s string '%s'.",
                                            ATTRIBUTE_KEY_DISIR_CONFIG_VERSION,
                                            version->as<std::string>().c_str ());
+                dc_destroy (&context_config);
+                return status;
             }
             status = dc_set_version (context_config, &config_version);
             if (status != DISIR_STATUS_OK)
             {
-                // TODO. Determine how to handle this situvation.
-                disir_log_user (instance, "TOML: Failed to set version on CONTEXT_CONFIG: %s",
-                                          disir_status_string (status));
+                disir_error_set (instance, "TOML: Failed to set version on CONTEXT_CONFIG: %s",
+                                           disir_status_string (status));
+                dc_destroy (&context_config);
+                return status;
             }
         }
 
-- 
2.43.0


From 7f37eca677a59228cdfbf03ce0d194f04d36d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 044/106] fix: TOML writer ends the line in front of a table
 that holds tables only

---
 3rdparty/tinytoml/toml.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index f8b9f9e..bb8cb42 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -2219,8 +2219,10 @@ inline void Writer::writeTable(const Value& value, const std::string& key)
 
     // If we are the first entry, (and we are not inline) we should buffer one newline above us.
     // Not applicable to root entry.
+    // The newline is due for a table without a header of its own, too: its first sub-table
+    // starts counting anew.
     if (key.empty() == false && writingTableInline_ == false &&
-        writingTableCurrentIndex_ != 0 && hasKeyvals)
+        writingTableCurrentIndex_ != 0)
     {
         output_ << separator_;
     }
-- 
2.43.0


From 0a931692669d6649b1abe33d40920930fb0ee222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 045/106] fix: JSON mold writer keeps the values of
 restrictions and empty sections, and puts its contexts

---
 lib/fslib/json/json_serialize_mold.cc | 103 +++++++++++++++++---------
 1 file changed, 70 insertions(+), 33 deletions(-)

diff --git a/lib/fslib/json/json_serialize_mold.cc b/lib/fslib/json/json_serialize_mold.cc
index 37ffd64..de84a5d 100644
--- a/lib/fslib/json/json_serialize_mold.cc
+++ b/lib/fslib/json/json_serialize_mold.cc
@@ -6,10 +6,31 @@
 #include <disir/disir.h>
 
 // standard
+#include <cmath>
 #include <iostream>
 
 using namespace dio;
 
+//! The value of a restriction - an integer if it is one that JSON readers agree on
+static enum disir_status
+restriction_number (double value, Json::Value& out)
+{
+    if (std::isfinite (value) == false)
+    {
+        return DISIR_STATUS_WRONG_VALUE_TYPE;
+    }
+
+    if (value == std::floor (value) && std::fabs (value) <= 9007199254740992.0)
+    {
+        out = (Json::Int64)value;
+    }
+    else
+    {
+        out = value;
+    }
+    return DISIR_STATUS_OK;
+}
+
 MoldWriter::MoldWriter (struct disir_instance *disir) : JsonIO (disir)
 {
 }
@@ -95,9 +116,10 @@ MoldWriter::serialize (struct disir_mold *mold, std::string& mold_json)
     status = serialize_attributes (context_mold, root, DISIR_CONTEXT_MOLD);
     if (status != DISIR_STATUS_OK)
     {
-        return status;
+        goto end;
     }
 
+    root[ATTRIBUTE_KEY_MOLD] = Json::objectValue;
     status = _serialize_mold_contexts (context_mold, root[ATTRIBUTE_KEY_MOLD]);
     if (status != DISIR_STATUS_OK)
         goto end;
@@ -126,9 +148,10 @@ MoldWriter::serialize (struct disir_mold *mold, std::ostream& stream)
     status = serialize_attributes (context_mold, root, DISIR_CONTEXT_MOLD);
     if (status != DISIR_STATUS_OK)
     {
-        return status;
+        goto end;
     }
 
+    root[ATTRIBUTE_KEY_MOLD] = Json::objectValue;
     status = _serialize_mold_contexts (context_mold, root[ATTRIBUTE_KEY_MOLD]);
     if (status != DISIR_STATUS_OK)
         goto end;
@@ -201,8 +224,8 @@ enum disir_status
 MoldWriter::serialize_mold_keyval (struct disir_context *context_keyval, Json::Value& keyval)
 {
     enum disir_status status;
-    struct disir_collection *coll;
-    struct disir_context *context;
+    struct disir_collection *coll = NULL;
+    struct disir_context *context = NULL;
     Json::Value defaults;
 
     status = dc_get_default_contexts (context_keyval, &coll);
@@ -216,7 +239,7 @@ MoldWriter::serialize_mold_keyval (struct disir_context *context_keyval, Json::V
     status = serialize_attributes (context_keyval, keyval, DISIR_CONTEXT_KEYVAL);
     if (status != DISIR_STATUS_OK)
     {
-        return status;
+        goto out;
     }
 
     while (dc_collection_next (coll, &context)
@@ -225,7 +248,7 @@ MoldWriter::serialize_mold_keyval (struct disir_context *context_keyval, Json::V
         status = serialize_default (context, defaults);
         if (status != DISIR_STATUS_OK)
         {
-            return status;
+            goto out;
         }
 
         dc_putcontext (&context);
@@ -239,9 +262,16 @@ MoldWriter::serialize_mold_keyval (struct disir_context *context_keyval, Json::V
 
     keyval[ATTRIBUTE_KEY_DEFAULTS] = defaults;
 out:
-     dc_collection_finished (&coll);
+    if (context)
+    {
+        dc_putcontext (&context);
+    }
+    if (coll)
+    {
+        dc_collection_finished (&coll);
+    }
 
-     return status;
+    return status;
 }
 
 enum disir_status
@@ -249,9 +279,8 @@ MoldWriter::serialize_restrictions (struct disir_context *context, Json::Value&
 {
     enum disir_status status;
     enum disir_restriction_type rtype;
-    struct disir_collection *collection;
-    struct disir_context *restriction;
-    enum disir_value_type value_type;
+    struct disir_collection *collection = NULL;
+    struct disir_context *restriction = NULL;
     Json::Value restrictions = Json::arrayValue;
 
     status = dc_restriction_collection (context, &collection);
@@ -288,13 +317,10 @@ MoldWriter::serialize_restrictions (struct disir_context *context, Json::Value&
 
         current_restriction[ATTRIBUTE_KEY_TYPE] = restriction_enum_string;
 
-        dc_get_value_type (context, &value_type);
-
         switch (rtype)
         {
         case DISIR_RESTRICTION_INC_ENTRY_MIN:
         case DISIR_RESTRICTION_INC_ENTRY_MAX:
-            value_type = DISIR_VALUE_TYPE_INTEGER;
         case DISIR_RESTRICTION_EXC_VALUE_NUMERIC:
         {
             double value;
@@ -302,16 +328,13 @@ MoldWriter::serialize_restrictions (struct disir_context *context, Json::Value&
             status = dc_restriction_get_numeric (restriction, &value);
             if (status != DISIR_STATUS_OK)
             {
-                return status;
+                goto out;
             }
 
-            if (value_type == DISIR_VALUE_TYPE_FLOAT)
-            {
-                current_restriction[ATTRIBUTE_KEY_VALUE] = value;
-            }
-            else
+            status = restriction_number (value, current_restriction[ATTRIBUTE_KEY_VALUE]);
+            if (status != DISIR_STATUS_OK)
             {
-                current_restriction[ATTRIBUTE_KEY_VALUE] = (Json::Int64)value;
+                goto out;
             }
             break;
         }
@@ -325,15 +348,15 @@ MoldWriter::serialize_restrictions (struct disir_context *context, Json::Value&
                 goto out;
             }
 
-            if (value_type == DISIR_VALUE_TYPE_FLOAT)
+            current_restriction[ATTRIBUTE_KEY_VALUE] = Json::arrayValue;
+            status = restriction_number (min, current_restriction[ATTRIBUTE_KEY_VALUE][0]);
+            if (status == DISIR_STATUS_OK)
             {
-                current_restriction[ATTRIBUTE_KEY_VALUE].append (min);
-                current_restriction[ATTRIBUTE_KEY_VALUE].append (max);
+                status = restriction_number (max, current_restriction[ATTRIBUTE_KEY_VALUE][1]);
             }
-            else
+            if (status != DISIR_STATUS_OK)
             {
-                current_restriction[ATTRIBUTE_KEY_VALUE].append ((Json::Int64)min);
-                current_restriction[ATTRIBUTE_KEY_VALUE].append ((Json::Int64)max);
+                goto out;
             }
 
             break;
@@ -358,7 +381,7 @@ MoldWriter::serialize_restrictions (struct disir_context *context, Json::Value&
                                        restriction_enum_string);
 
             status = DISIR_STATUS_INVALID_CONTEXT;
-            break;
+            goto out;
         default:
             break;
         }
@@ -370,6 +393,10 @@ MoldWriter::serialize_restrictions (struct disir_context *context, Json::Value&
 
     current[ATTRIBUTE_KEY_RESTRICTIONS] = restrictions;
 out:
+    if (restriction)
+    {
+        dc_putcontext (&restriction);
+    }
     dc_collection_finished (&collection);
     return status;
 }
@@ -377,8 +404,8 @@ out:
 enum disir_status
 MoldWriter::_serialize_mold_contexts (struct disir_context *parent_context, Json::Value& parent)
 {
-    struct disir_collection *coll;
-    struct disir_context *context;
+    struct disir_collection *coll = NULL;
+    struct disir_context *context = NULL;
     enum disir_status status;
     Json::Value child;
     const char *name;
@@ -407,15 +434,17 @@ MoldWriter::_serialize_mold_contexts (struct disir_context *parent_context, Json
                 status = serialize_attributes (context, child, DISIR_CONTEXT_SECTION);
                 if (status != DISIR_STATUS_OK)
                 {
-                    return status;
+                    goto end;
                 }
 
                 status = serialize_restrictions (context, child);
                 if (status != DISIR_STATUS_OK)
                 {
-                    return status;
+                    goto end;
                 }
 
+                // A section is told by its elements, even if there are none
+                child[ATTRIBUTE_KEY_ELEMENTS] = Json::objectValue;
                 status = _serialize_mold_contexts (context, child[ATTRIBUTE_KEY_ELEMENTS]);
                 if (status != DISIR_STATUS_OK)
                     goto end;
@@ -423,7 +452,8 @@ MoldWriter::_serialize_mold_contexts (struct disir_context *parent_context, Json
                 break;
             default:
                 disir_error_set (m_disir, "Got unrecognizable context object: %s",
-                                           dc_value_type_string (context));
+                                           dc_context_type_string (context));
+                status = DISIR_STATUS_INTERNAL_ERROR;
                 goto end;
         }
 
@@ -489,6 +519,13 @@ MoldWriter::serialize_default (struct disir_context *context, Json::Value& defau
             if (status != DISIR_STATUS_OK)
                 goto error;
 
+            // There is no such number in JSON
+            if (std::isfinite (floatval) == false)
+            {
+                status = DISIR_STATUS_WRONG_VALUE_TYPE;
+                goto error;
+            }
+
             current[ATTRIBUTE_KEY_VALUE] = floatval;
             break;
         case DISIR_VALUE_TYPE_BOOLEAN:
-- 
2.43.0


From fbb259cee654fd926f3d7398c76d0fbed7add6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 046/106] fix: JSON mold reader refuses entries of the wrong
 type and destroys what it began

---
 lib/fslib/json/json_unserialize_mold.cc | 70 +++++++++++++++++--------
 1 file changed, 47 insertions(+), 23 deletions(-)

diff --git a/lib/fslib/json/json_unserialize_mold.cc b/lib/fslib/json/json_unserialize_mold.cc
index f60527e..bc0e530 100644
--- a/lib/fslib/json/json_unserialize_mold.cc
+++ b/lib/fslib/json/json_unserialize_mold.cc
@@ -84,6 +84,12 @@ MoldReader::construct_mold (struct disir_mold **mold)
     struct disir_context *context_mold = NULL;
     enum disir_status status;
 
+    if (m_moldRoot.isObject () == false)
+    {
+        disir_error_set (m_disir, "Parse error: mold is not an object");
+        return DISIR_STATUS_FS_ERROR;
+    }
+
     status = dc_mold_begin (&context_mold);
     if (status != DISIR_STATUS_OK)
     {
@@ -96,8 +102,7 @@ MoldReader::construct_mold (struct disir_mold **mold)
         status = dc_add_documentation (context_mold, doc.c_str (), doc.size ());
         if (status != DISIR_STATUS_OK)
         {
-
-            return status;
+            goto error;
         }
     }
 
@@ -106,6 +111,11 @@ MoldReader::construct_mold (struct disir_mold **mold)
         dc_fatal_error (context_mold, "missing top-level object 'mold'");
         goto finalize;
     }
+    if (m_moldRoot[ATTRIBUTE_KEY_MOLD].isObject () == false)
+    {
+        dc_fatal_error (context_mold, "top-level 'mold' is not an object");
+        goto finalize;
+    }
 
     status = _unserialize_mold (context_mold, m_moldRoot[ATTRIBUTE_KEY_MOLD]);
     if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
@@ -123,13 +133,14 @@ MoldReader::construct_mold (struct disir_mold **mold)
 
 finalize:
     status = dc_mold_finalize (&context_mold, mold);
-    if (status != DISIR_STATUS_OK)
+    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
     {
         goto error;
     }
 
     return status;
 error:
+    disir_error_set (m_disir, "cannot construct mold: %s", disir_status_string (status));
     if (context_mold)
     {
         // delete
@@ -179,7 +190,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
     if (status != DISIR_STATUS_OK &&
         status != DISIR_STATUS_INVALID_CONTEXT)
     {
-        return status;
+        goto error;
     }
 
     if (status == DISIR_STATUS_INVALID_CONTEXT)
@@ -189,7 +200,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
     if (status != DISIR_STATUS_OK
         && status != DISIR_STATUS_INVALID_CONTEXT)
     {
-        return status;
+        goto error;
     }
 
     if (type == DISIR_CONTEXT_SECTION)
@@ -205,7 +216,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
-            return status;
+            goto error;
         }
     }
     else if  (type == DISIR_CONTEXT_KEYVAL)
@@ -214,7 +225,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
-            return status;
+            goto error;
         }
     }
     if (status == DISIR_STATUS_INVALID_CONTEXT)
@@ -225,7 +236,7 @@ finalize:
     if (status != DISIR_STATUS_OK &&
         status != DISIR_STATUS_INVALID_CONTEXT)
     {
-        return status;
+        goto error;
     }
 
     if (status == DISIR_STATUS_INVALID_CONTEXT)
@@ -234,6 +245,12 @@ finalize:
     }
 
     return DISIR_STATUS_OK;
+error:
+    if (context)
+    {
+        dc_destroy (&context);
+    }
+    return status;
 }
 
 //! PRIVATE
@@ -507,14 +524,13 @@ MoldReader::set_restriction_value (struct disir_context *context, Json::Value& c
     {
     case DISIR_RESTRICTION_INC_ENTRY_MIN:
     {
-        status = assert_json_value_type (value, Json::intValue);
-        if (status != DISIR_STATUS_OK)
+        if (value.isIntegral () == false)
         {
             dc_fatal_error (context, "Wrong value type for inclusive entry min");
             return DISIR_STATUS_INVALID_CONTEXT;
         }
 
-        status = dc_restriction_set_numeric (context, value.asInt64 ());
+        status = dc_restriction_set_numeric (context, value.asDouble ());
         if (status != DISIR_STATUS_OK)
         {
 
@@ -524,14 +540,13 @@ MoldReader::set_restriction_value (struct disir_context *context, Json::Value& c
     }
     case DISIR_RESTRICTION_INC_ENTRY_MAX:
     {
-        status = assert_json_value_type (value, Json::intValue);
-        if (status != DISIR_STATUS_OK)
+        if (value.isIntegral () == false)
         {
             dc_fatal_error (context, "Wrong value type for inclusive entry max");
             return DISIR_STATUS_INVALID_CONTEXT;
         }
 
-        status = dc_restriction_set_numeric (context, value.asInt64 ());
+        status = dc_restriction_set_numeric (context, value.asDouble ());
         if (status != DISIR_STATUS_OK)
         {
             return status;
@@ -540,8 +555,7 @@ MoldReader::set_restriction_value (struct disir_context *context, Json::Value& c
     }
     case DISIR_RESTRICTION_EXC_VALUE_NUMERIC:
     {
-        if (assert_json_value_type (value, Json::intValue) != DISIR_STATUS_OK
-            && assert_json_value_type (value, Json::realValue) != DISIR_STATUS_OK)
+        if (value.isNumeric () == false)
         {
             dc_fatal_error (context,
                             "restriction numeric value field should be integer or float, found %s",
@@ -558,10 +572,7 @@ MoldReader::set_restriction_value (struct disir_context *context, Json::Value& c
     }
     case DISIR_RESTRICTION_EXC_VALUE_RANGE:
     {
-        if (assert_json_value_type (value[0], Json::intValue) == DISIR_STATUS_OK ||
-            assert_json_value_type (value[1], Json::intValue) == DISIR_STATUS_OK ||
-            assert_json_value_type (value[0], Json::realValue) == DISIR_STATUS_OK ||
-            assert_json_value_type (value[1], Json::realValue) == DISIR_STATUS_OK)
+        if (value[0].isNumeric () && value[1].isNumeric ())
         {
 
             auto min = value[0].asDouble();
@@ -583,11 +594,9 @@ MoldReader::set_restriction_value (struct disir_context *context, Json::Value& c
         }
         else
         {
-            // only using value[0] since the json library
-            // restricts types in an array to be equal
             dc_fatal_error (context,
                             "wrong type for value range - got %s, expected integer or float",
-                            json_valuetype_stringify (value[0].type()));
+                            json_valuetype_stringify (value[value[0].isNumeric () ? 1 : 0].type()));
             return DISIR_STATUS_INVALID_CONTEXT;
         }
         break;
@@ -641,6 +650,12 @@ MoldReader::unserialize_restrictions (struct disir_context *context,
 
     for (i = 0; i < restrictions.size (); i++)
     {
+        if (restrictions[i].isObject () == false)
+        {
+            dc_fatal_error (context, "Restriction entry is not of type object");
+            return DISIR_STATUS_INVALID_CONTEXT;
+        }
+
         status = dc_begin (context, DISIR_CONTEXT_RESTRICTION, &restriction);
         if (status != DISIR_STATUS_OK)
         {
@@ -651,6 +666,7 @@ MoldReader::unserialize_restrictions (struct disir_context *context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
+            dc_destroy (&restriction);
             return status;
         }
 
@@ -658,6 +674,7 @@ MoldReader::unserialize_restrictions (struct disir_context *context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
+            dc_destroy (&restriction);
             return status;
         }
 
@@ -706,6 +723,13 @@ MoldReader::unserialize_defaults (struct disir_context *context_keyval, Json::Va
     for (unsigned int i = 0; i < defaults.size (); i++)
     {
         def = defaults[i];
+        error = DISIR_STATUS_OK;
+        if (def.isObject () == false)
+        {
+            dc_fatal_error (context_keyval, "Default entry is not of type object");
+            return DISIR_STATUS_INVALID_CONTEXT;
+        }
+
         status = dc_begin (context_keyval, DISIR_CONTEXT_DEFAULT, &context_default);
         if (status != DISIR_STATUS_OK)
         {
-- 
2.43.0


From 4574a9e8efdb606f4e2a2139bb133b5d37d4cc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 047/106] fix: a version set on a mold is kept in its JSON text

---
 lib/fslib/json/json_serialize_mold.cc   | 40 +++++++++++++++++++++++++
 lib/fslib/json/json_unserialize_mold.cc | 20 +++++++++++++
 lib/include/json/json_serialize.h       | 10 +++++++
 3 files changed, 70 insertions(+)

diff --git a/lib/fslib/json/json_serialize_mold.cc b/lib/fslib/json/json_serialize_mold.cc
index de84a5d..1075b0e 100644
--- a/lib/fslib/json/json_serialize_mold.cc
+++ b/lib/fslib/json/json_serialize_mold.cc
@@ -35,6 +35,36 @@ MoldWriter::MoldWriter (struct disir_instance *disir) : JsonIO (disir)
 {
 }
 
+void
+MoldWriter::imply_version (struct disir_version *version)
+{
+    if (dc_version_compare (version, &m_implied) > 0)
+    {
+        m_implied = *version;
+    }
+}
+
+enum disir_status
+MoldWriter::serialize_version (struct disir_context *context_mold, Json::Value& root)
+{
+    char buf[500];
+    enum disir_status status;
+    struct disir_version version;
+
+    status = dc_get_version (context_mold, &version);
+    if (status != DISIR_STATUS_OK)
+    {
+        return status;
+    }
+
+    if (dc_version_compare (&version, &m_implied) != 0)
+    {
+        root[ATTRIBUTE_KEY_VERSION] = dc_version_string (buf, 500, &version);
+    }
+
+    return status;
+}
+
 enum disir_status
 MoldWriter::serialize_deprecated (struct disir_context *context, Json::Value& current)
 {
@@ -62,6 +92,7 @@ MoldWriter::serialize_deprecated (struct disir_context *context, Json::Value& cu
     }
 
     auto version_string = dc_version_string (buf, 500, &version);
+    imply_version (&version);
 
     current[ATTRIBUTE_KEY_DEPRECATED] = version_string;
 
@@ -87,6 +118,7 @@ MoldWriter::serialize_introduced (struct disir_context *context, Json::Value& cu
     }
 
     auto version_string = dc_version_string (buf, 500, &version);
+    imply_version (&version);
 
     current[ATTRIBUTE_KEY_INTRODUCED] = version_string;
 
@@ -124,6 +156,10 @@ MoldWriter::serialize (struct disir_mold *mold, std::string& mold_json)
     if (status != DISIR_STATUS_OK)
         goto end;
 
+    status = serialize_version (context_mold, root);
+    if (status != DISIR_STATUS_OK)
+        goto end;
+
     mold_json = writer.writeOrdered (root);
 
 end:
@@ -156,6 +192,10 @@ MoldWriter::serialize (struct disir_mold *mold, std::ostream& stream)
     if (status != DISIR_STATUS_OK)
         goto end;
 
+    status = serialize_version (context_mold, root);
+    if (status != DISIR_STATUS_OK)
+        goto end;
+
     stream << writer.writeOrdered (root);
     stream.flush ();
     if (stream.fail ())
diff --git a/lib/fslib/json/json_unserialize_mold.cc b/lib/fslib/json/json_unserialize_mold.cc
index bc0e530..1c9e39b 100644
--- a/lib/fslib/json/json_unserialize_mold.cc
+++ b/lib/fslib/json/json_unserialize_mold.cc
@@ -123,6 +123,26 @@ MoldReader::construct_mold (struct disir_mold **mold)
         goto error;
     }
 
+    // The version of the mold, if it is not that of its newest element
+    if (m_moldRoot[ATTRIBUTE_KEY_VERSION].isNull () == false)
+    {
+        struct disir_version version;
+
+        if (m_moldRoot[ATTRIBUTE_KEY_VERSION].isString () == false ||
+            dc_version_convert (m_moldRoot[ATTRIBUTE_KEY_VERSION].asCString (), &version)
+                != DISIR_STATUS_OK)
+        {
+            dc_fatal_error (context_mold, "mold 'version' is not a version");
+            goto finalize;
+        }
+        auto version_status = dc_set_version (context_mold, &version);
+        if (version_status != DISIR_STATUS_OK)
+        {
+            status = version_status;
+            goto error;
+        }
+    }
+
     // Don't bother applying override if namespace mold is invalid
     if (override_mold_is_set () && status != DISIR_STATUS_INVALID_CONTEXT)
     {
diff --git a/lib/include/json/json_serialize.h b/lib/include/json/json_serialize.h
index 0c01063..a371ac8 100644
--- a/lib/include/json/json_serialize.h
+++ b/lib/include/json/json_serialize.h
@@ -131,8 +131,18 @@ namespace dio
         enum disir_status
         serialize_default (struct disir_context *context, Json::Value& defaults);
 
+        //! \brief Serialize the version of the mold, unless its elements already imply it.
+        enum disir_status
+        serialize_version (struct disir_context *context_mold, Json::Value& root);
+
+        //! \brief Account for a version serialized into the mold.
+        void
+        imply_version (struct disir_version *version);
+
         /* MEMBERS */
         struct disir_mold *m_mold = nullptr;
+        //! Version a reader of the serialized elements arrives at
+        struct disir_version m_implied = {1, 0};
     };
 }
 
-- 
2.43.0


From eb126015296ec296ce79cf46fd81c30459aa15f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 048/106] fix: JSON mold override that is no override is
 refused with an error text

---
 lib/fslib/json/json_mold_namespace_override.cc | 10 +++++++++-
 lib/fslib/json/json_unserialize.cc             |  7 ++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/json/json_mold_namespace_override.cc b/lib/fslib/json/json_mold_namespace_override.cc
index 56b0e51..12621e4 100644
--- a/lib/fslib/json/json_mold_namespace_override.cc
+++ b/lib/fslib/json/json_mold_namespace_override.cc
@@ -28,7 +28,6 @@ MoldOverride::parse_mold_override_entry (struct disir_instance *instance, std::i
     bool success = reader.parse (entry, root);
     if (!success)
     {
-        std::cout << reader.getFormattedErrorMessages() << std::endl;
         disir_error_set (instance, "mold override parse error: %s",
                                    reader.getFormattedErrorMessages().c_str());
         return DISIR_STATUS_FS_ERROR;
@@ -145,6 +144,15 @@ MoldOverride::validate_override_entry (struct disir_instance *instance, Json::Va
                              "invalid sync entry: sync entry (%d) namespace version not string", i);
             return DISIR_STATUS_FS_ERROR;
         }
+
+        struct disir_version version;
+        if (dc_version_convert (override_version.asCString(), &version) != DISIR_STATUS_OK ||
+            dc_version_convert (namespace_version.asCString(), &version) != DISIR_STATUS_OK)
+        {
+            disir_error_set (instance,
+                             "invalid sync entry: sync entry (%d) maps a malformed version", i);
+            return DISIR_STATUS_FS_ERROR;
+        }
         versions.insert (override_version.asString());
     }
 
diff --git a/lib/fslib/json/json_unserialize.cc b/lib/fslib/json/json_unserialize.cc
index b3596d3..235a8f5 100644
--- a/lib/fslib/json/json_unserialize.cc
+++ b/lib/fslib/json/json_unserialize.cc
@@ -71,6 +71,10 @@ dio_json_unserialize_mold_override (struct disir_instance *instance,
         status = reader.set_mold_override (override_file);
         if (status != DISIR_STATUS_OK)
         {
+            if (status == DISIR_STATUS_NOT_EXIST)
+            {
+                disir_error_set (instance, "mold override has neither 'sync' nor 'override'");
+            }
             return status;
         }
 
@@ -136,7 +140,8 @@ dio_json_unserialize_mold_filepath (struct disir_instance *instance,
         override_file = fopen (override_filepath, "r");
         if (override_file == NULL)
         {
-            disir_error_set (instance, "opening for reading %s: %s", filepath, strerror (errno));
+            disir_error_set (instance, "opening for reading %s: %s",
+                                       override_filepath, strerror (errno));
             status = DISIR_STATUS_FS_ERROR;
             goto out;
         }
-- 
2.43.0


From 7e887e27b2abcc8fd3a3b912e8df3b3f8d90ed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 049/106] fix: JSON mold whose documentation is no string is
 invalid

---
 lib/fslib/json/json_unserialize_mold.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/fslib/json/json_unserialize_mold.cc b/lib/fslib/json/json_unserialize_mold.cc
index 1c9e39b..73a4a0e 100644
--- a/lib/fslib/json/json_unserialize_mold.cc
+++ b/lib/fslib/json/json_unserialize_mold.cc
@@ -106,6 +106,12 @@ MoldReader::construct_mold (struct disir_mold **mold)
         }
     }
 
+    else if (m_moldRoot[ATTRIBUTE_KEY_DOCUMENTATION].isNull () == false)
+    {
+        dc_fatal_error (context_mold, "mold 'documentation' is not of type string");
+        goto finalize;
+    }
+
     if (m_moldRoot[ATTRIBUTE_KEY_MOLD].isNull ())
     {
         dc_fatal_error (context_mold, "missing top-level object 'mold'");
-- 
2.43.0


From 30a21300b797b73e8fd16e27d77f7d1076ce50fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 050/106] fix: JSON config that names an element of the wrong
 kind is refused with an error text

---
 lib/fslib/json/json_unserialize_config.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/json/json_unserialize_config.cc b/lib/fslib/json/json_unserialize_config.cc
index e6eaa9c..8513ef9 100644
--- a/lib/fslib/json/json_unserialize_config.cc
+++ b/lib/fslib/json/json_unserialize_config.cc
@@ -190,6 +190,8 @@ ConfigReader::set_keyval (struct disir_context *parent_context,
     if (status != DISIR_STATUS_OK &&
         status != DISIR_STATUS_NOT_EXIST)
     {
+        disir_error_set (m_disir, "cannot name keyval '%s': %s",
+                                  name.c_str (), disir_status_string (status));
         goto error;
     }
 
@@ -268,7 +270,7 @@ ConfigReader::unserialize_type (struct disir_context *context, Json::Value& valu
             status != DISIR_STATUS_NOT_EXIST)
         {
             // THis is unexpected, crash hard!
-            disir_log_user (m_disir, "Could not set name (%s) : %s", name.c_str (),
+            disir_error_set (m_disir, "cannot name section '%s': %s", name.c_str (),
                                       disir_status_string (status));
             goto error;
         }
-- 
2.43.0


From f3822a6c798fea729d524765b4d0d3c2cc94700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 051/106] fix: TOML config whose version is no string is
 invalid

---
 lib/fslib/toml/toml_unserialize.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index f9bd067..a67ffc3 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -313,6 +313,8 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
                                        " Expecting string. Defaulting to version 1.0.0",
                                        ATTRIBUTE_KEY_DISIR_CONFIG_VERSION,
                                        version->typeAsString ());
+            dc_fatal_error (context_config, "%s is not a string",
+                                            ATTRIBUTE_KEY_DISIR_CONFIG_VERSION);
         }
         else
         {
-- 
2.43.0


From 1e2e16c699d6ef6afca1c9bd65e696876ea5301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 052/106] fix: fslib_mkdir_p returned an uninitialised status

---
 lib/fslib/mkdir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fslib/mkdir.c b/lib/fslib/mkdir.c
index ad6a2bd..345a4fe 100644
--- a/lib/fslib/mkdir.c
+++ b/lib/fslib/mkdir.c
@@ -36,6 +36,7 @@ fslib_mkdir_p (struct disir_instance *instance, const char *path)
     char *p;
 
     errno = 0;
+    status = DISIR_STATUS_OK;
 
     // Copy a mutable string
     if (len > sizeof(_path)-1)
-- 
2.43.0


From 7eb81b47b1ccbba28c4071d0f2da5251bbddeee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 053/106] fix: config read leaked its mold when the entry
 cannot be opened or the mold is invalid

---
 lib/fslib/read.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/read.c b/lib/fslib/read.c
index feaae82..0d9b01d 100644
--- a/lib/fslib/read.c
+++ b/lib/fslib/read.c
@@ -16,7 +16,7 @@ fslib_plugin_config_read (struct disir_instance *instance,
     enum disir_status status;
     char filepath[PATH_MAX];
     struct stat statbuf;
-    struct disir_mold *resolved_mold;
+    struct disir_mold *resolved_mold = NULL;
 
     status = fslib_config_resolve_filepath (instance, plugin, entry_id, filepath);
     if (status != DISIR_STATUS_OK)
@@ -44,6 +44,7 @@ fslib_plugin_config_read (struct disir_instance *instance,
                 // XXX: Another error perhaps?
                 status = DISIR_STATUS_MOLD_MISSING;
                 disir_error_set (instance, "mold is not valid. Cannot load config.");
+                disir_mold_finished (&resolved_mold);
             }
             return status;
         }
@@ -61,6 +62,10 @@ fslib_plugin_config_read (struct disir_instance *instance,
         // TODO: Check errno and set appropriate error
         // TODO: Use threadsafe strerror, or refactor entirely
         disir_error_set (instance, "opening for reading %s: %s", filepath, strerror (errno));
+        if (mold == NULL)
+        {
+            disir_mold_finished (&resolved_mold);
+        }
         return DISIR_STATUS_FS_ERROR;
     }
 
-- 
2.43.0


From 962ca99df800fd8014ddc0274579e7ccc2209cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 054/106] fix: config remove reported success without removing
 the entry

---
 lib/fslib/write.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index e73d416..10ff0b3 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -220,7 +220,16 @@ fslib_plugin_config_remove (struct disir_instance *instance,
     if (status == DISIR_STATUS_OK)
     {
         // Delete the file
-        remove (filepath);
+        if (S_ISREG (statbuf.st_mode) == 0)
+        {
+            disir_error_set (instance, "resolved filepath is not a file: %s", filepath);
+            return DISIR_STATUS_FS_ERROR;
+        }
+        if (remove (filepath) != 0)
+        {
+            disir_error_set (instance, "removing %s: %s", filepath, strerror (errno));
+            return DISIR_STATUS_FS_ERROR;
+        }
     }
     else if (status == DISIR_STATUS_NOT_EXIST)
     {
-- 
2.43.0


From 57287354bb39b6e42e0cb97a26207ea7272ad4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 055/106] fix: fslib path too long is refused with an error
 text and without overrun

---
 lib/fslib/filepath.c | 4 ++--
 lib/fslib/query.cc   | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/filepath.c b/lib/fslib/filepath.c
index ec94648..b5bd3fe 100644
--- a/lib/fslib/filepath.c
+++ b/lib/fslib/filepath.c
@@ -10,7 +10,6 @@ fslib_config_resolve_filepath (struct disir_instance *instance, struct disir_reg
 {
     int res;
 
-    (void) &instance;
     // QUESTION: Dis-allow access to only '/' query?
     // QUESTION: Dis-allow access to queries starting with /? That is reserved right?
 
@@ -19,6 +18,7 @@ fslib_config_resolve_filepath (struct disir_instance *instance, struct disir_reg
 
     if (res >= PATH_MAX)
     {
+        disir_error_set (instance, "filepath exceeded internal buffer of %d bytes", PATH_MAX);
         return DISIR_STATUS_INSUFFICIENT_RESOURCES;
     }
 
@@ -32,7 +32,6 @@ fslib_mold_resolve_filepath (struct disir_instance *instance, struct disir_regis
 {
     int res;
 
-    (void) &instance;
     // QUESTION: Dis-allow access to only '/' query?
     // QUESTION: Dis-allow access to queries starting with /? That is reserved right?
 
@@ -41,6 +40,7 @@ fslib_mold_resolve_filepath (struct disir_instance *instance, struct disir_regis
 
     if (res >= PATH_MAX)
     {
+        disir_error_set (instance, "filepath exceeded internal buffer of %d bytes", PATH_MAX);
         return DISIR_STATUS_INSUFFICIENT_RESOURCES;
     }
 
diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 3838a12..d823765 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -552,6 +552,14 @@ fslib_mold_resolve_entry_id (struct disir_instance *instance, struct disir_regis
 
     *sep = '\0';
 
+    if (strlen (filepath) + strlen ("/__namespace.") + strlen (plugin->dp_mold_entry_type)
+            >= PATH_MAX)
+    {
+        *filepath = '\0';
+        disir_error_set (instance, "filepath exceeded internal buffer of %d bytes", PATH_MAX);
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+    }
+
     strcat (filepath, "/__namespace.");
     strcat (filepath, plugin->dp_mold_entry_type);
 
-- 
2.43.0


From fb1343844fb4c60ffc8e4333b99c7d75ee4956ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 056/106] fix: mold filepath resolution overran, read
 uninitialised status and missed namespace molds

---
 lib/fslib/query.cc | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index d823765..beb1c8f 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -430,23 +430,34 @@ fslib_mold_resolve_entry_filepath (struct disir_instance *instance, const char *
     char *sep = NULL;
     char suffix[128];
 
-    strncpy (override_filepath, entry_path, PATH_MAX);
+    override_status = DISIR_STATUS_NOT_EXIST;
 
-    sep = strrchr (override_filepath, '.');
-    if (sep == NULL)
+    // The namespace entry replaces the last component of the path
+    sep = (char *) strrchr (entry_path, '.');
+    if (strlen (entry_path) + strlen ("/__namespace") >= PATH_MAX
+        || (sep != NULL && strlen (sep) >= sizeof (suffix)))
+    {
+        disir_error_set (instance, "filepath exceeded internal buffer of %d bytes", PATH_MAX);
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+    }
+    if (sep == NULL || strchr (sep, '/') != NULL)
+    {
+        disir_error_set (instance, "filepath has no suffix: '%s'", entry_path);
         return DISIR_STATUS_FS_ERROR;
+    }
 
-    strncpy (suffix, sep, 128);
+    strcpy (override_filepath, entry_path);
+    strcpy (suffix, sep);
+
+    sep = strrchr (override_filepath, '.');
 
     // first check if the requested entry is an override entry
-    if (strncmp (sep - strlen (".o"), ".o", strlen (".o")) == 0)
+    if (sep - override_filepath >= (ssize_t) strlen (".o")
+        && strncmp (sep - strlen (".o"), ".o", strlen (".o")) == 0)
     {
-        strncpy (filepath, entry_path, PATH_MAX);
+        strcpy (filepath, entry_path);
 
         sep = strrchr (filepath, '.');
-        if (sep == NULL)
-            return DISIR_STATUS_FS_ERROR;
-
         sep -= strlen(".o");
         *sep = '\0';
 
@@ -457,7 +468,7 @@ fslib_mold_resolve_entry_filepath (struct disir_instance *instance, const char *
     else
     {
         *override_filepath = '\0';
-        strncpy (filepath, entry_path, PATH_MAX);
+        strcpy (filepath, entry_path);
     }
 
     status = fslib_stat_filepath (instance, filepath, statbuf);
@@ -466,13 +477,13 @@ fslib_mold_resolve_entry_filepath (struct disir_instance *instance, const char *
         return status;
     }
 
+    disir_error_clear (instance);
+
     sep = strrchr (filepath, '/');
-    if (sep == NULL)
-    {
-        return DISIR_STATUS_FS_ERROR;
-    }
+    sep = sep == NULL ? filepath : sep + 1;
+    *sep = '\0';
 
-    strcat (filepath, "/__namespace.");
+    strcat (filepath, "__namespace");
     strcat (filepath, suffix);
 
     status = fslib_stat_filepath (instance, filepath, statbuf);
@@ -488,9 +499,7 @@ fslib_mold_resolve_entry_filepath (struct disir_instance *instance, const char *
         *namespace_entry = 1;
     }
 
-    return (override_status == DISIR_STATUS_OK
-            && status != DISIR_STATUS_OK
-            ? DISIR_STATUS_NOT_EXIST : DISIR_STATUS_OK);
+    return status;
 }
 
 //! FSLIB API
-- 
2.43.0


From 3e93bd49240cf51c8f63473265b42afb5fe79f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 057/106] fix: mold entry with own and override file listed
 twice in a directory with a namespace

---
 lib/fslib/query.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index beb1c8f..92b3c69 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -248,7 +248,7 @@ fslib_mold_query_entries (struct disir_instance *instance, struct disir_register
                     // Strip away the override entry suffix
                     // Check if this exists - if it does, ignore this and move to the next
                     std::stringstream oestripped_stream;
-                    oestripped_stream << searchdir
+                    oestripped_stream << plugin->dp_mold_base_id << '/'
                                       << entry_name.substr(0, entry_name.size() - oid.size())
                                       << suffix;
                     std::string oestripped = oestripped_stream.str();
-- 
2.43.0


From e91936c7dab658b8f6597d5b3760f6f2564b181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 058/106] fix: entry ids reaching outside the base directory
 are refused by every fslib operation

---
 include/disir/fslib/util.h | 12 ++++++++++++
 lib/fslib/filepath.c       | 20 ++++++++++++++++++++
 lib/fslib/query.cc         |  6 ++++++
 lib/fslib/write.c          |  7 +++++++
 4 files changed, 45 insertions(+)

diff --git a/include/disir/fslib/util.h b/include/disir/fslib/util.h
index f779836..9659ddc 100644
--- a/include/disir/fslib/util.h
+++ b/include/disir/fslib/util.h
@@ -54,6 +54,18 @@ DISIR_EXPORT
 const char *
 fslib_namespace_entry (const char *name, char *namespace_entry);
 
+//! \brief Check that entry_id only holds the characters an entry id may hold.
+//!
+//! An entry_id is made of lowercase letters, digits and underscore, and of the
+//! directory separator '/'.
+//!
+//! \return DISIR_STATUS_RESTRICTION_VIOLATED if entry_id is ill-formed.
+//! \return DISIR_STATUS_OK on success.
+//!
+DISIR_EXPORT
+enum disir_status
+fslib_validate_entry_id (struct disir_instance *instance, const char *entry_id);
+
 //! \brief Resolve entry_id to plugin filepath for config.
 //!
 //! \param[out] filepath Populate the output buffer with the complete, resolved filepath.
diff --git a/lib/fslib/filepath.c b/lib/fslib/filepath.c
index b5bd3fe..9d36a3f 100644
--- a/lib/fslib/filepath.c
+++ b/lib/fslib/filepath.c
@@ -3,16 +3,36 @@
 #include <limits.h>
 #include <errno.h>
 
+//! FSLIB API
+enum disir_status
+fslib_validate_entry_id (struct disir_instance *instance, const char *entry_id)
+{
+    if (entry_id[strspn (entry_id, "abcdefghijklmnopqrstuvwxyz0123456789_/")] != '\0')
+    {
+        disir_error_set (instance, "entry_id is ill-formed");
+        return DISIR_STATUS_RESTRICTION_VIOLATED;
+    }
+
+    return DISIR_STATUS_OK;
+}
+
 //! FSLIB API
 enum disir_status
 fslib_config_resolve_filepath (struct disir_instance *instance, struct disir_register_plugin *plugin,
                                const char *entry_id, char *filepath)
 {
+    enum disir_status status;
     int res;
 
     // QUESTION: Dis-allow access to only '/' query?
     // QUESTION: Dis-allow access to queries starting with /? That is reserved right?
 
+    status = fslib_validate_entry_id (instance, entry_id);
+    if (status != DISIR_STATUS_OK)
+    {
+        return status;
+    }
+
     res = snprintf (filepath, PATH_MAX, "%s/%s.%s",
                      plugin->dp_config_base_id, entry_id, plugin->dp_config_entry_type);
 
diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 92b3c69..bc4a7e7 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -512,6 +512,12 @@ fslib_mold_resolve_entry_id (struct disir_instance *instance, struct disir_regis
     enum disir_status override_status;
     char *sep = NULL;
 
+    status = fslib_validate_entry_id (instance, entry_id);
+    if (status != DISIR_STATUS_OK)
+    {
+        return status;
+    }
+
     override_status = DISIR_STATUS_OK;
     if (override_filepath != NULL)
     {
diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index 10ff0b3..2ce3765 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -113,6 +113,13 @@ fslib_plugin_mold_write (struct disir_instance *instance, struct disir_register_
     char filepath[PATH_MAX];
     struct stat statbuf;
 
+    status = fslib_validate_entry_id (instance, entry_id);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        return status;
+    }
+
     status = fslib_mold_resolve_filepath (instance, plugin, entry_id, filepath);
     if (status != DISIR_STATUS_OK)
     {
-- 
2.43.0


From 6ebb49efb2ddc0e007b6973c1f35adb0655934a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 059/106] fix: fslib writes entries to a new file that replaces
 the old one when complete

---
 lib/fslib/write.c | 121 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 109 insertions(+), 12 deletions(-)

diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index 2ce3765..155afce 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -3,8 +3,107 @@
 
 // system
 #include <errno.h>
+#include <fcntl.h>
 #include <limits.h>
+#include <stdlib.h>
+#include <unistd.h>
+
+//! STATIC API
+//! Open a new file next to the one to write. Its content replaces that of filepath
+//! when replacement_finish is called with DISIR_STATUS_OK.
+//! A filepath that is a symbolic link is replaced by what it refers to.
+static FILE *
+replacement_begin (struct disir_instance *instance, char *filepath, char *replacement)
+{
+    char resolved[PATH_MAX];
+    struct stat statbuf;
+    FILE *file;
+    int exists;
+    int fd;
+    int i;
+
+    exists = (stat (filepath, &statbuf) == 0);
+    if (exists && (access (filepath, W_OK) != 0 || realpath (filepath, resolved) == NULL))
+    {
+        disir_error_set (instance, "opening for writing %s: %s", filepath, strerror (errno));
+        return NULL;
+    }
+    if (exists)
+    {
+        strcpy (filepath, resolved);
+    }
+
+    fd = -1;
+    for (i = 0; fd == -1 && i < 1000; i++)
+    {
+        if (snprintf (replacement, PATH_MAX, "%s.tmp%ld_%d", filepath, (long) getpid (), i)
+            >= PATH_MAX)
+        {
+            disir_error_set (instance, "filepath exceeded internal buffer of %d bytes", PATH_MAX);
+            return NULL;
+        }
+
+        fd = open (replacement, O_RDWR | O_CREAT | O_EXCL | O_CLOEXEC, 0666);
+        if (fd == -1 && errno != EEXIST)
+        {
+            break;
+        }
+    }
+
+    file = NULL;
+    if (fd != -1 && (exists == 0 || fchmod (fd, statbuf.st_mode & 07777) == 0))
+    {
+        file = fdopen (fd, "w+");
+    }
+    if (file == NULL)
+    {
+        // TODO: Check errno and set appropriate error
+        // TODO: Use threadsafe strerror, or refactor entirely
+        disir_error_set (instance, "opening for writing %s: %s", filepath, strerror (errno));
+        if (fd != -1)
+        {
+            close (fd);
+            unlink (replacement);
+        }
+    }
+
+    return file;
+}
+
+//! STATIC API
+//! Close the replacement and put it in place of filepath if status is DISIR_STATUS_OK.
+static enum disir_status
+replacement_finish (struct disir_instance *instance, FILE *file, const char *replacement,
+                    const char *filepath, enum disir_status status)
+{
+    int errsave;
+
+    errsave = 0;
+    if (fflush (file) != 0 || fsync (fileno (file)) != 0)
+    {
+        errsave = errno;
+    }
+    if (fclose (file) != 0 && errsave == 0)
+    {
+        errsave = errno;
+    }
+    if (status == DISIR_STATUS_OK && errsave == 0 && rename (replacement, filepath) != 0)
+    {
+        errsave = errno;
+    }
+
+    if (status == DISIR_STATUS_OK && errsave != 0)
+    {
+        disir_error_set (instance, "writing %s: %s", filepath, strerror (errsave));
+        status = DISIR_STATUS_FS_ERROR;
+    }
+    if (status != DISIR_STATUS_OK)
+    {
+        unlink (replacement);
+    }
 
+    return status;
+}
 
 //! FSLIB API
 enum disir_status
@@ -88,19 +187,18 @@ fslib_plugin_config_write (struct disir_instance *instance, struct disir_registe
 
     FILE *file;
 
-    file = fopen (filepath, "w+");
+    char replacement[PATH_MAX];
+
+    file = replacement_begin (instance, filepath, replacement);
     if (file == NULL)
     {
-        // TODO: Check errno and set appropriate error
-        // TODO: Use threadsafe strerror, or refactor entirely
-        disir_error_set (instance, "opening for writing %s: %s", filepath, strerror (errno));
+        // Already logged
         return DISIR_STATUS_FS_ERROR;
     }
 
     status = func_serialize (instance, config, file);
-    fclose (file);
 
-    return status;
+    return replacement_finish (instance, file, replacement, filepath, status);
 }
 
 //! FSLIB API
@@ -179,19 +277,18 @@ fslib_plugin_mold_write (struct disir_instance *instance, struct disir_register_
 
     FILE *file;
 
-    file = fopen (filepath, "w+");
+    char replacement[PATH_MAX];
+
+    file = replacement_begin (instance, filepath, replacement);
     if (file == NULL)
     {
-        // TODO: Check errno and set appropriate error
-        // TODO: Use threadsafe strerror, or refactor entirely
-        disir_error_set (instance, "opening for writing %s: %s", filepath, strerror (errno));
+        // Already logged
         return DISIR_STATUS_FS_ERROR;
     }
 
     status = func_serialize (instance, mold, file);
-    fclose (file);
 
-    return status;
+    return replacement_finish (instance, file, replacement, filepath, status);
 }
 
 //! FSLIB API
-- 
2.43.0


From 37cc8224c8f3cda97f7fd284e13c928879b115d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 060/106] fix: fslib crashed with plugins that lack mold
 operations

---
 lib/fslib/query.cc | 12 ++++++++++++
 lib/fslib/read.c   |  5 +++++
 lib/fslib/write.c  | 12 ++++++++++++
 3 files changed, 29 insertions(+)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index bc4a7e7..f7508ad 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -42,6 +42,12 @@ fslib_config_query_entries (struct disir_instance *instance, struct disir_regist
     struct disir_entry *mold_entry;
     struct stat statbuf;
 
+    if (plugin->dp_mold_query == NULL)
+    {
+        disir_error_set (instance, "plugin '%s' cannot query for molds", plugin->dp_name);
+        return DISIR_STATUS_NO_CAN_DO;
+    }
+
     // File extension is always without the leading dot - add 1 for it
     std::stringstream suffix_stream;
     suffix_stream << "." << plugin->dp_config_entry_type;
@@ -319,6 +325,12 @@ fslib_plugin_config_query (struct disir_instance *instance, struct disir_registe
     char filepath[PATH_MAX];
     struct disir_entry *ret = NULL;
 
+    if (plugin->dp_mold_query == NULL)
+    {
+        disir_error_set (instance, "plugin '%s' cannot query for molds", plugin->dp_name);
+        return DISIR_STATUS_NO_CAN_DO;
+    }
+
     status = plugin->dp_mold_query (instance, plugin, entry_id, &ret);
     if (status == DISIR_STATUS_NOT_EXIST)
     {
diff --git a/lib/fslib/read.c b/lib/fslib/read.c
index 0d9b01d..e48b755 100644
--- a/lib/fslib/read.c
+++ b/lib/fslib/read.c
@@ -36,6 +36,11 @@ fslib_plugin_config_read (struct disir_instance *instance,
     // Locate mold from plugin
     if (mold == NULL)
     {
+        if (plugin->dp_mold_read == NULL)
+        {
+            disir_error_set (instance, "plugin '%s' cannot read molds", plugin->dp_name);
+            return DISIR_STATUS_NO_CAN_DO;
+        }
         status = plugin->dp_mold_read (instance, plugin, entry_id, &resolved_mold);
         if (status != DISIR_STATUS_OK)
         {
diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index 155afce..0726bcf 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -115,6 +115,12 @@ fslib_plugin_config_write (struct disir_instance *instance, struct disir_registe
     char filepath[PATH_MAX];
     struct stat statbuf;
 
+    if (plugin->dp_mold_query == NULL)
+    {
+        disir_error_set (instance, "plugin '%s' cannot query for molds", plugin->dp_name);
+        return DISIR_STATUS_NO_CAN_DO;
+    }
+
     status = plugin->dp_mold_query (instance, plugin, entry_id, NULL);
     if (status == DISIR_STATUS_NOT_EXIST)
     {
@@ -301,6 +307,12 @@ fslib_plugin_config_remove (struct disir_instance *instance,
     char filepath[PATH_MAX];
     struct stat statbuf;
 
+    if (plugin->dp_mold_query == NULL)
+    {
+        disir_error_set (instance, "plugin '%s' cannot query for molds", plugin->dp_name);
+        return DISIR_STATUS_NO_CAN_DO;
+    }
+
     status = plugin->dp_mold_query (instance, plugin, entry_id, NULL);
     if (status == DISIR_STATUS_NOT_EXIST)
     {
-- 
2.43.0


From fa533f58c52251edd67227756299be81dd1940c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 061/106] fix: TOML plugin lacked removal of configs and its
 JSON mold operations

---
 plugins/toml/main.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/plugins/toml/main.cc b/plugins/toml/main.cc
index 4a99570..f94d0df 100644
--- a/plugins/toml/main.cc
+++ b/plugins/toml/main.cc
@@ -1,11 +1,20 @@
 #include <disir/plugin.h>
 #include <disir/fslib/toml.h>
+#include <disir/fslib/json.h>
+#include <disir/fslib/util.h>
 
 #define RM_CONST(t, exp) (t*)((char*)NULL + ((const char*)(exp) - (char*)NULL))
 
 extern "C" enum disir_status
 dio_register_plugin (struct disir_instance *instance, struct disir_register_plugin *plugin);
 
+static enum disir_status
+toml_config_remove (struct disir_instance *instance,
+                    struct disir_register_plugin *plugin, const char *entry_id)
+{
+    return fslib_plugin_config_remove (instance, plugin, entry_id);
+}
+
 enum disir_status
 dio_register_plugin (struct disir_instance *instance, struct disir_register_plugin *plugin)
 {
@@ -20,16 +29,15 @@ dio_register_plugin (struct disir_instance *instance, struct disir_register_plug
     plugin->dp_config_entry_type = RM_CONST (char, "toml");
     plugin->dp_config_read = dio_toml_config_read;
     plugin->dp_config_write = dio_toml_config_write;
-    plugin->dp_config_remove = NULL;
+    plugin->dp_config_remove = toml_config_remove;
     plugin->dp_config_entries = dio_toml_config_entries;
     plugin->dp_config_query = dio_toml_config_query;
 
-    // TODO: Use JSON based mold output.
     plugin->dp_mold_entry_type = RM_CONST (char, "json");
-    plugin->dp_mold_read = NULL;
-    plugin->dp_mold_write = NULL;
-    plugin->dp_mold_entries = NULL;
-    plugin->dp_mold_query = NULL;
+    plugin->dp_mold_read = dio_json_mold_read;
+    plugin->dp_mold_write = dio_json_mold_write;
+    plugin->dp_mold_entries = dio_json_mold_entries;
+    plugin->dp_mold_query = dio_json_mold_query;
 
     return DISIR_STATUS_OK;
 }
-- 
2.43.0


From 38a0fc93cbd7a963aa410ff86b94a5860465e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 062/106] fix: config remove called the operation it had not
 checked, and missing operations gave no error text

---
 lib/disir_config.c |  8 ++++----
 lib/disir_mold.c   | 13 ++++++-------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index b22b3fe..8c9ca1d 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -88,7 +88,7 @@ disir_config_read (struct disir_instance *instance, const char *group_id, const
         else
         {
             status = DISIR_STATUS_NO_CAN_DO;
-            log_debug (1, "Plugin '%s' does not implement config_read", plugin->pi_io_id);
+            disir_error_set (instance, "Plugin '%s' does not implement config_read", plugin->pi_io_id);
         }
     }
     else
@@ -156,7 +156,7 @@ disir_config_write (struct disir_instance *instance, const char *group_id, const
         else
         {
             status = DISIR_STATUS_NO_CAN_DO;
-            log_debug (1, "Plugin '%s' does not implement config_write", plugin->pi_io_id);
+            disir_error_set (instance, "Plugin '%s' does not implement config_write", plugin->pi_io_id);
         }
     }
     else
@@ -214,7 +214,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
 
     if (plugin)
     {
-        if (plugin->pi_plugin.dp_config_write)
+        if (plugin->pi_plugin.dp_config_remove)
         {
             status = plugin->pi_plugin.dp_config_remove (instance, &plugin->pi_plugin,
                                                          entry_id);
@@ -222,7 +222,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
         else
         {
             status = DISIR_STATUS_NO_CAN_DO;
-            log_debug (1, "Plugin '%s' does not implement config_write", plugin->pi_io_id);
+            disir_error_set (instance, "Plugin '%s' does not implement config_remove", plugin->pi_io_id);
         }
     }
     else
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 9ccf553..e73caca 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -32,7 +32,7 @@ disir_mold_read (struct disir_instance *instance, const char *group_id,
 
     plugin = NULL;
 
-    if (instance == NULL || entry_id == NULL || mold == NULL)
+    if (instance == NULL || group_id == NULL || entry_id == NULL || mold == NULL)
     {
         log_debug (0, "invoked with NULL argument(s)." \
                       " instance (%p), group_id (%p), entry_id (%p), mold (%p)",
@@ -89,7 +89,7 @@ disir_mold_read (struct disir_instance *instance, const char *group_id,
         else
         {
             status = DISIR_STATUS_NO_CAN_DO;
-            log_debug (1, "Plugin '%s' does not implement mold_read", plugin->pi_io_id);
+            disir_error_set (instance, "Plugin '%s' does not implement mold_read", plugin->pi_io_id);
         }
     }
     else
@@ -113,7 +113,7 @@ disir_mold_write (struct disir_instance *instance, const char *group_id,
 
     plugin = NULL;
 
-    if (instance == NULL || entry_id == NULL || mold == NULL)
+    if (instance == NULL || group_id == NULL || entry_id == NULL || mold == NULL)
     {
         log_debug (0, "invoked with NULL argument(s). instance (%p), entry_id (%p), mold (%p)",
                       instance, entry_id, mold);
@@ -146,14 +146,13 @@ disir_mold_write (struct disir_instance *instance, const char *group_id,
         }
         else
         {
-            // TODO: Change status to something more sensible.
-            status = DISIR_STATUS_INTERNAL_ERROR;;
-            log_debug (1, "Plugin '%s' does not implement mold_write", plugin->pi_io_id);
+            status = DISIR_STATUS_NO_CAN_DO;
+            disir_error_set (instance, "Plugin '%s' does not implement mold_write", plugin->pi_io_id);
         }
     }
     else
     {
-        disir_error_set (instance, "No plugin in group '%s' available: '%s'.", group_id);
+        disir_error_set (instance, "No plugin in group '%s' available.", group_id);
         status = DISIR_STATUS_NOT_EXIST;
     }
 
-- 
2.43.0


From ef4f91b6efb02c01130cec9c9b9538c862ac0d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 063/106] fix: log message about a failed query lacked an
 argument

---
 lib/disir_config.c | 2 +-
 lib/disir_mold.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 8c9ca1d..cbe5e7e 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -68,7 +68,7 @@ disir_config_read (struct disir_instance *instance, const char *group_id, const
         {
             log_warn ("Plugin '%s' (id %s) failed to query for entry '%s': %s",
                       entry->pi_io_id, entry->pi_plugin.dp_name,
-                      entry_id), disir_status_string (status);
+                      entry_id, disir_status_string (status));
             entry = entry->next;
             continue;
         }
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index e73caca..e426171 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -69,7 +69,7 @@ disir_mold_read (struct disir_instance *instance, const char *group_id,
         {
             log_warn ("Plugin '%s' (id %s) failed to query for entry '%s': %s",
                       entry->pi_io_id, entry->pi_plugin.dp_name,
-                      entry_id), disir_status_string (status);
+                      entry_id, disir_status_string (status));
             entry = entry->next;
             continue;
         }
-- 
2.43.0


From 74c76c338217930e164420d70a9905ab00732b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 064/106] fix: config and mold query are answered by the first
 plugin that has the entry

---
 lib/disir_config.c | 9 +++++++--
 lib/disir_mold.c   | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index cbe5e7e..5310adc 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -374,15 +374,20 @@ disir_config_query (struct disir_instance *instance, const char *group_id,
             continue;
         }
 
+        // The first plugin that has the entry answers
         plugin = entry;
+        status = plugin->pi_plugin.dp_config_query (instance, &plugin->pi_plugin,
+                                                    entry_id, entry_internal);
+        if (status == DISIR_STATUS_EXISTS)
+        {
+            break;
+        }
     }));
 
     if (plugin)
     {
         // QUESTION: Should this abstraction check if there is a mold available before
         // issuing the config query? Or handle it individually in the plugins?
-        status = plugin->pi_plugin.dp_config_query (instance, &plugin->pi_plugin,
-                                                    entry_id, entry_internal);
         if (status != DISIR_STATUS_EXISTS && status != DISIR_STATUS_NOT_EXIST)
         {
             log_warn ("Plugin '%s' config_query failed with status: %s",
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index e426171..adb15c6 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -291,13 +291,18 @@ disir_mold_query (struct disir_instance *instance, const char *group_id,
             continue;
         }
 
+        // The first plugin that has the entry answers
         plugin = entry;
+        status = plugin->pi_plugin.dp_mold_query (instance, &plugin->pi_plugin,
+                                                  entry_id, entry_internal);
+        if (status == DISIR_STATUS_EXISTS)
+        {
+            break;
+        }
     }));
 
     if (plugin)
     {
-        status = plugin->pi_plugin.dp_mold_query (instance, &plugin->pi_plugin,
-                                                  entry_id, entry_internal);
         if (status != DISIR_STATUS_EXISTS && status != DISIR_STATUS_NOT_EXIST)
         {
             log_warn ("Plugin '%s' config_query failed with status: %s",
-- 
2.43.0


From 4a0440143bb642f375dbb18bfc149c166dfddaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 065/106] fix: empty entry id was read out of bounds and
 written as an entry that is never listed

---
 lib/disir_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 5310adc..f008542 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -127,7 +127,7 @@ disir_config_write (struct disir_instance *instance, const char *group_id, const
     disir_error_clear (instance);
 
     entry_id_length = strlen (entry_id);
-    if (entry_id[entry_id_length - 1] == '/')
+    if (entry_id_length == 0 || entry_id[entry_id_length - 1] == '/')
     {
         // TODO: Add a better status?
         disir_error_set (instance, "cannot write namespace entry: %s", entry_id);
@@ -194,7 +194,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
     disir_error_clear (instance);
 
     entry_id_length = strlen (entry_id);
-    if (entry_id[entry_id_length - 1] == '/')
+    if (entry_id_length == 0 || entry_id[entry_id_length - 1] == '/')
     {
         disir_error_set (instance, "cannot remove namespace entry: %s", entry_id);
         return DISIR_STATUS_FS_ERROR;
-- 
2.43.0


From 181c23ebf2f02695794a14fcd2b82cdd4d530f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 066/106] fix: entry listing of several plugins looped on
 duplicates and kept entries of failed plugins

---
 lib/disir_config.c | 8 ++++++++
 lib/disir_mold.c   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index f008542..efcb2db 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -297,6 +297,12 @@ disir_config_entries (struct disir_instance *instance, const char *group_id,
         {
             log_warn ("Plugin '%s' queried for config entries failed with status: %s",
                       entry->pi_io_id, disir_status_string (status));
+            while (query != NULL)
+            {
+                current = query->next;
+                disir_entry_finished (&query);
+                query = current;
+            }
             entry = entry->next;
             retstatus = status;
             continue;
@@ -308,6 +314,8 @@ disir_config_entries (struct disir_instance *instance, const char *group_id,
         {
 
             query = current->next;
+            current->next = NULL;
+            current->prev = NULL;
 
             if (multimap_contains_key (map, (void *)current->de_entry_name) == 0)
             {
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index adb15c6..8f5b057 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -215,6 +215,12 @@ disir_mold_entries (struct disir_instance *instance,
         {
             log_debug (1, "Plugin '%s' queried for mold entries failed with status: %s",
                           entry->pi_io_id, disir_status_string (status));
+            while (query != NULL)
+            {
+                current = query->next;
+                disir_entry_finished (&query);
+                query = current;
+            }
             entry = entry->next;
             continue;
         }
@@ -225,6 +231,8 @@ disir_mold_entries (struct disir_instance *instance,
         {
 
             query = current->next;
+            current->next = NULL;
+            current->prev = NULL;
 
             if (multimap_contains_key (map, (void *)current->de_entry_name) == 0)
             {
-- 
2.43.0


From a1333b7e135cf0995744debc533c46de9ce456ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 067/106] fix: mold override of a version older than the newest
 default was silently ignored

---
 lib/fslib/json/json_mold_namespace_override.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/json/json_mold_namespace_override.cc b/lib/fslib/json/json_mold_namespace_override.cc
index 12621e4..1061eea 100644
--- a/lib/fslib/json/json_mold_namespace_override.cc
+++ b/lib/fslib/json/json_mold_namespace_override.cc
@@ -384,6 +384,7 @@ MoldOverride::set_value_existing_default (struct disir_context *context_keyval,
    struct disir_collection *collection;
    struct disir_context *context_default = NULL;
    struct disir_version version;
+   bool found = false;
 
    status = dc_get_default_contexts (context_keyval, &collection);
    if (status != DISIR_STATUS_OK)
@@ -401,12 +402,17 @@ MoldOverride::set_value_existing_default (struct disir_context *context_keyval,
 
         if (dc_version_compare (&version, version_target) == 0)
         {
+            found = true;
             status = set_value (context_default, value);
             if (status != DISIR_STATUS_OK)
                 goto out;
         }
         dc_putcontext (&context_default);
     }
+    if (found == false)
+    {
+        status = DISIR_STATUS_NOT_EXIST;
+    }
     // FALL-THROUGH
 out:
    if (context_default)
@@ -462,10 +468,15 @@ MoldOverride::apply_override (struct disir_context *context_mold, struct mold_en
     {
         status = add_value_default (context_keyval, entry->mo_value, &entry->mo_version);
     }
-    else if (eq == 0)
+    else
     {
         status = set_value_existing_default (context_keyval,
                                              &entry->mo_version, entry->mo_value);
+        if (status == DISIR_STATUS_NOT_EXIST)
+        {
+            // In effect from its version until that of the next default
+            status = add_value_default (context_keyval, entry->mo_value, &entry->mo_version);
+        }
     }
     if (status == DISIR_STATUS_WRONG_VALUE_TYPE)
     {
-- 
2.43.0


From 2205ea5a70fbaed1271d2b463afc81301fd3b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 068/106] fix: mold written under an id naming a directory was
 an entry that cannot be used

---
 lib/disir_mold.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 8f5b057..9b3f586 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -125,6 +125,13 @@ disir_mold_write (struct disir_instance *instance, const char *group_id,
 
     disir_error_clear (instance);
 
+    // As for configs - no entry is named by an empty last component
+    if (entry_id[0] == '\0' || entry_id[strlen (entry_id) - 1] == '/')
+    {
+        disir_error_set (instance, "cannot write mold entry: '%s'", entry_id);
+        return DISIR_STATUS_FS_ERROR;
+    }
+
     MQ_FOREACH (instance->dio_plugin_queue,
     ({
         if (strcmp (entry->pi_group_id, group_id) != 0)
-- 
2.43.0


From 2575d696bcdc40b7d7da74d50b803a5b8fc54df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 069/106] fix: entries with long names could not be written

---
 lib/fslib/write.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index 0726bcf..de21020 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -18,6 +18,7 @@ replacement_begin (struct disir_instance *instance, char *filepath, char *replac
     char resolved[PATH_MAX];
     struct stat statbuf;
     FILE *file;
+    const char *name;
     int exists;
     int fd;
     int i;
@@ -33,11 +34,15 @@ replacement_begin (struct disir_instance *instance, char *filepath, char *replac
         strcpy (filepath, resolved);
     }
 
+    // The name is no longer than that of an entry may be, and never that of an entry
+    name = strrchr (filepath, '/');
+    name = name == NULL ? filepath : name + 1;
+
     fd = -1;
     for (i = 0; fd == -1 && i < 1000; i++)
     {
-        if (snprintf (replacement, PATH_MAX, "%s.tmp%ld_%d", filepath, (long) getpid (), i)
-            >= PATH_MAX)
+        if (snprintf (replacement, PATH_MAX, "%.*s.tmp-%ld-%d", (int) (name - filepath),
+                      filepath, (long) getpid (), i) >= PATH_MAX)
         {
             disir_error_set (instance, "filepath exceeded internal buffer of %d bytes", PATH_MAX);
             return NULL;
-- 
2.43.0


From 2f76fe1b1c55a1656c598641295447423c00c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 070/106] fix: mold that cannot be accessed was taken for
 absent

---
 lib/fslib/filepath.c | 5 +++++
 lib/fslib/query.cc   | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/filepath.c b/lib/fslib/filepath.c
index 9d36a3f..98598ed 100644
--- a/lib/fslib/filepath.c
+++ b/lib/fslib/filepath.c
@@ -95,6 +95,11 @@ fslib_stat_filepath (struct disir_instance *instance,
         {
             // TODO: Use threadsafe strerror
             status = DISIR_STATUS_NOT_EXIST;
+            if (errsave != ENOENT && errsave != ENAMETOOLONG && errsave != ELOOP)
+            {
+                // Whether it exists is not known
+                status = DISIR_STATUS_FS_ERROR;
+            }
             disir_error_set (instance, "entry resolved to filepath '%s' does not exist: %s",
                             filepath, strerror (errsave));
 
diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index f7508ad..2d029db 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -546,6 +546,10 @@ fslib_mold_resolve_entry_id (struct disir_instance *instance, struct disir_regis
 
         // Check whether override entry exists, and hold onto the status
         override_status = fslib_stat_filepath (instance, override_filepath, statbuf);
+        if (override_status != DISIR_STATUS_OK && override_status != DISIR_STATUS_NOT_EXIST)
+        {
+            return override_status;
+        }
         if (override_status != DISIR_STATUS_OK)
         {
             // Clear the disir error if the override entry did not exist
@@ -563,7 +567,7 @@ fslib_mold_resolve_entry_id (struct disir_instance *instance, struct disir_regis
 
     // The nominal file exists  this is what we return
     status = fslib_stat_filepath (instance, filepath, statbuf);
-    if (status == DISIR_STATUS_OK)
+    if (status != DISIR_STATUS_NOT_EXIST)
     {
         return status;
     }
-- 
2.43.0


From efa619a34d7642e08c077391915acaad79c5752b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 071/106] fix: disir_error_copy wrote beyond a buffer smaller
 than the message

---
 lib/error.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/error.c b/lib/error.c
index 62e59e0..ced90fb 100644
--- a/lib/error.c
+++ b/lib/error.c
@@ -70,11 +70,6 @@ disir_error_copy (struct disir_instance *instance,
 
     status = DISIR_STATUS_OK;
 
-    if (buffer_size < 4)
-    {
-        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
-    }
-
     size = instance->disir_error_message_size;
     if (bytes_written)
     {
@@ -83,13 +78,21 @@ disir_error_copy (struct disir_instance *instance,
         // buffer will be filled with partial error message
         *bytes_written = size;
     }
+    if (buffer_size < 4)
+    {
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+    }
     if (buffer_size <= size)
     {
-        size -= 4;
+        // The part that leaves room for the ellipsis and the terminator
+        size = buffer_size - 4;
         status = DISIR_STATUS_INSUFFICIENT_RESOURCES;
     }
 
-    memcpy (buffer, instance->disir_error_message, size);
+    if (size > 0)
+    {
+        memcpy (buffer, instance->disir_error_message, size);
+    }
     if (status == DISIR_STATUS_INSUFFICIENT_RESOURCES)
     {
         sprintf (buffer + size, "...");
-- 
2.43.0


From 2f80c3c92672919fe1c9e89fcdb29eec81dd5532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:45 +0000
Subject: [PATCH 072/106] fix: order of archive entries was no strict weak
 ordering

---
 lib/include/archive_private.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/include/archive_private.h b/lib/include/archive_private.h
index 70c21b2..b62b20a 100644
--- a/lib/include/archive_private.h
+++ b/lib/include/archive_private.h
@@ -4,6 +4,7 @@
 #include "tinytoml/toml.h"
 #include <disir/archive.h>
 #include <set>
+#include <tuple>
 #include <libgen.h>
 
 //! Convenience macros:
@@ -34,10 +35,10 @@ struct disir_archive_entry
 // compare function for disir_archive_entry
 struct cmp_entry
 {
-    bool operator()(const struct disir_archive_entry& a, const struct disir_archive_entry& b)
+    bool operator()(const struct disir_archive_entry& a, const struct disir_archive_entry& b) const
     {
-        return a.de_backend_id < b.de_backend_id || a.de_group_id < b.de_group_id ||
-               a.de_entry_id < b.de_entry_id;
+        return std::tie (a.de_backend_id, a.de_group_id, a.de_entry_id) <
+               std::tie (b.de_backend_id, b.de_group_id, b.de_entry_id);
     }
 };
 
-- 
2.43.0


From aa43970fbaefa761135f113ae50e17bd22c788c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 073/106] fix: archived groups with a dot in their name were
 not found

---
 lib/disir_archive_util.cc | 2 +-
 lib/disir_export.cc       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index c0dfdea..824f132 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -427,7 +427,7 @@ validate_archive_backend_entries (struct disir_archive *archive,
     for (const auto& group : groups.as<toml::Array>())
     {
         // Find group table in entries.toml
-        entries_group_table = entries_root.find (group.as<std::string>());
+        entries_group_table = entries_root.findChild (group.as<std::string>());
 
         if (entries_group_table == nullptr)
         {
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 8193bf1..78aa93f 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -106,7 +106,7 @@ serialize_entry_index (struct disir_archive *archive, struct disir_config *confi
 
     plugin_entries = (*archive->da_entries)[plugin_name];
 
-    group_entries = plugin_entries->find (group_id);
+    group_entries = plugin_entries->findChild (group_id);
     if (group_entries == NULL)
     {
         group_entries = plugin_entries->setChild (group_id, toml::Table());
-- 
2.43.0


From 66a01e32bbf73dcbed43d89c63df2bc49d7d1485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:02 +0000
Subject: [PATCH 074/106] fix: archive log messages passed objects and numbers
 for strings

---
 lib/disir_archive_util.cc | 13 +++++++------
 lib/disir_export.cc       | 18 ++++++++++--------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 824f132..27ca9ab 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -405,7 +405,7 @@ validate_archive_backend_entries (struct disir_archive *archive,
     auto iter = extract_content.find (backend + "/entries.toml");
     if (iter == extract_content.end())
     {
-        log_error ("cannot find entries.toml for backend '%s' in map", backend);
+        log_error ("cannot find entries.toml for backend '%s' in map", backend.c_str());
         return DISIR_STATUS_NOT_EXIST;
     }
 
@@ -416,7 +416,7 @@ validate_archive_backend_entries (struct disir_archive *archive,
 
     if (!pr.valid())
     {
-        log_error ("unable to parse entries.toml in backend '%s'", backend);
+        log_error ("unable to parse entries.toml in backend '%s'", backend.c_str());
         return DISIR_STATUS_FS_ERROR;
     }
 
@@ -432,13 +432,14 @@ validate_archive_backend_entries (struct disir_archive *archive,
         if (entries_group_table == nullptr)
         {
             log_error ("unable to find the group '%s' in entries.toml, in backend '%s'",
-                        group.as<std::string>(), backend);
+                        group.as<std::string>().c_str(), backend.c_str());
             return DISIR_STATUS_NOT_EXIST;
         }
 
         if (entries_group_table->is<toml::Table>() == false)
         {
-            log_error ("group '%s' in '%s' is not a toml table", group.as<std::string>(), backend);
+            log_error ("group '%s' in '%s' is not a toml table",
+                       group.as<std::string>().c_str(), backend.c_str());
             return DISIR_STATUS_WRONG_VALUE_TYPE;
         }
 
@@ -572,7 +573,7 @@ dx_archive_validate (struct disir_archive *archive,
         auto groups = entry.find (ATTRIBUTE_KEY_GROUPS);
         if (groups == nullptr)
         {
-            log_error ("key 'groups' not present in backend '%s'", id->as<std::string>());
+            log_error ("key 'groups' not present in backend '%s'", id->as<std::string>().c_str());
             return DISIR_STATUS_NOT_EXIST;
         }
 
@@ -584,7 +585,7 @@ dx_archive_validate (struct disir_archive *archive,
 
         if (groups->empty())
         {
-            log_error ("'groups' array in backend '%s' is empty", id->as<std::string>());
+            log_error ("'groups' array in backend '%s' is empty", id->as<std::string>().c_str());
             return DISIR_STATUS_NOT_EXIST;
         }
 
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 78aa93f..a70743a 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -54,7 +54,8 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
         auto iter = extract_content.find (id->as<std::string>() + "/entries.toml");
         if (iter == extract_content.end())
         {
-            log_error ("cannot find entries.toml for backend '%s' in map", id->as<std::string>());
+            log_error ("cannot find entries.toml for backend '%s' in map",
+                       id->as<std::string>().c_str());
             return DISIR_STATUS_NOT_EXIST;
         }
 
@@ -65,7 +66,8 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
 
         if (!pr.valid())
         {
-            log_error ("unable to parse entries.toml in backend '%s'", id->as<std::string>());
+            log_error ("unable to parse entries.toml in backend '%s'",
+                       id->as<std::string>().c_str());
             return DISIR_STATUS_FS_ERROR;
         }
 
@@ -195,7 +197,7 @@ append_config (struct disir_instance *instance, struct archive *archive,
     if (entry == NULL)
     {
         log_debug (3, "error creating new archive entry: %s",
-                       archive_errno (archive));
+                       archive_error_string (archive));
         return DISIR_STATUS_NO_MEMORY;
     }
 
@@ -219,7 +221,7 @@ append_config (struct disir_instance *instance, struct archive *archive,
 
         if (archive_write_data (archive, buf, read) < 0)
         {
-            log_error ("error writing to archive %s", archive_errno (archive));
+            log_error ("error writing to archive %s", archive_error_string (archive));
             status = DISIR_STATUS_FS_ERROR;
             goto out;
         }
@@ -227,7 +229,7 @@ append_config (struct disir_instance *instance, struct archive *archive,
 
     if (archive_write_finish_entry (archive) != ARCHIVE_OK)
     {
-        log_error ("could not finish archive write entry %s", archive_errno (archive));
+        log_error ("could not finish archive write entry %s", archive_error_string (archive));
         status = DISIR_STATUS_FS_ERROR;
         goto out;
     }
@@ -402,7 +404,7 @@ write_archive_metadata_toml (struct disir_archive *archive)
     if (entry == NULL)
     {
         log_debug (5, "error creating new archive entry: %s",
-                       archive_errno (archive->da_archive));
+                       archive_error_string (archive->da_archive));
         return DISIR_STATUS_NO_MEMORY;
     }
 
@@ -460,7 +462,7 @@ dx_archive_metadata_write (struct disir_archive *archive)
         if (entry == NULL)
         {
             log_error ("error creating new archive entry: %s",
-                        archive_errno (archive->da_archive));
+                        archive_error_string (archive->da_archive));
             return DISIR_STATUS_NO_MEMORY;
         }
 
@@ -474,7 +476,7 @@ dx_archive_metadata_write (struct disir_archive *archive)
         if (archive_write_data (archive->da_archive, str.c_str(), str.size()) < 0)
         {
             log_error ("error writing archive metadata.toml: %s",
-                        archive_errno (archive->da_archive));
+                        archive_error_string (archive->da_archive));
             status = DISIR_STATUS_FS_ERROR;
             goto error;
         }
-- 
2.43.0


From 8ab005b9e34fb6a8a8ae773eb14662226aae7177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:17 +0000
Subject: [PATCH 075/106] fix: archives built at the same time wrote to the
 same temporary file

---
 lib/disir_archive_util.cc | 63 ++++++++++-----------------------------
 1 file changed, 16 insertions(+), 47 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 27ca9ab..996914f 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -17,7 +17,8 @@ extern "C" {
 #include <fstream>
 #include <iostream>
 #include <ftw.h>
-#include <ctime>
+#include <stdlib.h>
+#include <unistd.h>
 
 //! INTERNAL API
 char *dx_archive_create_temp_folder (void)
@@ -215,31 +216,14 @@ out:
     return status;
 }
 
-//! STATIC FUNCTION
-static void
-dx_random_string (unsigned int length, unsigned int seed, char *dest)
-{
-    std::srand (std::time (0) + seed);
-
-    for (auto i = 0u ; i < length; i++)
-    {
-        *(dest++) = std::rand() % 25 + 97;
-    }
-
-    *dest = '\0';
-}
-
 //! INTERNAL API
 enum disir_status
 dx_archive_open_write (struct disir_archive *archive)
 {
     enum disir_status status;
-    char temp_archive_path[PATH_MAX];
-    char random_suffix[20];
+    char temp_archive_path[] = "/tmp/arc.XXXXXX";
     struct archive *ar;
-    struct stat st;
-    int ret;
-    int retry_count = 1;
+    int fd;
 
     if (archive == NULL)
     {
@@ -270,37 +254,21 @@ dx_archive_open_write (struct disir_archive *archive)
         goto out;
     }
 
-    // Seed until temp file path is unique
-    while (retry_count <= 100)
+    // Only a file created here is safe from every other process and thread
+    fd = mkstemp (temp_archive_path);
+    if (fd == -1)
     {
-        dx_random_string (10, retry_count, random_suffix);
-        temp_archive_path[0] = '\0';
-        snprintf (temp_archive_path, PATH_MAX, "/tmp/arc.%s", random_suffix);
-
-        archive->da_temp_archive_path = strdup (temp_archive_path);
-        if (archive->da_temp_archive_path == NULL)
-        {
-            status = DISIR_STATUS_NO_MEMORY;
-        }
-        ret = stat (temp_archive_path, &st);
-        if (ret == 0)
-        {
-            log_debug (3, "archive with temp name '%s' already exists, retrying...",
-                          temp_archive_path);
-            status = DISIR_STATUS_FS_ERROR;
-        }
-        else
-        {
-            status = DISIR_STATUS_OK;
-            break;
-        }
-        retry_count++;
+        log_error ("unable to create temp archive: %s", strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+        goto out;
     }
+    close (fd);
 
-    if (status != DISIR_STATUS_OK)
+    archive->da_temp_archive_path = strdup (temp_archive_path);
+    if (archive->da_temp_archive_path == NULL)
     {
-        log_error ("archive with temp name '%s' already exists, failed after %d retries",
-                   temp_archive_path, retry_count);
+        (void) remove (temp_archive_path);
+        status = DISIR_STATUS_NO_MEMORY;
         goto out;
     }
 
@@ -308,6 +276,7 @@ dx_archive_open_write (struct disir_archive *archive)
     {
         log_error ("unable open archive on path '%s': %s",
                    temp_archive_path, archive_error_string (ar));
+        (void) remove (temp_archive_path);
         status = DISIR_STATUS_FS_ERROR;
         goto out;
     }
-- 
2.43.0


From d486d9db9cea9e4b2a88371903e2aadd9b76e1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:25 +0000
Subject: [PATCH 076/106] fix: appending to an archive leaked files and configs
 and indexed entries it had not written

---
 lib/disir_export.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index a70743a..0337f73 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -302,10 +302,15 @@ dx_archive_config_entries_write (struct disir_instance *instance, struct disir_a
         if (status != DISIR_STATUS_OK)
             goto out;
 
-        status = serialize_entry_index (archive, config, group_id,
-                                        current->de_entry_name, plugin->dp_name);
-        if (status != DISIR_STATUS_OK)
+        // The content is complete on disk only once the file is closed
+        ret = fclose (entry_file);
+        entry_file = NULL;
+        if (ret != 0)
+        {
+            log_error ("unable to write temp config file: %s", filepath);
+            status = DISIR_STATUS_FS_ERROR;
             goto out;
+        }
 
         snprintf (archive_entry_name, PATH_MAX, "%s/%s/%s",
                   plugin->dp_name, group_id, current->de_entry_name);
@@ -314,6 +319,12 @@ dx_archive_config_entries_write (struct disir_instance *instance, struct disir_a
         if (status != DISIR_STATUS_OK)
             goto out;
 
+        // The index lists what the archive holds
+        status = serialize_entry_index (archive, config, group_id,
+                                        current->de_entry_name, plugin->dp_name);
+        if (status != DISIR_STATUS_OK)
+            goto out;
+
         archive_entry.de_backend_id = plugin->dp_name;
         archive_entry.de_group_id = group_id;
         archive_entry.de_entry_id = current->de_entry_name;
@@ -340,6 +351,9 @@ out:
     if (entry_file)
         fclose (entry_file);
 
+    if (config)
+        disir_config_finished (&config);
+
     if (filepath[0] != '\0')
     {
         // Ignore failure condition
-- 
2.43.0


From ec434f6331d4bd950b9b7eb5b9fe70643bbef945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:09 +0000
Subject: [PATCH 077/106] fix: extending an archive dropped the entries of
 groups named after the index files

---
 lib/disir_export.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 0337f73..2dd57f8 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -514,6 +514,20 @@ error:
     return status;
 }
 
+//! STATIC FUNCTION
+//! Is name the entry index of one of the backends in archive
+static bool
+is_entries_file (struct disir_archive *archive, const std::string& name)
+{
+    for (const auto& backend : *archive->da_entries)
+    {
+        if (name == backend.first + "/entries.toml")
+            return true;
+    }
+
+    return false;
+}
+
 //! INTERNAL API
 enum disir_status
 dx_archive_begin_existing (struct disir_instance *instance, const char *archive_path,
@@ -582,10 +596,7 @@ dx_archive_begin_existing (struct disir_instance *instance, const char *archive_
     for (const auto& entry : extract_content)
     {
         // Ignore metadata files, they will be re-written in finalize.
-        if (entry.first.find ("entries.toml") != std::string::npos)
-            continue;
-
-        if (entry.first.find ("metadata.toml") != std::string::npos)
+        if (entry.first == METADATA_FILENAME || is_entries_file (write_archive, entry.first))
             continue;
 
         status = append_config (instance, write_archive->da_archive, entry.second.c_str(),
-- 
2.43.0


From 974ddd1e3ccfa9419fc9ed364c61c7c3d8e8e38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 078/106] fix: archive members were extracted outside the
 extraction folder, and damaged archives accepted

---
 lib/disir_archive_util.cc | 88 ++++++++++++++++++++++++++++++++-------
 1 file changed, 72 insertions(+), 16 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 996914f..51c6629 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -84,6 +84,30 @@ error:
     return status;
 }
 
+//! STATIC FUNCTION
+//! Does name, placed beneath a folder, denote something in that folder
+static bool
+is_contained_name (const char *name)
+{
+    const char *part = name;
+    size_t length;
+
+    if (name == NULL || *name == '\0' || *name == '/')
+        return false;
+
+    while (1)
+    {
+        length = strcspn (part, "/");
+        if (length == 2 && strncmp (part, "..", 2) == 0)
+            return false;
+
+        if (part[length] == '\0')
+            return true;
+
+        part += length + 1;
+    }
+}
+
 //! INTERNAL API
 enum disir_status
 dx_archive_extract (const char *archive_path, std::map<std::string, std::string>& extract_content,
@@ -93,12 +117,13 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
     struct archive *write_archive = NULL;
     struct archive *read_archive = NULL;
     struct archive_entry *entry;
+    const char *name;
     int flags;
     int ret;
     int64_t offset;
     size_t size;
     const void *buff;
-    char path[PATH_MAX];
+    std::string path;
 
     // Check for write permission
     status = dx_assert_write_permission (extract_path);
@@ -107,10 +132,8 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
         return status;
     }
 
+    // The archive decides neither on permissions nor on attributes
     flags = ARCHIVE_EXTRACT_TIME;
-    flags |= ARCHIVE_EXTRACT_PERM;
-    flags |= ARCHIVE_EXTRACT_ACL;
-    flags |= ARCHIVE_EXTRACT_FFLAGS;
 
     write_archive = archive_write_disk_new();
     if (write_archive == NULL)
@@ -142,14 +165,49 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
 
     status = DISIR_STATUS_OK;
 
-    while (archive_read_next_header (read_archive, &entry) == ARCHIVE_OK)
+    while (1)
     {
-        snprintf(path, PATH_MAX, "%s/%s", extract_path, archive_entry_pathname (entry));
-        extract_content.insert (std::make_pair (archive_entry_pathname (entry), path));
-        archive_entry_set_pathname (entry, path);
+        ret = archive_read_next_header (read_archive, &entry);
+        if (ret == ARCHIVE_EOF)
+            break;
+
+        if (ret != ARCHIVE_OK && ret != ARCHIVE_WARN)
+        {
+            log_error ("could not read archive: %s", archive_error_string (read_archive));
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
+
+        // Folders are created along with the files they hold
+        if (archive_entry_filetype (entry) == AE_IFDIR)
+            continue;
 
-        if (archive_write_header (write_archive, entry) == ARCHIVE_OK &&
-                                  archive_entry_size (entry) > 0)
+        // The content of an archive is its regular files, extracted nowhere else
+        name = archive_entry_pathname (entry);
+        if (archive_entry_filetype (entry) != AE_IFREG ||
+            archive_entry_hardlink (entry) != NULL || is_contained_name (name) == false)
+        {
+            log_error ("archive holds something else than a file beneath it: '%s'",
+                        name ? name : "");
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
+
+        path = std::string (extract_path) + "/" + name;
+        extract_content.insert (std::make_pair (name, path));
+        archive_entry_set_pathname (entry, path.c_str());
+        archive_entry_set_perm (entry, 0600);
+
+        ret = archive_write_header (write_archive, entry);
+        if (ret != ARCHIVE_OK && ret != ARCHIVE_WARN)
+        {
+            log_error ("could not write archive to disk: %s",
+                        archive_error_string (write_archive));
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
+
+        if (archive_entry_size (entry) > 0)
         {
             while (1)
             {
@@ -179,9 +237,9 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
         if (archive_write_finish_entry (write_archive) != ARCHIVE_OK)
         {
             log_error ("could not finish archive write entry: %s",
-                        archive_error_string (read_archive));
+                        archive_error_string (write_archive));
             status = DISIR_STATUS_FS_ERROR;
-            break;
+            goto out;
         }
     }
     // FALL-THROUGH
@@ -197,8 +255,7 @@ out:
 
         if (archive_write_free (write_archive) != ARCHIVE_OK)
         {
-            log_error ("unable to free archive during extraction: %s",
-                        archive_error_string (write_archive));
+            log_error ("unable to free archive during extraction");
             status = DISIR_STATUS_FS_ERROR;
         }
     }
@@ -207,8 +264,7 @@ out:
     {
         if (archive_read_free (read_archive) != ARCHIVE_OK)
         {
-            log_error ("unable to free read archive during extraction: %s",
-                        archive_error_string (read_archive));
+            log_error ("unable to free read archive during extraction");
             status = DISIR_STATUS_FS_ERROR;
         }
     }
-- 
2.43.0


From 317b6b4e3ddea257db3b74598d6c74447349df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 079/106] fix: archive index with a group or version that is no
 string raised an exception

---
 lib/disir_archive_util.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 51c6629..82eb843 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -451,6 +451,12 @@ validate_archive_backend_entries (struct disir_archive *archive,
     // Iterate groups
     for (const auto& group : groups.as<toml::Array>())
     {
+        if (group.is<std::string>() == false)
+        {
+            log_error ("a group of backend '%s' is not a string", backend.c_str());
+            return DISIR_STATUS_WRONG_VALUE_TYPE;
+        }
+
         // Find group table in entries.toml
         entries_group_table = entries_root.findChild (group.as<std::string>());
 
@@ -486,6 +492,12 @@ validate_archive_backend_entries (struct disir_archive *archive,
                 return DISIR_STATUS_NOT_EXIST;
             }
 
+            if (entry.second.is<std::string>() == false)
+            {
+                log_error ("version of entry '%s' is not a string", config_entry.c_str());
+                return DISIR_STATUS_WRONG_VALUE_TYPE;
+            }
+
             archive_entry.de_backend_id = backend;
             archive_entry.de_group_id = group.as<std::string>();
             archive_entry.de_entry_id = entry.first;
-- 
2.43.0


From 5c411fcb976a97ad48fad4c924bfc9b7547b81b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 080/106] fix: extending an archive with an inconsistent index
 leaked it or raised an exception

---
 lib/disir_archive_util.cc | 13 +++++++++++++
 lib/disir_export.cc       |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 82eb843..6d69e94 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -14,6 +14,7 @@ extern "C" {
 #include <archive.h>
 #include <archive_entry.h>
 #include <limits.h>
+#include <algorithm>
 #include <fstream>
 #include <iostream>
 #include <ftw.h>
@@ -448,6 +449,18 @@ validate_archive_backend_entries (struct disir_archive *archive,
     // Root in entries.toml
     toml::Value& entries_root = pr.value;
 
+    // Every group in there is listed for the backend
+    for (const auto& child : entries_root.as<toml::Table>())
+    {
+        const toml::Array& listed = groups.as<toml::Array>();
+        if (std::find (listed.begin(), listed.end(), toml::Value (child.first)) == listed.end())
+        {
+            log_error ("group '%s' in entries.toml is not listed for backend '%s'",
+                       child.first.c_str(), backend.c_str());
+            return DISIR_STATUS_NOT_EXIST;
+        }
+    }
+
     // Iterate groups
     for (const auto& group : groups.as<toml::Array>())
     {
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 2dd57f8..b2604f0 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -71,6 +71,10 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
             return DISIR_STATUS_FS_ERROR;
         }
 
+        // The backend may be listed more than once
+        if (archive->da_entries->count (id->as<std::string>()) != 0)
+            continue;
+
         auto backend_entry = new (std::nothrow) toml::Value (pr.value);
         if (backend_entry == nullptr)
         {
-- 
2.43.0


From 10f3a5cdfc563a20e115032e7ba7bac58f584bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 081/106] fix: import of an archive without entries, with a
 long name or a failing entry read or leaked memory

---
 lib/disir_archive.cc |  5 ++++-
 lib/disir_import.c   | 17 ++++++-----------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index e6b3811..fabef95 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -55,7 +55,7 @@ archive_import_config_entries (struct disir_instance *instance,
 {
     enum disir_status status;
     struct disir_import_entry **current;
-    struct disir_import_entry *entry;
+    struct disir_import_entry *entry = NULL;
     struct disir_import *im;
 
     im = (struct disir_import*)calloc (1, sizeof (disir_import));
@@ -102,11 +102,14 @@ archive_import_config_entries (struct disir_instance *instance,
         entry->ie_status = status;
 
         (*current++) = entry;
+        entry = NULL;
     }
 
     *import = im;
     return DISIR_STATUS_OK;
 error:
+    if (entry)
+        dx_import_entry_destroy (entry);
     if (im)
         dx_import_destroy (im);
 
diff --git a/lib/disir_import.c b/lib/disir_import.c
index 0c1b01f..adcf2cc 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -36,10 +36,8 @@ import_info_set (struct disir_import_entry *entry, const char *message, ...)
     msgsize = vsnprintf (buf, 1000, message, args);
     va_end (args);
 
-    entry->ie_info = (char *)malloc (sizeof (char) * msgsize + 1);
-    buf[msgsize] = '\0';
-
-    strcpy (entry->ie_info, buf);
+    // The text is what fit in the buffer
+    entry->ie_info = msgsize < 0 ? NULL : strdup (buf);
 }
 
 //! STATIC FUNCTION
@@ -147,7 +145,7 @@ import_determine_conflict (struct disir_instance *instance,
         import_info_set (current, "version of existing entry (%s) "\
                                   "is higher than archive entry (%s)",
                                   dc_version_string (buf, 256, &existing->cf_version),
-                                  dc_version_string (buf + 256, 256, &imported->cf_version));
+                                  dc_version_string (buf + 256, 244, &imported->cf_version));
         current->ie_conflict = 1;
         status_version = DISIR_STATUS_CONFLICTING_SEMVER;
     }
@@ -156,7 +154,7 @@ import_determine_conflict (struct disir_instance *instance,
         import_info_set (current, "version of archive entry (%s) "\
                                   "is higher than existing entry (%s)",
                                   dc_version_string (buf, 256, &imported->cf_version),
-                                  dc_version_string (buf + 256, 256, &existing->cf_version));
+                                  dc_version_string (buf + 256, 244, &existing->cf_version));
         current->ie_conflict = 1;
         status_version = DISIR_STATUS_CONFLICTING_SEMVER;
 
@@ -290,7 +288,7 @@ dx_resolve_config_import_status (struct disir_instance *instance, const char *co
         {
             import_info_set (import, "archive entry version is (%s) but system version is (%s)",
                                      dc_version_string (buf, 256, &config_imported->cf_version),
-                                     dc_version_string (buf + 256, 256, &mold->mo_version));
+                                     dc_version_string (buf + 256, 244, &mold->mo_version));
             status = DISIR_STATUS_CONFLICTING_SEMVER;
         }
     }
@@ -656,16 +654,13 @@ dx_import_destroy (struct disir_import *entry)
     if (entry == NULL)
         return DISIR_STATUS_OK;
 
-    i = entry->di_num_entries - 1;
-
     if (entry->di_entries)
     {
-        do
+        for (i = 0; i < entry->di_num_entries; i++)
         {
             if (entry->di_entries[i] != NULL)
                 dx_import_entry_destroy (entry->di_entries[i]);
         }
-        while (i--);
 
         free (entry->di_entries);
     }
-- 
2.43.0


From 42d26f9470a060defda3c83a4b21659c62c80804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 082/106] fix: archive handles leaked, and read out of bounds,
 when finalized with errors

---
 lib/disir_archive.cc      | 37 +++++++++++----------------------
 lib/disir_archive_util.cc | 43 ++++++++++++++++++++++++++++-----------
 lib/disir_export.cc       |  6 +++---
 3 files changed, 46 insertions(+), 40 deletions(-)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index fabef95..c5be675 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -289,11 +289,11 @@ disir_archive_append_group (struct disir_instance *instance, struct disir_archiv
 
 //! STATIC FUNCTION
 static enum disir_status
-get_dirname (const char *archive_path, char *dirpath)
+get_dirname (const char *archive_path, std::string& dirpath)
 {
     enum disir_status status;
     char *temp_path = NULL;
-    char *temp_dirname;
+    const char *temp_dirname;
 
     status = DISIR_STATUS_OK;
 
@@ -311,7 +311,7 @@ get_dirname (const char *archive_path, char *dirpath)
         status = DISIR_STATUS_FS_ERROR;
     }
 
-    strcpy (dirpath, temp_dirname);
+    dirpath = temp_dirname;
     free (temp_path);
 
     return status;
@@ -324,9 +324,7 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
 {
     enum disir_status status;
     struct disir_archive *ar;
-    int ret;
-    struct stat st;
-    char extract_folder_path[4096];
+    std::string extract_folder_path;
 
     if (instance == NULL || archive == NULL)
     {
@@ -343,10 +341,11 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-    log_info("Finalizing archive to archive_path (%s)", archive_path);
+    log_info("Finalizing archive to archive_path (%s)", archive_path ? archive_path : "none");
 
     // Make sure archive path is not a directory
-    if (archive_path && archive_path[strlen (archive_path)-1] == '/')
+    if (archive_path &&
+        (archive_path[0] == '\0' || archive_path[strlen (archive_path)-1] == '/'))
     {
         disir_error_set (instance, "invalid archive path: '%s' is a directory", archive_path);
         return DISIR_STATUS_INVALID_ARGUMENT;
@@ -362,10 +361,11 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
         }
 
         // Assert that we have write permission in directory
-        status = dx_assert_write_permission (extract_folder_path);
+        status = dx_assert_write_permission (extract_folder_path.c_str());
         if (status != DISIR_STATUS_OK)
         {
-            disir_error_set (instance, "unable to write to path: '%s'", extract_folder_path);
+            disir_error_set (instance, "unable to write to path: '%s'",
+                             extract_folder_path.c_str());
             return status;
         }
     }
@@ -398,10 +398,10 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
 
         if (archive_write_free (ar->da_archive) != ARCHIVE_OK)
         {
-            log_error ("unable to free archive in finalize: %s",
-                        archive_error_string (ar->da_archive));
+            log_error ("unable to free archive in finalize");
             status = DISIR_STATUS_FS_ERROR;
         }
+        ar->da_archive = NULL;
 
         if (status != DISIR_STATUS_OK)
         {
@@ -420,19 +420,6 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
     }
     // FALL-THROUGH
 out:
-
-    // Remove temp archive.
-    if (ar->da_temp_archive_path &&
-        fslib_stat_filepath (instance, ar->da_temp_archive_path, &st) == DISIR_STATUS_OK)
-    {
-        ret = remove (ar->da_temp_archive_path);
-        if (ret != 0)
-        {
-            log_error ("failed to remove temp archive '%s': %s", ar->da_temp_archive_path,
-                       strerror (errno));
-        }
-    }
-
     dx_archive_destroy (ar);
     *archive = NULL;
 
diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 6d69e94..002b6a0 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -333,7 +333,6 @@ dx_archive_open_write (struct disir_archive *archive)
     {
         log_error ("unable open archive on path '%s': %s",
                    temp_archive_path, archive_error_string (ar));
-        (void) remove (temp_archive_path);
         status = DISIR_STATUS_FS_ERROR;
         goto out;
     }
@@ -684,11 +683,32 @@ remove_folder_and_content (const char *fpath, const struct stat *sb,
 enum disir_status
 dx_archive_destroy (struct disir_archive *ar)
 {
+    enum disir_status status;
     struct stat st;
     int ret;
 
+    if (ar == NULL)
+        return DISIR_STATUS_OK;
+
+    status = DISIR_STATUS_OK;
+
+    // Release the archive under construction
+    if (ar->da_archive && archive_write_free (ar->da_archive) != ARCHIVE_OK)
+    {
+        log_error ("unable to free archive");
+        status = DISIR_STATUS_FS_ERROR;
+    }
+
+    // Remove temp archive
+    if (ar->da_temp_archive_path && remove (ar->da_temp_archive_path) != 0)
+    {
+        log_error ("failed to remove temp archive '%s': %s", ar->da_temp_archive_path,
+                   strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+    }
+
     // Remove temp files
-    if (ar && ar->da_extract_folder_path && stat (ar->da_extract_folder_path, &st) == 0)
+    if (ar->da_extract_folder_path && stat (ar->da_extract_folder_path, &st) == 0)
     {
         // Use 'remove_path' duplicate as remove function may modify arguments.
         const char *remove_path = ar->da_extract_folder_path;
@@ -696,11 +716,11 @@ dx_archive_destroy (struct disir_archive *ar)
         if (ret != 0)
         {
             // Already logged
-            return DISIR_STATUS_FS_ERROR;
+            status = DISIR_STATUS_FS_ERROR;
         }
     }
 
-    if (ar && ar->da_entries)
+    if (ar->da_entries)
     {
         for (auto& entry : *ar->da_entries)
         {
@@ -709,20 +729,19 @@ dx_archive_destroy (struct disir_archive *ar)
         delete ar->da_entries;
     }
 
-    if (ar && ar->da_temp_archive_path)
+    if (ar->da_temp_archive_path)
         free (ar->da_temp_archive_path);
-    if (ar && ar->da_existing_path)
+    if (ar->da_existing_path)
         free (ar->da_existing_path);
-    if (ar && ar->da_metadata != nullptr)
+    if (ar->da_metadata != nullptr)
         delete ar->da_metadata;
-    if (ar && ar->da_extract_folder_path)
+    if (ar->da_extract_folder_path)
         free (ar->da_extract_folder_path);
-    if (ar && ar->da_config_entries != nullptr)
+    if (ar->da_config_entries != nullptr)
         delete ar->da_config_entries;
-    if (ar)
-        free (ar);
+    free (ar);
 
-    return DISIR_STATUS_OK;
+    return status;
 }
 
 //! INTERNAL API
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index b2604f0..fb01c11 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -161,10 +161,10 @@ populate_archive_entry (struct archive *archive, struct archive_entry *entry,
     archive_entry_set_filetype (entry, AE_IFREG);
     archive_entry_set_perm (entry, 0644);
 
-    ret = archive_write_header (archive, entry) != ARCHIVE_OK;
+    ret = archive_write_header (archive, entry);
     if (ret != ARCHIVE_OK)
     {
-        if (ret == ARCHIVE_FATAL)
+        if (ret != ARCHIVE_WARN)
         {
             log_error ("error writing archive header: %s", archive_error_string (archive));
             return DISIR_STATUS_FS_ERROR;
@@ -544,7 +544,7 @@ dx_archive_begin_existing (struct disir_instance *instance, const char *archive_
     const char *ext = NULL;
 
     // Make sure archive path is not a directory
-    if (archive_path[strlen(archive_path)-1] == '/')
+    if (archive_path[0] == '\0' || archive_path[strlen(archive_path)-1] == '/')
     {
         disir_error_set (instance, "invalid archive path: input path is a directory");
         return DISIR_STATUS_INVALID_ARGUMENT;
-- 
2.43.0


From 1209dc8c6292dd11f818513a181e2f90883cbe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 083/106] fix: archive member with a name too long to be
 removed was extracted

---
 lib/disir_archive_util.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 002b6a0..e148600 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -195,6 +195,13 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
         }
 
         path = std::string (extract_path) + "/" + name;
+        if (path.length() >= PATH_MAX)
+        {
+            log_error ("name of archive member is too long: '%s'", name);
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
+
         extract_content.insert (std::make_pair (name, path));
         archive_entry_set_pathname (entry, path.c_str());
         archive_entry_set_perm (entry, 0600);
-- 
2.43.0


From 686d66d96516ce301df67b6c74e596139663417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 084/106] fix: finalizing an archive damaged or removed the
 archive it was to replace

---
 lib/disir_archive_util.cc | 198 +++++++++++++++++++++++---------------
 1 file changed, 122 insertions(+), 76 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index e148600..cd0d37d 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -17,6 +17,7 @@ extern "C" {
 #include <algorithm>
 #include <fstream>
 #include <iostream>
+#include <fcntl.h>
 #include <ftw.h>
 #include <stdlib.h>
 #include <unistd.h>
@@ -802,23 +803,119 @@ dx_assert_read_permission (const char *path)
 }
 
 //! STATIC FUNCTION
+//! Write the content of descriptor 'from' to descriptor 'to', and to the device beneath it.
+static int
+copy_content (int from, int to)
+{
+    char buf[8192];
+    ssize_t length;
+    ssize_t written;
+    ssize_t res;
+
+    while ((length = read (from, buf, sizeof (buf))) != 0)
+    {
+        if (length < 0)
+        {
+            if (errno == EINTR)
+                continue;
+            return -1;
+        }
+
+        for (written = 0; written < length; written += res)
+        {
+            res = write (to, buf + written, length - written);
+            if (res < 0)
+            {
+                if (errno != EINTR)
+                    return -1;
+                res = 0;
+            }
+        }
+    }
+
+    return fsync (to);
+}
+
+//! STATIC FUNCTION
+//! Replace the file 'to', or what it refers to if it is a symbolic link, by a copy of 'from'.
+//! Whatever happens, 'to' is either what it was or a complete copy.
 static enum disir_status
-copy_file (const char *from, const char *to)
+replace_file (const char *from, const char *to)
 {
-    std::ifstream source (from, std::ios::binary);
-    if (source.is_open() == false)
+    struct stat st;
+    std::string path = to;
+    std::string directory;
+    std::string replacement;
+    char *resolved;
+    int exists;
+    int source;
+    int fd = -1;
+    int res;
+    int errsave;
+    int i;
+
+    exists = (stat (to, &st) == 0);
+    if (exists)
+    {
+        if (S_ISREG (st.st_mode) == 0)
+        {
+            errno = EEXIST;
+            return DISIR_STATUS_FS_ERROR;
+        }
+        if (access (to, W_OK) != 0)
+            return DISIR_STATUS_FS_ERROR;
+
+        resolved = realpath (to, NULL);
+        if (resolved == NULL)
+            return DISIR_STATUS_FS_ERROR;
+
+        path = resolved;
+        free (resolved);
+    }
+
+    source = open (from, O_RDONLY | O_CLOEXEC);
+    if (source == -1)
+        return DISIR_STATUS_FS_ERROR;
+
+    directory = path.substr (0, path.rfind ('/') + 1);
+    for (i = 0; fd == -1 && i < 1000; i++)
     {
+        replacement = directory + ".tmp-" + std::to_string (getpid ()) + "-" + std::to_string (i);
+        fd = open (replacement.c_str(), O_WRONLY | O_CREAT | O_EXCL | O_CLOEXEC, 0666);
+        if (fd == -1 && errno != EEXIST)
+            break;
+    }
+    if (fd == -1)
+    {
+        errsave = errno;
+        close (source);
+        errno = errsave;
         return DISIR_STATUS_FS_ERROR;
     }
 
-    std::ofstream destination (to, std::ios::binary);
-    if (destination.is_open() == false)
+    res = exists ? fchmod (fd, st.st_mode & 07777) : 0;
+    if (res == 0)
+        res = copy_content (source, fd);
+    errsave = errno;
+
+    close (source);
+    if (close (fd) != 0 && res == 0)
+    {
+        res = -1;
+        errsave = errno;
+    }
+    if (res == 0)
+    {
+        res = rename (replacement.c_str(), path.c_str());
+        errsave = errno;
+    }
+    if (res != 0)
     {
+        unlink (replacement.c_str());
+        errno = errsave;
         return DISIR_STATUS_FS_ERROR;
     }
 
-    destination << source.rdbuf();
-
     return DISIR_STATUS_OK;
 }
 
@@ -828,89 +925,38 @@ dx_archive_disk_append (const char *new_archive_path, const char *existing_archi
                         const char *temp_archive_path)
 {
     enum disir_status status;
-    int ret;
-    char backup_path[PATH_MAX];
-    char archive_path_with_extension[4096];
-    const char *ext = NULL;
-
-    strcpy (archive_path_with_extension, new_archive_path);
-    backup_path[0] = '\0';
+    std::string path = new_archive_path;
+    struct stat st_existing;
+    struct stat st_new;
+    const char *ext;
+    bool moved = false;
 
     // Append extension if it doesn't already exists
     ext = strrchr (new_archive_path, '.');
     if (ext == NULL || strcmp (ext, ".disir") != 0)
     {
-        strcat (archive_path_with_extension, ".disir");
+        path += ".disir";
     }
 
-    // CASE 1: Finalizing a new archive to given location
-    if (existing_archive_path == NULL)
+    // The archive that was extended gives way to one at another location
+    if (existing_archive_path && stat (existing_archive_path, &st_existing) == 0)
     {
-        status = copy_file (temp_archive_path, archive_path_with_extension);
-        if (status != DISIR_STATUS_OK)
-        {
-            log_error ("failed to move archive to '%s': %s", archive_path_with_extension,
-                                                             strerror (errno));
-            return DISIR_STATUS_FS_ERROR;
-        }
+        moved = stat (path.c_str(), &st_new) != 0 ||
+                st_new.st_dev != st_existing.st_dev || st_new.st_ino != st_existing.st_ino;
     }
 
-    // CASE 2: If working on existing archive and want to export result to a new location
-    if (existing_archive_path && strcmp (existing_archive_path, archive_path_with_extension) != 0)
+    status = replace_file (temp_archive_path, path.c_str());
+    if (status != DISIR_STATUS_OK)
     {
-        status = copy_file (temp_archive_path, archive_path_with_extension);
-        if (status != DISIR_STATUS_OK)
-        {
-            log_error ("failed to move archive to '%s': %s", archive_path_with_extension,
-                                                             strerror (errno));
-            return DISIR_STATUS_FS_ERROR;
-        }
-
-        ret = remove (existing_archive_path);
-        if (ret != 0)
-        {
-            log_error ("failed to remove existing archive in '%s': %s", existing_archive_path,
-                                                                        strerror (errno));
-            return DISIR_STATUS_FS_ERROR;
-        }
+        log_error ("failed to move archive to '%s': %s", path.c_str(), strerror (errno));
+        return status;
     }
 
-    // CASE 3: Existing archive should be overwritten
-    if (existing_archive_path &&
-        (strcmp (existing_archive_path, archive_path_with_extension) == 0))
+    if (moved && remove (existing_archive_path) != 0)
     {
-        // Rename existing archive with backup extension.
-        strncat (backup_path, existing_archive_path, PATH_MAX-1);
-        strncat (backup_path, ".backup", PATH_MAX-1);
-        ret = rename (existing_archive_path, backup_path);
-        if (ret != 0)
-        {
-            log_error ("failed to create backup of existing archive: %s", strerror (errno));
-            return DISIR_STATUS_FS_ERROR;
-        }
-
-        // Rename new archive to same as existing
-        status = copy_file (temp_archive_path, existing_archive_path);
-        if (status != DISIR_STATUS_OK)
-        {
-            log_error ("failed to rename archive '%s': %s", temp_archive_path, strerror (errno));
-
-            // Error again?! Re-rename existing file back to original name
-            ret = rename (backup_path, existing_archive_path);
-            if (ret != 0)
-            {
-                log_error ("failed to rename archive back to existing name: %s", strerror (errno));
-            }
-            return DISIR_STATUS_FS_ERROR;
-        }
-
-        // All good, remove old archive
-        ret = remove (backup_path);
-        if (ret != 0)
-        {
-            log_error ("failed to remove original archive: %s", strerror (errno));
-            return DISIR_STATUS_FS_ERROR;
-        }
+        log_error ("failed to remove existing archive in '%s': %s", existing_archive_path,
+                                                                    strerror (errno));
+        return DISIR_STATUS_FS_ERROR;
     }
 
     return DISIR_STATUS_OK;
-- 
2.43.0


From 27dfad6eb6bc176c39e3772f783fe21f8542e08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 085/106] fix: archive index that could not be read was used,
 or dereferenced a NULL pointer

---
 lib/disir_archive_util.cc | 4 ++--
 lib/disir_export.cc       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index cd0d37d..43d1553 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -447,7 +447,7 @@ validate_archive_backend_entries (struct disir_archive *archive,
     std::ifstream entries_toml (toml_filepath.c_str());
     toml::ParseResult pr = toml::parse (entries_toml);
 
-    if (!pr.valid())
+    if (!entries_toml.is_open() || entries_toml.bad() || !pr.valid())
     {
         log_error ("unable to parse entries.toml in backend '%s'", backend.c_str());
         return DISIR_STATUS_FS_ERROR;
@@ -550,7 +550,7 @@ dx_archive_validate (struct disir_archive *archive,
     std::ifstream metadata (toml_filepath.c_str());
     toml::ParseResult pr = toml::parse (metadata);
 
-    if (!pr.valid())
+    if (!metadata.is_open() || metadata.bad() || !pr.valid())
     {
         log_error ("unable to parse metadata.toml");
         return DISIR_STATUS_FS_ERROR;
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index fb01c11..ae33593 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -37,7 +37,7 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
     std::ifstream metadata (toml_filepath.c_str());
     toml::ParseResult pr = toml::parse (metadata);
 
-    if (!pr.valid())
+    if (!metadata.is_open() || metadata.bad() || !pr.valid())
     {
         log_error ("unable to parse metadata.toml in disir archive");
         return DISIR_STATUS_FS_ERROR;
@@ -64,7 +64,7 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
         std::ifstream entries_toml (entries_toml_filepath.c_str());
         toml::ParseResult pr = toml::parse (entries_toml);
 
-        if (!pr.valid())
+        if (!entries_toml.is_open() || entries_toml.bad() || !pr.valid())
         {
             log_error ("unable to parse entries.toml in backend '%s'",
                        id->as<std::string>().c_str());
-- 
2.43.0


From 002174bfbd76b4a4e055e1e1c58918fbf32c6c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 086/106] fix: archived entry that could not be read was
 padded, and the extraction folder left behind when stat failed

---
 lib/disir_archive_util.cc |  3 +--
 lib/disir_export.cc       | 13 +++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 43d1553..aeac6db 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -692,7 +692,6 @@ enum disir_status
 dx_archive_destroy (struct disir_archive *ar)
 {
     enum disir_status status;
-    struct stat st;
     int ret;
 
     if (ar == NULL)
@@ -716,7 +715,7 @@ dx_archive_destroy (struct disir_archive *ar)
     }
 
     // Remove temp files
-    if (ar->da_extract_folder_path && stat (ar->da_extract_folder_path, &st) == 0)
+    if (ar->da_extract_folder_path)
     {
         // Use 'remove_path' duplicate as remove function may modify arguments.
         const char *remove_path = ar->da_extract_folder_path;
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index ae33593..c888c6a 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -189,7 +189,8 @@ append_config (struct disir_instance *instance, struct archive *archive,
     struct stat st;
     FILE *infile = NULL;
     char buf[8192];
-    int read;
+    la_int64_t read;
+    la_int64_t total = 0;
 
     status = fslib_stat_filepath (instance, filepath, &st);
     if (status != DISIR_STATUS_OK)
@@ -223,14 +224,22 @@ append_config (struct disir_instance *instance, struct archive *archive,
         if (read == 0)
             break;
 
-        if (archive_write_data (archive, buf, read) < 0)
+        if (archive_write_data (archive, buf, read) != read)
         {
             log_error ("error writing to archive %s", archive_error_string (archive));
             status = DISIR_STATUS_FS_ERROR;
             goto out;
         }
+        total += read;
     } while (1);
 
+    if (ferror (infile) || total != st.st_size)
+    {
+        log_error ("unable to read all of %s", filepath);
+        status = DISIR_STATUS_FS_ERROR;
+        goto out;
+    }
+
     if (archive_write_finish_entry (archive) != ARCHIVE_OK)
     {
         log_error ("could not finish archive write entry %s", archive_error_string (archive));
-- 
2.43.0


From 9f694fe7ace2f684c6c6678c280a439f11f5e39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 087/106] fix: archive replaced the link at its destination
 when that could not be accessed

---
 lib/disir_archive_util.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index aeac6db..3e59214 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -854,6 +854,9 @@ replace_file (const char *from, const char *to)
     int i;
 
     exists = (stat (to, &st) == 0);
+    if (exists == 0 && errno != ENOENT)
+        return DISIR_STATUS_FS_ERROR;
+
     if (exists)
     {
         if (S_ISREG (st.st_mode) == 0)
@@ -937,11 +940,21 @@ dx_archive_disk_append (const char *new_archive_path, const char *existing_archi
         path += ".disir";
     }
 
+    errno = 0;
+
     // The archive that was extended gives way to one at another location
-    if (existing_archive_path && stat (existing_archive_path, &st_existing) == 0)
+    if (existing_archive_path)
     {
-        moved = stat (path.c_str(), &st_new) != 0 ||
-                st_new.st_dev != st_existing.st_dev || st_new.st_ino != st_existing.st_ino;
+        if (stat (existing_archive_path, &st_existing) == 0)
+        {
+            moved = stat (path.c_str(), &st_new) != 0 ||
+                    st_new.st_dev != st_existing.st_dev || st_new.st_ino != st_existing.st_ino;
+        }
+        if (errno != 0 && errno != ENOENT)
+        {
+            log_error ("failed to access archive: %s", strerror (errno));
+            return DISIR_STATUS_FS_ERROR;
+        }
     }
 
     status = replace_file (temp_archive_path, path.c_str());
-- 
2.43.0


From 1709def67be95d905e11b34ac7c54e595e8e079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 088/106] fix: listing of entries silently left out those that
 could not be read

---
 lib/fslib/query.cc | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 2d029db..57b212c 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -36,6 +36,7 @@ fslib_config_query_entries (struct disir_instance *instance, struct disir_regist
                             const char *basedir, struct disir_entry **entries)
 {
     enum disir_status status;
+    enum disir_status retstatus = DISIR_STATUS_OK;
     DIR *directory;
     struct dirent *dp;
     struct disir_entry *entry;
@@ -104,6 +105,12 @@ fslib_config_query_entries (struct disir_instance *instance, struct disir_regist
                 //! Check if we have a mold entry for this directory entry
                 std::string entry_name(name, 0, name.size() - suffix.size());
                 status = plugin->dp_mold_query (instance, plugin, entry_name.c_str(), &mold_entry);
+                if (status == DISIR_STATUS_FS_ERROR || status == DISIR_STATUS_PERMISSION_ERROR)
+                {
+                    // Whether this is an entry cannot be told
+                    retstatus = status;
+                    continue;
+                }
                 if (status != DISIR_STATUS_EXISTS)
                 {
                     // We dont really care what happened here...
@@ -125,14 +132,19 @@ fslib_config_query_entries (struct disir_instance *instance, struct disir_regist
             else if (strcmp (dp->d_name, "..") == 0) {}
             else
             {
-                fslib_config_query_entries (instance, plugin, name.c_str(), entries);
+                status = fslib_config_query_entries (instance, plugin, name.c_str(), entries);
+                // No entry is in a directory whose name is ill-formed
+                if (status != DISIR_STATUS_OK && validate_entry_id_characters (name))
+                {
+                    retstatus = status;
+                }
             }
         }
     }
 
     closedir (directory);
 
-    return DISIR_STATUS_OK;
+    return retstatus;
 }
 
 //! FSLIB API
@@ -150,6 +162,7 @@ fslib_mold_query_entries (struct disir_instance *instance, struct disir_register
                           const char *basedir, struct disir_entry **entries)
 {
     enum disir_status status;
+    enum disir_status retstatus = DISIR_STATUS_OK;
     bool has_namespace = false;
     DIR *directory;
     struct dirent *dp;
@@ -306,14 +319,19 @@ fslib_mold_query_entries (struct disir_instance *instance, struct disir_register
             else
             {
 
-                fslib_mold_query_entries (instance, plugin, name.c_str(), entries);
+                status = fslib_mold_query_entries (instance, plugin, name.c_str(), entries);
+                // No entry is in a directory whose name is ill-formed
+                if (status != DISIR_STATUS_OK && validate_entry_id_characters (name))
+                {
+                    retstatus = status;
+                }
             }
         }
     }
 
     closedir (directory);
 
-    return DISIR_STATUS_OK;
+    return retstatus;
 }
 
 //! FSLIB API
-- 
2.43.0


From e1c457d004ae95b0a20ea7641e2cf97ae16ee150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 089/106] fix: import leaked an invalid mold

---
 lib/disir_import.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index adcf2cc..aae5b8b 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -240,7 +240,9 @@ dx_resolve_config_import_status (struct disir_instance *instance, const char *co
     if (status != DISIR_STATUS_OK)
     {
         // logged and error set
-        return DISIR_STATUS_NO_CAN_DO;
+        // The mold is also populated if it is invalid
+        status = DISIR_STATUS_NO_CAN_DO;
+        goto out;
     }
 
     status = read_config_imported (instance, config_path, import->ie_group_id,
-- 
2.43.0


From ddcbb4098d5b4777669ed72c6266cc0fce43c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 090/106] fix: import refused the archive, or the entry, when
 the existing entry could not be read

---
 lib/disir_import.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index aae5b8b..f580e37 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -131,9 +131,18 @@ import_determine_conflict (struct disir_instance *instance,
     {
         return status;
     }
+    else if (status == DISIR_STATUS_NO_MEMORY)
+    {
+        goto out;
+    }
     else if (status != DISIR_STATUS_OK)
     {
-        status = status == DISIR_STATUS_INVALID_CONTEXT ? DISIR_STATUS_CONFIG_INVALID : status;
+        // There is an entry on the system, even if it is invalid
+        current->ie_conflict = 1;
+        import_info_set (current, "existing entry cannot be read (%s)",
+                                  disir_status_string (status));
+        disir_error_clear (instance);
+        status = DISIR_STATUS_CONFLICT;
         goto out;
     }
 
-- 
2.43.0


From 31a88abff82c7fa46468ead1430aed04137b5c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 091/106] fix: discarding a resolved import entry left it
 updated and with another status

---
 lib/disir_import.c           | 37 ++++++++++++++++++++++++------------
 lib/include/import.h         |  2 ++
 lib/include/update_private.h |  3 ++-
 lib/update.c                 | 12 ++++--------
 4 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index f580e37..27a6783 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -360,6 +360,14 @@ disir_import_entry_status (struct disir_import *import, int entry,
     return status;
 }
 
+//! STATIC FUNCTION
+//! The config an import of the entry writes
+static struct disir_config *
+import_entry_config (struct disir_import_entry *entry)
+{
+    return entry->ie_config_updated ? entry->ie_config_updated : entry->ie_config;
+}
+
 //! PUBLIC API
 enum disir_status
 disir_import_resolve_entry (struct disir_import *import, int entry, enum disir_import_option opt)
@@ -384,8 +392,7 @@ disir_import_resolve_entry (struct disir_import *import, int entry, enum disir_i
     }
 
     // if entry is already resolved the only valid option is to discard it
-    if (current->ie_status == DISIR_STATUS_OK && current->ie_import &&
-        opt != DISIR_IMPORT_DISCARD)
+    if (current->ie_import && opt != DISIR_IMPORT_DISCARD)
     {
         return DISIR_STATUS_NO_CAN_DO;
     }
@@ -399,7 +406,8 @@ disir_import_resolve_entry (struct disir_import *import, int entry, enum disir_i
         if (current->ie_status == DISIR_STATUS_CONFLICT ||
             current->ie_status == DISIR_STATUS_CONFLICTING_SEMVER)
         {
-            status = dx_update_config_with_changes (&current->ie_config, 0);
+            status = dx_update_config_with_changes (current->ie_config, 0,
+                                                    &current->ie_config_updated);
             if (status != DISIR_STATUS_OK)
             {
                 return status;
@@ -445,7 +453,10 @@ disir_import_resolve_entry (struct disir_import *import, int entry, enum disir_i
     }
     case DISIR_IMPORT_DISCARD:
     {
+        // The entry is as it was before it was resolved
         current->ie_import = 0;
+        if (current->ie_config_updated)
+            disir_config_finished (&current->ie_config_updated);
         return DISIR_STATUS_OK;
     }
     case DISIR_IMPORT_UPDATE_WITH_DISCARD:
@@ -453,7 +464,8 @@ disir_import_resolve_entry (struct disir_import *import, int entry, enum disir_i
         if (current->ie_status == DISIR_STATUS_CONFLICT ||
             current->ie_status == DISIR_STATUS_CONFLICTING_SEMVER)
         {
-            status = dx_update_config_with_changes (&current->ie_config, 1);
+            status = dx_update_config_with_changes (current->ie_config, 1,
+                                                    &current->ie_config_updated);
             if (status != DISIR_STATUS_OK)
             {
                 return status;
@@ -473,13 +485,14 @@ disir_import_resolve_entry (struct disir_import *import, int entry, enum disir_i
     if (status == DISIR_STATUS_OK)
     {
         // resolve that config is valid at this point
-        status = disir_config_valid (current->ie_config, NULL);
+        status = disir_config_valid (import_entry_config (current), NULL);
         if (status != DISIR_STATUS_OK)
         {
+            if (current->ie_config_updated)
+                disir_config_finished (&current->ie_config_updated);
             return status;
         }
         current->ie_import = 1;
-        current->ie_status = DISIR_STATUS_OK;
     }
 
     return status;
@@ -577,10 +590,10 @@ disir_import_finalize (struct disir_instance *instance, enum disir_import_option
                continue;
 
            // Only import configs that have been resolved
-           if (current->ie_status == DISIR_STATUS_OK && current->ie_import)
+           if (current->ie_import)
            {
                status = disir_config_write (instance, current->ie_group_id, current->ie_entry_id,
-                                            current->ie_config);
+                                            import_entry_config (current));
 
                total++;
 
@@ -591,9 +604,7 @@ disir_import_finalize (struct disir_instance *instance, enum disir_import_option
            }
            if (report)
            {
-               if (status != DISIR_STATUS_OK &&
-                   current->ie_status == DISIR_STATUS_OK &&
-                   current->ie_import)
+               if (status != DISIR_STATUS_OK && current->ie_import)
                {
                    snprintf (buf, 4096, "Failed:         %s", current->ie_entry_id);
                    rep->ir_entry[i] = strdup (buf);
@@ -603,7 +614,7 @@ disir_import_finalize (struct disir_instance *instance, enum disir_import_option
                    snprintf (buf, 4096, "Imported:       %s (%s)",
                                          current->ie_entry_id,
                                          dc_version_string (version, 256,
-                                                            &current->ie_config->cf_version));
+                                        &import_entry_config (current)->cf_version));
                    rep->ir_entry[i] = strdup (buf);
 
                }
@@ -697,6 +708,8 @@ dx_import_entry_destroy (struct disir_import_entry *entry)
         free (entry->ie_version);
     if (entry->ie_config)
         disir_config_finished (&entry->ie_config);
+    if (entry->ie_config_updated)
+        disir_config_finished (&entry->ie_config_updated);
     if (entry)
         free (entry);
 
diff --git a/lib/include/import.h b/lib/include/import.h
index d9ec6e3..b90b670 100644
--- a/lib/include/import.h
+++ b/lib/include/import.h
@@ -28,6 +28,8 @@ struct disir_import_entry
     unsigned short ie_conflict;
     //! In-memory reference to archive entry config
     struct disir_config *ie_config;
+    //! The archive entry config updated to the mold, if it has been resolved so
+    struct disir_config *ie_config_updated;
 };
 
 //! Holds all config entries from an import
diff --git a/lib/include/update_private.h b/lib/include/update_private.h
index 9909bd5..7eb7c4d 100644
--- a/lib/include/update_private.h
+++ b/lib/include/update_private.h
@@ -26,7 +26,8 @@ struct disir_update
 };
 
 enum disir_status
-dx_update_config_with_changes (struct disir_config **config, int discard_violations);
+dx_update_config_with_changes (struct disir_config *config, int discard_violations,
+                               struct disir_config **updated);
 
 #endif // _LIBDISIR_PRIVATE_UPDATE_H
 
diff --git a/lib/update.c b/lib/update.c
index 192c5b3..bc28117 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -597,16 +597,16 @@ disir_update_finished (struct disir_update **update, struct disir_config **confi
 
 //! INTERNAL API
 enum disir_status
-dx_update_config_with_changes (struct disir_config **config, int discard_violations)
+dx_update_config_with_changes (struct disir_config *config, int discard_violations,
+                               struct disir_config **updated)
 {
     enum disir_status status;
     struct disir_update *update = NULL;
-    struct disir_config *c;
     const char *name;
     const char *keyval;
     const char *mold;
 
-    status = disir_update_config (*config, &(*config)->cf_mold->mo_version, &update);
+    status = disir_update_config (config, &config->cf_mold->mo_version, &update);
 
     do
     {
@@ -634,12 +634,8 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
 
     }
     while (1);
-   
-    c = *config;
 
-    disir_update_finished (&update, config);
-
-    return disir_config_finished (&c);
+    return disir_update_finished (&update, updated);
 error:
     if (update)
         disir_update_finished (&update, NULL);
-- 
2.43.0


From c28b8a29d189a5c663a76e2a6b64fabae135fd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 092/106] fix: discarding an import left its handle dangling

---
 lib/disir_import.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 27a6783..8ed70c1 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -557,7 +557,9 @@ disir_import_finalize (struct disir_instance *instance, enum disir_import_option
     {
     case DISIR_IMPORT_DISCARD:
     {
-        return dx_import_destroy (*import);
+        status = dx_import_destroy (*import);
+        *import = NULL;
+        return status;
     }
     case DISIR_IMPORT_DO:
     {
-- 
2.43.0


From 00a1a451f62b17f893e6c7d64e7c8b5296e79064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 093/106] fix: import refused the archive when the content of
 an entry did not fit its mold

---
 lib/disir_import.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 8ed70c1..8904baa 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -267,17 +267,18 @@ dx_resolve_config_import_status (struct disir_instance *instance, const char *co
             import_info_set (import, "archive entry is newer than system version");
             status = DISIR_STATUS_NO_CAN_DO;
         }
-        // We either got a parse error or config is invalid
-        else if (status == DISIR_STATUS_FS_ERROR || status == DISIR_STATUS_INVALID_CONTEXT)
-        {
-            import_info_set (import, "archive entry is invalid");
-            status = DISIR_STATUS_CONFIG_INVALID;
-        }
         // Plugin does not support reading from FILE
         else if (status == DISIR_STATUS_NO_CAN_DO)
         {
             import_info_set (import, "group does implement support for import");
         }
+        // We either got a parse error, the config is invalid, or its content
+        // does not fit the mold
+        else if (status != DISIR_STATUS_NO_MEMORY)
+        {
+            import_info_set (import, "archive entry is invalid");
+            status = DISIR_STATUS_CONFIG_INVALID;
+        }
         goto out;
     }
 
-- 
2.43.0


From 70cf066697861346a9e5c0be5ede34d4d1206fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:32 +0000
Subject: [PATCH 094/106] fix: generate overwrote an existing config covered by
 a namespace of another name

---
 cli/command_generate.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/command_generate.cc b/cli/command_generate.cc
index 367880c..1826055 100644
--- a/cli/command_generate.cc
+++ b/cli/command_generate.cc
@@ -120,8 +120,8 @@ CommandGenerate::handle_command (std::vector<std::string> &args)
             // it is covered by a namespace mold
             // Either the entry is covered by the top-level namespace (if it exists)
             // or a subnamespace (which namespace_entry does not resolve
-            if ((root == NULL && namespaces.count ("/") == 1)
-                || (namespaces.count (namespace_entry) != 0 && configs.count (entry) == 0))
+            const char *covering = root == NULL ? "/" : root;
+            if (namespaces.count (covering) != 0 && configs.count (entry) == 0)
             {
                 m_cli->verbose() << "Adding entry " << entry << " to available set."
                                  << " (namespace entry)" << std::endl;
-- 
2.43.0


From 36e824be06e5d26310250d82cb3cf1265937dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 095/106] fix: import asked without end when there was no more
 input to read

---
 cli/command_import.cc | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/cli/command_import.cc b/cli/command_import.cc
index aaf1569..eaef912 100644
--- a/cli/command_import.cc
+++ b/cli/command_import.cc
@@ -189,7 +189,17 @@ CommandImport::prompt_finalize_yes_no_from_user ()
     do
     {
         std::cout << "\ndo you wish to commit the above changes? (y)es or (n)o ? ";
-        read_stdin (opt, 3);
+        if (read_stdin (opt, 3))
+        {
+            if (!std::cin)
+            {
+                // No one to answer
+                std::cout << std::endl;
+                return DISIR_IMPORT_DISCARD;
+            }
+            continue;
+        }
+
         switch (opt[0])
         {
         case 'y':
@@ -209,16 +219,20 @@ int
 CommandImport::read_stdin (char *opt, unsigned int length)
 {
     std::string input;
-    std::getline (std::cin, input);
+
+    if (!std::getline (std::cin, input))
+    {
+        return(1);
+    }
 
     if (input.length() > length)
     {
         return(1);
     }
 
-    for (auto i = 0u; i < length || i < input.length(); i++)
+    for (auto i = 0u; i < length; i++)
     {
-        opt[i] = input[i];
+        opt[i] = i < input.length() ? input[i] : '\0';
     }
 
     return 0;
@@ -235,6 +249,12 @@ CommandImport::read_option (enum disir_import_option& option)
 
         if (read_stdin (&opt, 1))
         {
+            if (!std::cin)
+            {
+                // No one to answer - abort
+                std::cout << std::endl;
+                return(1);
+            }
             opt = 'h';
         }
 
-- 
2.43.0


From f5e27b97dd7c28072f27c0e83b5c59adbd7c033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 096/106] fix: dump cut long values short

---
 cli/command_dump.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cli/command_dump.cc b/cli/command_dump.cc
index b829201..2d9e2f7 100644
--- a/cli/command_dump.cc
+++ b/cli/command_dump.cc
@@ -135,16 +135,22 @@ CommandDump::output_config_context (struct disir_context *context, int indent)
 
         if (dc_context_type (element) == DISIR_CONTEXT_KEYVAL)
         {
-            char buffer[1024];
+            std::vector<char> buffer (1024);
             int32_t output_size;
-            status = dc_get_value (element, 1024, buffer, &output_size);
+            status = dc_get_value (element, buffer.size(), buffer.data(), &output_size);
+            if (status == DISIR_STATUS_OK && output_size >= (int32_t) buffer.size())
+            {
+                // The value did not fit
+                buffer.resize (output_size + 1);
+                status = dc_get_value (element, buffer.size(), buffer.data(), &output_size);
+            }
             if (status != DISIR_STATUS_OK)
             {
                 std::cerr << "error getting value...";
             }
             else
             {
-                std::cout << buffer;
+                std::cout << buffer.data();
             }
 
             std::cout << std::endl;
-- 
2.43.0


From 39fe0d741ee9b1ac9b0135ac5756bd4f37ec1c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 097/106] fix: generate overran a buffer with a name longer
 than a path

---
 cli/command_generate.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/command_generate.cc b/cli/command_generate.cc
index 1826055..6ab1953 100644
--- a/cli/command_generate.cc
+++ b/cli/command_generate.cc
@@ -95,7 +95,6 @@ CommandGenerate::handle_command (std::vector<std::string> &args)
     std::set<std::string> entries_to_generate;
     std::set<std::string> available = available_configs();
     std::set<std::string> namespaces = available_namespaces();
-    char namespace_entry[PATH_MAX];
     std::set<std::string> configs;
 
     // XXX: Ignore if this went shait? Or return in full error?
@@ -114,7 +113,8 @@ CommandGenerate::handle_command (std::vector<std::string> &args)
         m_cli->verbose() << "Generating entries in user supplied list." << std::endl;
         for (const auto& entry : args::get (opt_entries))
         {
-            const char *root = fslib_namespace_entry (entry.c_str(), namespace_entry);
+            std::vector<char> namespace_entry (entry.size() + 1);
+            const char *root = fslib_namespace_entry (entry.c_str(), namespace_entry.data());
 
             // Add entry to avalable set if it does not already exist, and
             // it is covered by a namespace mold
-- 
2.43.0


From 6a679030df77a402a4d45b4deb44a774dfb4a531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 098/106] fix: import announced one effect only for entries of
 equal names

---
 cli/command_import.cc              | 8 ++++----
 include/disir/cli/command_import.h | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/cli/command_import.cc b/cli/command_import.cc
index eaef912..3300b64 100644
--- a/cli/command_import.cc
+++ b/cli/command_import.cc
@@ -573,7 +573,7 @@ CommandImport::entry_import_result_format (struct archive_entry_info& entry,
                << ") and be updated to " << "(" << mold_version_string << ")";
         }
 
-        m_entries[entry.ai_entry_id] = ss.str();
+        m_entries.emplace (entry.ai_entry_id, ss.str());
         break;
     }
     case DISIR_IMPORT_FORCE:
@@ -581,7 +581,7 @@ CommandImport::entry_import_result_format (struct archive_entry_info& entry,
         ss << "archive entry (" << entry.ai_version << ")"
            << " will overwrite system entry (" << system_entry_version << ")";
 
-        m_entries[entry.ai_entry_id] = ss.str();
+        m_entries.emplace (entry.ai_entry_id, ss.str());
         break;
     }
     case DISIR_IMPORT_DO:
@@ -589,7 +589,7 @@ CommandImport::entry_import_result_format (struct archive_entry_info& entry,
         ss << "archive entry " << "(" << entry.ai_version << ")"
            << " will be imported without conflicts";
 
-        m_entries[entry.ai_entry_id] = ss.str();
+        m_entries.emplace (entry.ai_entry_id, ss.str());
         break;
     }
     case DISIR_IMPORT_DISCARD:
@@ -597,7 +597,7 @@ CommandImport::entry_import_result_format (struct archive_entry_info& entry,
         ss << "archive entry " << "(" << entry.ai_version << ")"
            << " will be discarded";
 
-        m_entries[entry.ai_entry_id] = ss.str();
+        m_entries.emplace (entry.ai_entry_id, ss.str());
         break;
     }
     default:
diff --git a/include/disir/cli/command_import.h b/include/disir/cli/command_import.h
index 82e1bf9..cba6ec6 100644
--- a/include/disir/cli/command_import.h
+++ b/include/disir/cli/command_import.h
@@ -87,7 +87,8 @@ namespace disir
                                          const char *system_entry_version,
                                          enum disir_import_option opt);
     private:
-        std::map<std::string, std::string> m_entries;
+        //! Entries of different groups may have equal names
+        std::multimap<std::string, std::string> m_entries;
     };
 }
 
-- 
2.43.0


From b17c614a207630e0173928c1edbcf6a731183a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 099/106] fix: format log times without the shared buffer of
 gmtime

---
 lib/log.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/log.c b/lib/log.c
index 1e48a37..352780e 100644
--- a/lib/log.c
+++ b/lib/log.c
@@ -76,6 +76,7 @@ dx_log_format (enum disir_log_level dll, int severity, const char *prefix,
     size_t buffer_size;
     FILE *stream;
     time_t now;
+    struct tm utctime_storage;
     struct tm *utctime;
     char dll_prefix[10];
 
@@ -136,7 +137,7 @@ dx_log_format (enum disir_log_level dll, int severity, const char *prefix,
 
     // Get UTC time
     time (&now);
-    utctime = gmtime (&now);
+    utctime = gmtime_r (&now, &utctime_storage);
 
     time_written = strftime (buffer, buffer_size, "[%Y-%m-%d %H:%M:%S]", utctime);
     if (time_written >= buffer_size || time_written == 0)
-- 
2.43.0


From cc93996a9657be9e347dc9dc2c0b84b33e80ca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 100/106] fix: element storage survives failing allocations
 when it grows or is destroyed

---
 3rdparty/void-list/list.c         | 12 ++++++++----
 3rdparty/void-multimap/multimap.c | 26 ++++++++++++++------------
 lib/element_storage.c             | 31 +++++++------------------------
 3 files changed, 29 insertions(+), 40 deletions(-)

diff --git a/3rdparty/void-list/list.c b/3rdparty/void-list/list.c
index 3596ab0..4878ab6 100644
--- a/3rdparty/void-list/list.c
+++ b/3rdparty/void-list/list.c
@@ -107,6 +107,7 @@ list_rpop (list_t *self)
     if (!self->len) return NULL;
 
     list_node_t *node = self->tail;
+    void *value;
 
     if (--self->len) {
         (self->tail = node->prev)->next = NULL;
@@ -114,8 +115,9 @@ list_rpop (list_t *self)
         self->tail = self->head = NULL;
     }
 
-    node->next = node->prev = NULL;
-    return node->val;
+    value = node->val;
+    LIST_FREE (node);
+    return value;
 }
 
 //!
@@ -127,6 +129,7 @@ list_lpop (list_t *self)
     if (!self->len) return NULL;
 
     list_node_t *node = self->head;
+    void *value;
 
     if (--self->len) {
         (self->head = node->next)->prev = NULL;
@@ -134,8 +137,9 @@ list_lpop (list_t *self)
         self->head = self->tail = NULL;
     }
 
-    node->next = node->prev = NULL;
-    return node->val;
+    value = node->val;
+    LIST_FREE (node);
+    return value;
 }
 
 //!
diff --git a/3rdparty/void-multimap/multimap.c b/3rdparty/void-multimap/multimap.c
index 113eacd..73150b1 100644
--- a/3rdparty/void-multimap/multimap.c
+++ b/3rdparty/void-multimap/multimap.c
@@ -127,9 +127,9 @@ delete_buckets (struct mapnode **buckets, int nbuckets,
 static void
 resize_map (struct multimap *map)
 {
-  int j;
+  unsigned long slot;
   int idx, old_nbuckets;
-  struct mapnode *node, **old_buckets;
+  struct mapnode *node, *next, **tail, **old_buckets;
 
   // Save old values
   old_buckets = map->buckets;
@@ -146,22 +146,24 @@ resize_map (struct multimap *map)
     return;
   }
 
-  map->size = 0;
-
-  // Populate new hashmap with old (key, value) tuples
+  // Move the nodes over; nothing is allocated, so none can be lost
   for (idx = 0; idx < old_nbuckets; idx++)
   {
-    for (node = old_buckets[idx]; node; node = node->next)
+    for (node = old_buckets[idx]; node; node = next)
     {
-      for (j = 0; j < node->value_size; j++)
-      {
-        multimap_push_value (map, node->key, node->value_list[j]);
-      }
+      next = node->next;
+      node->next = NULL;
+
+      slot = map->hashfunc (node->key) % map->nbuckets;
+      tail = &map->buckets[slot];
+      while (*tail)
+        tail = &(*tail)->next;
+      *tail = node;
     }
   }
 
-  // Finally, delete old buckets
-  delete_buckets (old_buckets, old_nbuckets, NULL, NULL);
+  // Finally, delete the old array
+  free (old_buckets);
 }
 
 struct multimap *
diff --git a/lib/element_storage.c b/lib/element_storage.c
index 09048e9..289f6cb 100644
--- a/lib/element_storage.c
+++ b/lib/element_storage.c
@@ -99,7 +99,6 @@ error:
 enum disir_status
 dx_element_storage_destroy (struct disir_element_storage **storage)
 {
-    list_iterator_t *iter;
     struct disir_context *context;
 
     TRACE_ENTER ("stroage: %p", storage);
@@ -110,36 +109,19 @@ dx_element_storage_destroy (struct disir_element_storage **storage)
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-    iter = list_iterator_create ((*storage)->es_list, LIST_HEAD);
-    if (iter == NULL)
-    {
-        log_warn ("list_iterator_create allocation failed.");
-        return DISIR_STATUS_NO_MEMORY;
-    }
-
     // Destroy each context stored in the element storage (through the list)
-    while ((context = list_iterator_next (iter)))
+    // The context is taken off the list first: dc_destroy reaches back into this storage,
+    // finds it gone and leaves our reference on it for dc_destroy itself to remove.
+    while ((context = list_lpop ((*storage)->es_list)))
     {
         log_debug(9, "destroying context %p in list belonging to storage", context);
         // Ignore return code - we just want to destroy and get out of town.
         // Destroying the context will decref our reference on it.
-        if (context)
-        {
-            // We are destroying a child of us - this dc_destroy call will
-            // remove our reference which we keep in the element storage.
-            // However, the dc_destroy call will reach back into this storage,
-            // removing its reference with a decref. This is to support
-            // removing children from a parent without destroying the parent.
-            // So, we actually have to incref here so that we add one references,
-            // and remove two.
-            dx_context_incref (context);
-            dc_destroy (&context);
-        }
+        dc_destroy (&context);
     }
 
-    // Destroy iterator and element_storage data structures
+    // Destroy element_storage data structures
     // multimap key is heap allocated upon insertion - free it upon deletion.
-    list_iterator_destroy (&iter);
     list_destroy (&(*storage)->es_list);
     multimap_destroy ((*storage)->es_map, free, NULL);
 
@@ -311,7 +293,8 @@ dx_element_storage_get (struct disir_element_storage *storage,
     iter = multimap_fetch (storage->es_map, name);
     if (iter == NULL)
     {
-        return DISIR_STATUS_NOT_EXIST;
+        return multimap_contains_key (storage->es_map, name) ? DISIR_STATUS_NO_MEMORY
+                                                             : DISIR_STATUS_NOT_EXIST;
     }
     col = dc_collection_create ();
     if (col == NULL)
-- 
2.43.0


From 6aca1772ad123bede390da13f8cc45475842aa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 101/106] fix: validity queries report a failed allocation

---
 lib/disir_config.c |  5 +++++
 lib/disir_mold.c   |  5 +++++
 lib/validate.c     | 34 ++++++++++++++++++++++------------
 3 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index efcb2db..47f9578 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -457,6 +457,11 @@ disir_config_valid (struct disir_config *config, struct disir_collection **colle
     if (collection)
     {
         col = dc_collection_create ();
+        if (col == NULL)
+        {
+            status = DISIR_STATUS_NO_MEMORY;
+            goto error;
+        }
     }
 
     status = dx_invalid_elements (config->cf_context, col);
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 9b3f586..7e25ba2 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -390,6 +390,11 @@ disir_mold_valid (struct disir_mold *mold, struct disir_collection **collection)
     if (collection)
     {
         col = dc_collection_create ();
+        if (col == NULL)
+        {
+            status = DISIR_STATUS_NO_MEMORY;
+            goto error;
+        }
     }
 
     status = dx_invalid_elements (mold->mo_context, col);
diff --git a/lib/validate.c b/lib/validate.c
index d899af4..c62da2f 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -874,7 +874,8 @@ dx_invalid_elements (struct disir_context *context, struct disir_collection *col
 {
     enum disir_status status;
     enum disir_status invalid;
-    struct disir_collection *col;
+    enum disir_status nested;
+    struct disir_collection *col = NULL;
     struct disir_context *element;
 
     invalid = (context->CONTEXT_STATE_INVALID == 1 ? DISIR_STATUS_INVALID_CONTEXT
@@ -885,7 +886,11 @@ dx_invalid_elements (struct disir_context *context, struct disir_collection *col
     {
         if (collection && (invalid == DISIR_STATUS_INVALID_CONTEXT))
         {
-            dc_collection_push_context (collection, context);
+            status = dc_collection_push_context (collection, context);
+            if (status != DISIR_STATUS_OK)
+            {
+                return status;
+            }
         }
     }
 
@@ -911,31 +916,36 @@ dx_invalid_elements (struct disir_context *context, struct disir_collection *col
             break;
         }
 
-        status = dc_context_valid (element);
-        if (status == DISIR_STATUS_INVALID_CONTEXT)
+        if (dc_context_valid (element) == DISIR_STATUS_INVALID_CONTEXT)
         {
             if (collection)
             {
-                dc_collection_push_context (collection, element);
+                status = dc_collection_push_context (collection, element);
             }
-            invalid = status;
+            invalid = DISIR_STATUS_INVALID_CONTEXT;
         }
 
         // Recurse the sections
-        if (dc_context_type (element) == DISIR_CONTEXT_SECTION)
+        if (status == DISIR_STATUS_OK && dc_context_type (element) == DISIR_CONTEXT_SECTION)
         {
-            status = dx_invalid_elements (element, collection);
-            if (status == DISIR_STATUS_INVALID_CONTEXT)
+            nested = dx_invalid_elements (element, collection);
+            if (nested == DISIR_STATUS_INVALID_CONTEXT)
             {
-                invalid = status;
+                invalid = nested;
+            }
+            else if (nested == DISIR_STATUS_NO_MEMORY)
+            {
+                status = nested;
             }
         }
 
         dc_putcontext (&element);
-        status = DISIR_STATUS_OK;
     }
 
-    dc_collection_finished (&col);
+    if (col)
+    {
+        dc_collection_finished (&col);
+    }
 
     return (status == DISIR_STATUS_OK ? invalid : status);
 }
-- 
2.43.0


From 49c15a842e49abb8effe5e9484bd79d4522010dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 102/106] fix: setting a name and listing restrictions report a
 failed allocation

---
 lib/context.c             | 10 ++++++++--
 lib/context_restriction.c |  7 ++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index ae0b83b..2a3c87a 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -677,12 +677,18 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
             dx_restriction_entries_value (equiv, DISIR_RESTRICTION_INC_ENTRY_MAX,
                                           &context->cx_root_context->cx_config->cf_version, &max);
             current_entries_count = 0;
-            if (dc_find_elements (context->cx_parent_context,
-                                  key, &collection) == DISIR_STATUS_OK)
+            status = dc_find_elements (context->cx_parent_context, key, &collection);
+            if (status == DISIR_STATUS_OK)
             {
                 current_entries_count = dc_collection_size (collection);
                 dc_collection_finished (&collection);
             }
+            else if (status == DISIR_STATUS_NO_MEMORY)
+            {
+                free (key);
+                return status;
+            }
+            status = DISIR_STATUS_OK;
 
             log_debug (4, "Maximum restriction for entry '%s' = %d (currently at %d",
                           key, max, current_entries_count);
diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 0559fa6..9abe19b 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1662,7 +1662,12 @@ dc_restriction_collection (struct disir_context *context, struct disir_collectio
 
     MQ_FOREACH (*rcol,
     {
-        dc_collection_push_context (col, entry->re_context);
+        status = dc_collection_push_context (col, entry->re_context);
+        if (status != DISIR_STATUS_OK)
+        {
+            dc_collection_finished (&col);
+            return status;
+        }
     });
 
     if (dc_collection_size(col) == 0)
-- 
2.43.0


From 69995cf495515b5f8377764df44e2c49249af649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 103/106] fix: comparison reports a failed allocation instead
 of losing differences

---
 include/disir/context.h |  1 +
 lib/compare.c           | 20 +++++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/disir/context.h b/include/disir/context.h
index 110eb26..25d32e5 100644
--- a/include/disir/context.h
+++ b/include/disir/context.h
@@ -248,6 +248,7 @@ struct disir_diff_report
     int     dr_entries;
     char    **dr_diff_string;
 
+    //! (-1) when an entry could not be added for lack of memory.
     int     dr_internal_allocated;
 };
 
diff --git a/lib/compare.c b/lib/compare.c
index 42df419..5b3f847 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -83,6 +83,11 @@ dx_diff_report_add (struct disir_diff_report *report, const char *fmt, ...)
     int ret = 0;
     void *moved = NULL;
 
+    if (report->dr_internal_allocated < 0)
+    {
+        // An entry is lost already
+        return;
+    }
     if (report->dr_entries == report->dr_internal_allocated)
     {
         moved = realloc (report->dr_diff_string,
@@ -95,6 +100,7 @@ dx_diff_report_add (struct disir_diff_report *report, const char *fmt, ...)
         else
         {
             log_error ("Failed to reallocate memory for diff report entry.");
+            report->dr_internal_allocated = -1;
             return;
         }
     }
@@ -104,6 +110,7 @@ dx_diff_report_add (struct disir_diff_report *report, const char *fmt, ...)
     if (report->dr_diff_string[i] == NULL)
     {
         log_error ("Failed to allocate memory for diff entry string.");
+        report->dr_internal_allocated = -1;
         return;
     }
 
@@ -118,6 +125,7 @@ dx_diff_report_add (struct disir_diff_report *report, const char *fmt, ...)
         {
             // Encoding error.
             log_error ("vsnprintf encoding error. Failed to write diff report string.");
+            free (report->dr_diff_string[i]);
             break;
         }
         else if (ret >= n)
@@ -132,6 +140,8 @@ dx_diff_report_add (struct disir_diff_report *report, const char *fmt, ...)
             else
             {
                 log_error ("Failed to realloc memory for diff report string.");
+                free (report->dr_diff_string[i]);
+                report->dr_internal_allocated = -1;
                 break;
             }
         }
@@ -561,7 +571,11 @@ compare_all_elements (struct disir_context *lhs, struct disir_context *rhs,
         }
 
         // Mark name as already handled
-        multimap_push_value (map, name, (void *)1);
+        if (multimap_push_value (map, name, (void *)1) != 0)
+        {
+            status = DISIR_STATUS_NO_MEMORY;
+            break;
+        }
 
         // Kick off a sub-search between lhs and rhs on name.
         // Store already mapped entries in map.
@@ -858,6 +872,10 @@ dc_compare (struct disir_context *lhs, struct disir_context *rhs,
     {
         status = DISIR_STATUS_CONFLICT;
     }
+    if (internal_report->dr_internal_allocated < 0)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+    }
     if (internal_report->dr_entries == 0)
     {
         dx_diff_report_destroy (&internal_report);
-- 
2.43.0


From 47ad9628dc8e474d047d4f54cd32180fd26529fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:46 +0000
Subject: [PATCH 104/106] fix: counting the elements of a section leaked one
 when it failed

---
 lib/validate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/validate.c b/lib/validate.c
index c62da2f..420212f 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -155,6 +155,10 @@ validate_inclusive_restrictions (struct disir_context *context)
             invalid = DISIR_STATUS_RESTRICTION_VIOLATED;
         }
     } while (1);
+    if (element)
+    {
+        dc_putcontext (&element);
+    }
     if (mold_collection)
     {
         dc_collection_finished (&mold_collection);
-- 
2.43.0


From 2bd9ddbec7b1af7d89e3c7f7e57046aa07e35d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 105/106] fix: import reports failure when an entry could not
 be written

---
 cli/command_import.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/command_import.cc b/cli/command_import.cc
index 3300b64..7a789e7 100644
--- a/cli/command_import.cc
+++ b/cli/command_import.cc
@@ -170,7 +170,8 @@ CommandImport::handle_command (std::vector<std::string> &args)
         // the only notification we get is that disir_error is populated
         if (disir_error (m_cli->disir()))
         {
-            std::cerr << disir_error (m_cli->disir());
+            std::cerr << disir_error (m_cli->disir()) << std::endl;
+            return (1);
         }
     }
     else
-- 
2.43.0


From b76261a1184c03415ef6231709c360014b1ac254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 106/106] fix: a refused export left its temporary archive
 behind

---
 cli/command_export.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/command_export.cc b/cli/command_export.cc
index a1db558..5253ebd 100644
--- a/cli/command_export.cc
+++ b/cli/command_export.cc
@@ -205,6 +205,10 @@ CommandExport::populate_archive (const char *path, const char *dest_path,
         if (error)
             std::cout << error << std::endl;
 
+        // A destination that cannot be written leaves the archive to be discarded
+        if (archive)
+            disir_archive_finalize (m_cli->disir(), NULL, &archive);
+
         return(1);
     }
 
-- 
2.43.0

