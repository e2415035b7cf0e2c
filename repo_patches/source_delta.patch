From 11ace0bafa45e132df8a2269d50d991987cab4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 001/103] fix: destroying a finalized context leaked it or left
 it in its parent

dc_destroy through a held reference dropped that reference and the one of
the element storage, but not the one handed to the parent on finalize; a
destroyed default was never removed from its keyval's queue.
---
 lib/context.c               |  9 +++++++++
 lib/context_config.c        | 20 --------------------
 lib/context_default.c       |  2 +-
 lib/context_documentation.c | 14 ++++++++++++--
 lib/context_keyval.c        |  3 +++
 lib/context_mold.c          | 20 +-------------------
 lib/context_restriction.c   |  1 +
 lib/context_section.c       | 20 ++------------------
 8 files changed, 29 insertions(+), 60 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 4c0a95d..fc2235a 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -175,6 +175,7 @@ enum disir_status
 dc_destroy (struct disir_context **context)
 {
     enum disir_status status;
+    struct disir_context *owned;
 
     // Check arguments
     status = CONTEXT_DOUBLE_NULL_INVALID_TYPE_CHECK (context);
@@ -199,6 +200,14 @@ dc_destroy (struct disir_context **context)
     // Only applicable if CONTEXT_STATE_IN_PARENT
     context_remove_from_parent (context);
 
+    // The parent owns the reference handed over when the context was finalized
+    // into it. The reference consumed below is the one of our caller.
+    if ((*context)->CONTEXT_STATE_FINALIZED && (*context)->CONTEXT_STATE_IN_PARENT)
+    {
+        owned = *context;
+        dx_context_decref (&owned);
+    }
+
     log_debug_context (6, *context, "destroying (context: %p - *context: %p", context, *context);
     // Call destroy on the object pointed to by context.
     // This shall destroy the element, and every single child.
diff --git a/lib/context_config.c b/lib/context_config.c
index 1d44acd..64a5416 100644
--- a/lib/context_config.c
+++ b/lib/context_config.c
@@ -166,10 +166,6 @@ error:
 enum disir_status
 dx_config_destroy (struct disir_config **config)
 {
-    enum disir_status status;
-    struct disir_context *context;
-    struct disir_collection *collection;
-
     if (config == NULL || *config == NULL)
         return DISIR_STATUS_INVALID_ARGUMENT;
 
@@ -177,22 +173,6 @@ dx_config_destroy (struct disir_config **config)
     disir_mold_finished (&(*config)->cf_mold);
 
     // Destroy all element_storage children
-    status = dx_element_storage_get_all ((*config)->cf_elements, &collection);
-    if (status == DISIR_STATUS_OK)
-    {
-        while (dx_collection_next_noncoalesce (collection, &context) != DISIR_STATUS_EXHAUSTED)
-        {
-            dx_context_decref (&context);
-            dc_putcontext (&context);
-        }
-        dc_collection_finished (&collection);
-    }
-    else
-    {
-        log_warn ("failed to get_all from internal element storage: %s",
-                  disir_status_string (status));
-    }
-
     dx_element_storage_destroy (&(*config)->cf_elements);
 
     free (*config);
diff --git a/lib/context_default.c b/lib/context_default.c
index d7ae0a0..ef14fa4 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -155,7 +155,7 @@ dx_default_destroy (struct disir_default **def)
     if (context && context->cx_parent_context)
     {
         // Don't access parent context type if context is destoyed
-        if (context->cx_parent_context->CONTEXT_STATE_DESTROYED != 0)
+        if (context->cx_parent_context->CONTEXT_STATE_DESTROYED == 0)
         {
             if (dc_context_type (context->cx_parent_context) == DISIR_CONTEXT_KEYVAL)
             {
diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 8a26350..192590a 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -359,7 +359,15 @@ dx_documentation_finalize (struct disir_context *doc)
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-    return dx_documentation_add (doc->cx_parent_context, doc->cx_documentation);
+    enum disir_status status;
+
+    status = dx_documentation_add (doc->cx_parent_context, doc->cx_documentation);
+    if (status == DISIR_STATUS_OK)
+    {
+        doc->CONTEXT_STATE_IN_PARENT = 1;
+    }
+
+    return status;
 }
 
 //! INTERNAL API
@@ -396,7 +404,9 @@ dx_documentation_destroy (struct disir_documentation **documentation)
         free(tmp->dd_value.dv_string);
 
     context = (*documentation)->dd_context;
-    if (context && context->cx_parent_context)
+    // A destroyed parent has already let go of its documentation queue.
+    if (context && context->cx_parent_context
+        && context->cx_parent_context->CONTEXT_STATE_DESTROYED == 0)
     {
         context = context->cx_parent_context;
 
diff --git a/lib/context_keyval.c b/lib/context_keyval.c
index fbc7240..48e5e56 100644
--- a/lib/context_keyval.c
+++ b/lib/context_keyval.c
@@ -411,6 +411,7 @@ dx_keyval_destroy (struct disir_keyval **keyval)
     while ((doc = MQ_POP((*keyval)->kv_documentation_queue)))
     {
         context = doc->dd_context;
+        dx_context_incref (context);
         dc_destroy (&context);
     }
 
@@ -418,6 +419,7 @@ dx_keyval_destroy (struct disir_keyval **keyval)
     while ((def = MQ_POP((*keyval)->kv_default_queue)))
     {
         context = def->de_context;
+        dx_context_incref (context);
         dc_destroy (&context);
     }
 
@@ -425,6 +427,7 @@ dx_keyval_destroy (struct disir_keyval **keyval)
     while ((restriction = MQ_POP ((*keyval)->kv_restrictions_queue)))
     {
         context = restriction->re_context;
+        dx_context_incref (context);
         dc_destroy (&context);
     }
 
diff --git a/lib/context_mold.c b/lib/context_mold.c
index 09cbb2d..cc43629 100644
--- a/lib/context_mold.c
+++ b/lib/context_mold.c
@@ -157,10 +157,8 @@ error:
 enum disir_status
 dx_mold_destroy (struct disir_mold **mold)
 {
-    enum disir_status status;
     struct disir_context *context;
     struct disir_documentation *doc;
-    struct disir_collection *collection;
 
     if (mold == NULL || *mold == NULL)
     {
@@ -169,29 +167,13 @@ dx_mold_destroy (struct disir_mold **mold)
     }
 
     // Destroy all element_storage children
-    status = dx_element_storage_get_all ((*mold)->mo_elements, &collection);
-    if (status == DISIR_STATUS_OK)
-    {
-        while (dx_collection_next_noncoalesce (collection, &context) != DISIR_STATUS_EXHAUSTED)
-        {
-            dx_context_decref (&context);
-            dc_putcontext (&context);
-        }
-        dc_collection_finished (&collection);
-    }
-    else
-    {
-        log_warn ("failed to get_all from internal element storage: %s",
-                  disir_status_string (status));
-    }
-
-    // Destroy element storage in the mold.
     dx_element_storage_destroy (&(*mold)->mo_elements);
 
     // Destroy the documentation associated with the mold.
     while ((doc = MQ_POP ((*mold)->mo_documentation_queue)))
     {
         context = doc->dd_context;
+        dx_context_incref (context);
         dc_destroy (&context);
     }
 
diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index b5e6680..258381c 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -273,6 +273,7 @@ dx_restriction_destroy (struct disir_restriction **restriction)
     while ((doc = MQ_POP((*restriction)->re_documentation_queue)))
     {
         context = doc->dd_context;
+        dx_context_incref (context);
         dc_destroy (&context);
     }
 
diff --git a/lib/context_section.c b/lib/context_section.c
index a0de3b5..5282503 100644
--- a/lib/context_section.c
+++ b/lib/context_section.c
@@ -177,10 +177,8 @@ error:
 enum disir_status
 dx_section_destroy (struct disir_section **section)
 {
-    enum disir_status status;
     struct disir_context *context;
     struct disir_documentation *doc;
-    struct disir_collection *collection;
     struct disir_restriction *restriction;
 
     if (section == NULL || *section == NULL)
@@ -205,32 +203,18 @@ dx_section_destroy (struct disir_section **section)
     while ((doc = MQ_POP((*section)->se_documentation_queue)))
     {
         context = doc->dd_context;
+        dx_context_incref (context);
         dc_destroy (&context);
     }
 
     // Destroy all element_storage children
-    status = dx_element_storage_get_all ((*section)->se_elements, &collection);
-    if (status == DISIR_STATUS_OK)
-    {
-        while (dx_collection_next_noncoalesce (collection, &context) != DISIR_STATUS_EXHAUSTED)
-        {
-            dx_context_decref (&context);
-            dc_putcontext (&context);
-        }
-        dc_collection_finished (&collection);
-    }
-    else
-    {
-        log_warn ("failed to get_all from internal element storage: %s",
-                  disir_status_string (status));
-    }
-
     dx_element_storage_destroy (&(*section)->se_elements);
 
     // Destroy all restrictions
     while ((restriction = MQ_POP ((*section)->se_restrictions_queue)))
     {
         context = restriction->re_context;
+        dx_context_incref (context);
         dc_destroy (&context);
     }
 
-- 
2.43.0


From 7887e6d95ed519137b556114ea86c0eacc6ab62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 002/103] fix: operating on a child of a destroyed context
 crashed

---
 lib/context_util.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/context_util.c b/lib/context_util.c
index caf6a22..9c7b336 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -273,6 +273,8 @@ dx_context_transfer_logwarn (struct disir_context *destination, struct disir_con
 enum disir_status
 dx_context_sp_full_check_log_error (struct disir_context *context, const char *function_name)
 {
+    struct disir_context *ancestor;
+
     // Check argument
     if (context == NULL)
     {
@@ -287,6 +289,19 @@ dx_context_sp_full_check_log_error (struct disir_context *context, const char *f
         return DISIR_STATUS_DESTROYED_CONTEXT;
     }
 
+    // A context still under construction outlives the destruction of its ancestors,
+    // but has nothing left to be constructed into.
+    for (ancestor = context->cx_parent_context; ancestor; ancestor = ancestor->cx_parent_context)
+    {
+        if (ancestor->CONTEXT_STATE_DESTROYED)
+        {
+            dx_log_context (context, "%s() invoked on %s whose ancestor %s is destroyed",
+                    function_name, dc_context_type_string (context),
+                    dc_context_type_string (ancestor));
+            return DISIR_STATUS_DESTROYED_CONTEXT;
+        }
+    }
+
     if (dx_context_type_sanify(context->cx_type) == DISIR_CONTEXT_UNKNOWN)
     {
         dx_log_context (context, "%s() invoked on unknown context( %d )", context->cx_type);
-- 
2.43.0


From 9c1f12c44c25339fc18f25f39b6b37794ff4e186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 003/103] fix: finalizing a finalized context inserted it
 twice; a failed finalize leaked the kept reference

---
 lib/context.c        | 9 ++++++++-
 lib/context_config.c | 6 ++++++
 lib/context_mold.c   | 6 ++++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/lib/context.c b/lib/context.c
index fc2235a..b5d2b7d 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -348,6 +348,13 @@ dc_finalize (struct disir_context **context)
         return DISIR_STATUS_WRONG_CONTEXT;
     }
 
+    if ((*context)->CONTEXT_STATE_FINALIZED)
+    {
+        dx_log_context (*context, "Context( %s ) is already finalized",
+                dc_context_type_string (*context));
+        return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+    }
+
     // Call finalize on the actual context type
     switch (dx_context_type_sanify ((*context)->cx_type))
     {
@@ -444,7 +451,7 @@ dc_finalize_keep_reference (struct disir_context *context)
     }
 
     status = dc_finalize (&tmp);
-    if (status == DISIR_STATUS_INVALID_CONTEXT && tmp)
+    if (context && tmp)
     {
         // decref - we have an additional reference acquired above
         dx_context_decref (&context);
diff --git a/lib/context_config.c b/lib/context_config.c
index 64a5416..2a8c1d9 100644
--- a/lib/context_config.c
+++ b/lib/context_config.c
@@ -102,6 +102,12 @@ dc_config_finalize (struct disir_context **context, struct disir_config **config
                         __func__, dc_context_type_string (*context));
         return DISIR_STATUS_WRONG_CONTEXT;
     }
+    if ((*context)->CONTEXT_STATE_FINALIZED)
+    {
+        dx_log_context (*context, "Context( %s ) is already finalized",
+                        dc_context_type_string (*context));
+        return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+    }
 
     // Perform full config validation.
     status = dx_validate_context (*context);
diff --git a/lib/context_mold.c b/lib/context_mold.c
index cc43629..b2add3e 100644
--- a/lib/context_mold.c
+++ b/lib/context_mold.c
@@ -89,6 +89,12 @@ dc_mold_finalize (struct disir_context **context, struct disir_mold **mold)
                         __func__, dc_context_type_string (*context));
         return DISIR_STATUS_WRONG_CONTEXT;
     }
+    if ((*context)->CONTEXT_STATE_FINALIZED)
+    {
+        dx_log_context (*context, "Context( %s ) is already finalized",
+                        dc_context_type_string (*context));
+        return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+    }
 
     // Perform full mold validation.
     status = dx_validate_context (*context);
-- 
2.43.0


From a75b3dc7bf7ab19016998639361f8da09a1b3687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 004/103] fix: changing the type, name or text of a value
 leaked or freed memory still in use

---
 lib/context.c               | 15 ++++++++--
 lib/context_default.c       |  6 +---
 lib/context_documentation.c |  3 +-
 lib/context_keyval.c        | 12 ++------
 lib/context_section.c       |  5 +---
 lib/context_util.c          |  2 +-
 lib/context_value.c         | 32 +++++++++++----------
 lib/include/value.h         | 11 ++++++++
 lib/util.c                  | 56 +++++++++++++++++++++++++++----------
 9 files changed, 88 insertions(+), 54 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index b5d2b7d..d52d2d3 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -941,18 +941,27 @@ dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t val
         return DISIR_STATUS_WRONG_CONTEXT;
     }
 
+    dx_context_incref (queried);
+
+    // The name may be set anew: give up the mold equivalent of the previous one.
     if (dc_context_type (context) == DISIR_CONTEXT_SECTION)
     {
+        if (context->cx_section->se_mold_equiv)
+        {
+            dx_context_decref (&context->cx_section->se_mold_equiv);
+        }
         context->cx_section->se_mold_equiv = queried;
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_KEYVAL)
     {
+        if (context->cx_keyval->kv_mold_equiv)
+        {
+            dx_context_decref (&context->cx_keyval->kv_mold_equiv);
+        }
         context->cx_keyval->kv_mold_equiv = queried;
-        context->cx_keyval->kv_value.dv_type = queried->cx_keyval->kv_value.dv_type;
+        dx_value_set_type (&context->cx_keyval->kv_value, queried->cx_keyval->kv_value.dv_type);
     }
 
-    dx_context_incref (queried);
-
     return DISIR_STATUS_OK;
 }
 
diff --git a/lib/context_default.c b/lib/context_default.c
index ef14fa4..e876c38 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -145,11 +145,7 @@ dx_default_destroy (struct disir_default **def)
 
     tmp = *def;
 
-    if (tmp->de_value.dv_type == DISIR_VALUE_TYPE_STRING ||
-        tmp->de_value.dv_size > 0)
-    {
-        free (tmp->de_value.dv_string);
-    }
+    dx_value_clear (&tmp->de_value);
 
     context = tmp->de_context;
     if (context && context->cx_parent_context)
diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 192590a..b14d3e0 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -400,8 +400,7 @@ dx_documentation_destroy (struct disir_documentation **documentation)
     tmp = *documentation;
     queue = NULL;
 
-    if (tmp->dd_value.dv_size > 0)
-        free(tmp->dd_value.dv_string);
+    dx_value_clear (&tmp->dd_value);
 
     context = (*documentation)->dd_context;
     // A destroyed parent has already let go of its documentation queue.
diff --git a/lib/context_keyval.c b/lib/context_keyval.c
index 48e5e56..9240bbd 100644
--- a/lib/context_keyval.c
+++ b/lib/context_keyval.c
@@ -386,18 +386,10 @@ dx_keyval_destroy (struct disir_keyval **keyval)
     }
 
     // Free allocated name
-    if ((*keyval)->kv_name.dv_size != 0)
-    {
-        free ((*keyval)->kv_name.dv_string);
-    }
+    dx_value_clear (&(*keyval)->kv_name);
 
     // Free allocated value, if string or enum
-    if (((*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_STRING
-        || (*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_ENUM)
-           && (*keyval)->kv_value.dv_size != 0)
-    {
-        free ((*keyval)->kv_value.dv_string);
-    }
+    dx_value_clear (&(*keyval)->kv_value);
 
     // Decref mold_equiv if set
     if ((*keyval)->kv_mold_equiv)
diff --git a/lib/context_section.c b/lib/context_section.c
index 5282503..7dce8a4 100644
--- a/lib/context_section.c
+++ b/lib/context_section.c
@@ -187,10 +187,7 @@ dx_section_destroy (struct disir_section **section)
     }
 
     // Free allocated name
-    if ((*section)->se_name.dv_size != 0)
-    {
-        free ((*section)->se_name.dv_string);
-    }
+    dx_value_clear (&(*section)->se_name);
 
     // Decref mold_equiv if set
     if ((*section)->se_mold_equiv)
diff --git a/lib/context_util.c b/lib/context_util.c
index 9c7b336..aaf2ba1 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -501,7 +501,7 @@ dc_set_value_type (struct disir_context *context, enum disir_value_type type)
     {
         //TODO XXX: Cannot set type if keyval has defaults
         //TODO XXX: Cannot set type if toplevel context is not DISIR_MOLD
-        context->cx_keyval->kv_value.dv_type = type;
+        dx_value_set_type (&context->cx_keyval->kv_value, type);
         break;
     }
     default:
diff --git a/lib/context_value.c b/lib/context_value.c
index f1d0cfa..735eb36 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -76,6 +76,7 @@ static enum disir_status
 set_value_input_check (struct disir_context *context, enum disir_value_type type,
                        struct disir_value **storage)
 {
+    struct disir_context *expected;
     enum disir_status status;
 
     status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
@@ -106,14 +107,6 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
         }
 
         *storage = &context->cx_keyval->kv_value;
-
-        // Assign keyval to its mold equiv type
-        // (Makes a correction in the type previously sat wrongfully (on purpose) below.)
-        if (context->cx_keyval->kv_mold_equiv)
-        {
-            context->cx_keyval->kv_value.dv_type
-                = context->cx_keyval->kv_mold_equiv->cx_keyval->kv_value.dv_type;
-        }
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_DEFAULT)
     {
@@ -173,7 +166,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                 // context error message already set by set_name
                 status = DISIR_STATUS_INVALID_CONTEXT;
                 // Set storage type to mirror input
-                (*storage)->dv_type = type;
+                dx_value_set_type (*storage, type);
             }
             // Use-case 3
             // set_name has been called and succeed, but wrong type assigned.
@@ -184,9 +177,14 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                 context->CONTEXT_STATE_INVALID = 1;
                 dx_context_error_set (context, "Assigned value type %s, expecting %s",
                                       dx_value_type_string (type),
-                                      dx_value_type_string ((*storage)->dv_type));
+                                      dc_value_type_string (context->cx_keyval->kv_mold_equiv));
                 // Set storage type to mirror input
-                (*storage)->dv_type = type;
+                dx_value_set_type (*storage, type);
+            }
+            else
+            {
+                // Corrects a type previously sat wrongfully (on purpose) above.
+                dx_value_set_type (*storage, type);
             }
         }
         // Use-case 4
@@ -194,16 +192,22 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                  context->CONTEXT_STATE_INVALID)
         {
             // Set storage type to mirror input
-            (*storage)->dv_type = type;
+            dx_value_set_type (*storage, type);
             status = DISIR_STATUS_INVALID_CONTEXT;
         }
         else if (context->CONTEXT_STATE_FINALIZED)
         {
             // Type check that we do not attempt to set incorrect type
-            if (dc_value_type (context) != type)
+            expected = context->cx_keyval->kv_mold_equiv ? context->cx_keyval->kv_mold_equiv
+                                                         : context;
+            if (dc_value_type (expected) != type)
             {
                 status = DISIR_STATUS_WRONG_VALUE_TYPE;
-                dx_context_error_set (context, "expected type %s", dc_value_type_string(context));
+                dx_context_error_set (context, "expected type %s", dc_value_type_string (expected));
+            }
+            else
+            {
+                dx_value_set_type (*storage, type);
             }
         }
     }
diff --git a/lib/include/value.h b/lib/include/value.h
index f107637..993b3d0 100644
--- a/lib/include/value.h
+++ b/lib/include/value.h
@@ -36,6 +36,17 @@ const char * dx_value_type_string (enum disir_value_type type);
 //!
 enum disir_value_type dx_value_type_sanify (enum disir_value_type type);
 
+//! \brief Set the type of the value, discarding the content if it is stored differently.
+//!
+//! STRING and ENUM share storage: the content is kept when changing between the two.
+//!
+void
+dx_value_set_type (struct disir_value *value, enum disir_value_type type);
+
+//! \brief Release the content of the value. The type is kept.
+void
+dx_value_clear (struct disir_value *value);
+
 //! \brief Populate output buffer with a string representation of the value structure
 //!
 //! Convert the value held by the input value to a string representation that is
diff --git a/lib/util.c b/lib/util.c
index 7a98834..baef28f 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -163,6 +163,34 @@ dc_version_convert (const char *input, struct disir_version *version)
     return DISIR_STATUS_OK;
 }
 
+//! INTERNAL API
+void
+dx_value_clear (struct disir_value *value)
+{
+    if (value->dv_type == DISIR_VALUE_TYPE_STRING || value->dv_type == DISIR_VALUE_TYPE_ENUM)
+    {
+        free (value->dv_string);
+    }
+
+    value->dv_integer = 0;
+    value->dv_size = 0;
+}
+
+//! INTERNAL API
+void
+dx_value_set_type (struct disir_value *value, enum disir_value_type type)
+{
+    int text = (value->dv_type == DISIR_VALUE_TYPE_STRING ||
+                value->dv_type == DISIR_VALUE_TYPE_ENUM);
+    int keep_text = (type == DISIR_VALUE_TYPE_STRING || type == DISIR_VALUE_TYPE_ENUM);
+
+    if (value->dv_type != type && !(text && keep_text))
+    {
+        dx_value_clear (value);
+    }
+    value->dv_type = type;
+}
+
 //! INTERNAL API
 enum disir_status
 dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
@@ -420,6 +448,8 @@ dx_value_get_float (struct disir_value *value, double *output_double)
 enum disir_status
 dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
 {
+    char *string;
+
     if (value == NULL)
     {
         log_debug (0, "invoked with NULL value pointer.");
@@ -434,36 +464,32 @@ dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
     }
     if (input == NULL)
     {
-        if (value->dv_size > 0)
-        {
-            free (value->dv_string);
-        }
+        free (value->dv_string);
         value->dv_size = 0;
         value->dv_string = NULL;
         return DISIR_STATUS_OK;
     }
 
+    // The input may be the string already stored: it is released last.
     if (value->dv_string == NULL || value->dv_size - 1 < size)
     {
-        // Just free the existing memory. We allocate a larger one below
-        if (value->dv_size - 1 < size)
-        {
-            free (value->dv_string);
-            value->dv_string = NULL;
-        }
-
         // Size of requested string + 1 for NULL terminator
-        value->dv_string = calloc (1, size + 1);
-        if (value->dv_string == NULL)
+        string = calloc (1, size + 1);
+        if (string == NULL)
         {
             log_error ("failed to allocate sufficient memory for value string (%d)",
                        size + 1);
             return DISIR_STATUS_NO_MEMORY;
         }
+        memcpy (string, input, size);
+        free (value->dv_string);
+        value->dv_string = string;
+    }
+    else
+    {
+        memmove (value->dv_string, input, size);
     }
 
-    // Copy the incoming docstring to freely available space
-    memcpy (value->dv_string, input, size);
     value->dv_size = size;
 
     // Terminate it with a zero terminator. Just to be safe.
-- 
2.43.0


From 8884f0c20e05dd7ac02d83ce767518b97728e935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 005/103] fix: renaming a finalized element left it stored
 under its old name

---
 include/disir/context.h |  1 +
 lib/context.c           | 13 ++++++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/disir/context.h b/include/disir/context.h
index 110eb26..7db0be1 100644
--- a/include/disir/context.h
+++ b/include/disir/context.h
@@ -197,6 +197,7 @@ dc_context_valid (struct disir_context *context);
 //!
 //! \return DISIR_STATUS_INVALID_ARGUMENT if name or name_size are zero
 //! \return DISIR_STATUS_NO_CAN_DO if an unsupported context type
+//! \return DISIR_STATUS_CONTEXT_IN_WRONG_STATE if the context is finalized.
 //! \return DISIR_STATUS_NOT_EXIST if the input context' root is CONFIG, and there are no
 //!     mold equivalent entry for name in the parent context mold.
 //!     May also be returned if the parent of context is also missing a mold equivalent.
diff --git a/lib/context.c b/lib/context.c
index d52d2d3..69d5a75 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -545,6 +545,14 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         return status;
     }
 
+    // The parent finds a finalized element by the name it was finalized with.
+    if (context->CONTEXT_STATE_FINALIZED)
+    {
+        dx_context_error_set (context, "cannot set name on a finalized %s",
+                                        dc_context_type_string (context));
+        return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+    }
+
     // Find the name in the mold
     if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
     {
@@ -578,8 +586,6 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         }
     }
 
-    // QUESTION: Do not allow setting name on finalized context? Only if not invalid
-
     if (dc_context_type (context) == DISIR_CONTEXT_KEYVAL)
     {
         status = dx_value_set_string (&context->cx_keyval->kv_name, name, name_size);
@@ -596,9 +602,6 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
 
     status = (status == DISIR_STATUS_OK ? invalid : status);
 
-    // TODO:  if context is not in constructing mode (it has been finalized once)
-    // remove old name from parent storage and add it under the new name.
-
     TRACE_EXIT ("status: %s", disir_status_string (status));
     return status;
 }
-- 
2.43.0


From 6460da1c97e78176b9021d950bc61b16d21869c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 006/103] fix: generating a config leaked contexts on failure
 and crashed on a section without a mold

---
 lib/generate.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/lib/generate.c b/lib/generate.c
index b43d4a2..0d80fa8 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -38,6 +38,10 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
     int min_entries;
     int i;
 
+    collection = NULL;
+    equiv = NULL;
+    context = NULL;
+
     // Get each element from the element storage of mold_parent
     status = dc_get_elements (mold_parent, &collection);
     if (status != DISIR_STATUS_OK)
@@ -118,6 +122,14 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
 
     status = DISIR_STATUS_OK;
 error:
+    if (context)
+    {
+        dc_destroy (&context);
+    }
+    if (equiv)
+    {
+        dc_putcontext (&equiv);
+    }
     if (collection)
     {
         dc_collection_finished (&collection);
@@ -161,7 +173,7 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
         if (status != DISIR_STATUS_OK)
         {
             // Already logged
-            return status;
+            goto error;
         }
     }
     else
@@ -170,14 +182,14 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
         if (status != DISIR_STATUS_OK)
         {
             // Already logged ?
-            return status;
+            goto error;
         }
     }
     status = dc_set_version (config_context, &version);
     if (status != DISIR_STATUS_OK)
     {
         // Already logged
-        return status;
+        goto error;
     }
 
     generate_config_from_mold_recursive_step (mold->mo_context, config_context, &version, 0);
@@ -244,6 +256,11 @@ dc_generate_from_config_root (struct disir_context *context)
     else
     {
         mold_equiv = context->cx_section->se_mold_equiv;
+        if (mold_equiv == NULL)
+        {
+            dx_context_error_set (context, "cannot generate elements of a section without a mold");
+            return DISIR_STATUS_MOLD_MISSING;
+        }
     }
     version = &context->cx_root_context->cx_config->cf_version;
 
-- 
2.43.0


From 3bb518a3a199240616639294334ff17c88bc6d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 007/103] fix: creating a queried keyval used the mold's limits
 and freed the new section twice

---
 lib/disir_config_query.c |  6 +++++-
 lib/query.c              | 33 +++++++++++++++++++++++----------
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/lib/disir_config_query.c b/lib/disir_config_query.c
index d0320b2..5a746a8 100644
--- a/lib/disir_config_query.c
+++ b/lib/disir_config_query.c
@@ -7,6 +7,7 @@
 #include <disir/context.h>
 #include <disir/config.h>
 
+#include "config.h"
 #include "context_private.h"
 #include "query_private.h"
 #include "log.h"
@@ -178,7 +179,8 @@ config_ensure_keyval_leaf (struct disir_context *immediate_parent, const char *k
     // Check if our keyval_index is out of bounds of the maximum number of instances.
     status = dx_restriction_entries_value (element_mold_equiv,
                                            DISIR_RESTRICTION_INC_ENTRY_MAX,
-                                           NULL, &max_elements);
+                                           &immediate_parent->cx_root_context->cx_config->cf_version,
+                                           &max_elements);
     dc_putcontext (&element_mold_equiv);
     if (status != DISIR_STATUS_OK)
     {
@@ -237,6 +239,8 @@ config_ensure_keyval_leaf (struct disir_context *immediate_parent, const char *k
     {
         log_warn ("set_name failed, even though it shouldnt have: %s",
                   disir_status_string (status));
+        dx_context_transfer_logwarn (immediate_parent, context);
+        dc_destroy (&context);
         return status;
     }
 
diff --git a/lib/query.c b/lib/query.c
index 3db7537..3c0e7e8 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -6,6 +6,7 @@
 #include <disir/disir.h>
 
 #include "context_private.h"
+#include "config.h"
 #include "query_private.h"
 #include "restriction.h"
 #include "log.h"
@@ -115,6 +116,20 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
     return DISIR_STATUS_OK;
 }
 
+//! STATIC API
+//!
+//! Destroy the context, unless it is the ancestor: destroying the ancestor destroys
+//! every context created beneath it, and is left to the caller.
+//!
+static void
+ensure_ancestors_discard (struct disir_context **context, struct disir_context *ancestor)
+{
+    if (*context != ancestor)
+    {
+        dc_destroy (context);
+    }
+}
+
 //! INTERNAL API
 enum disir_status
 dx_query_ensure_ancestors (struct disir_context *config,
@@ -136,9 +151,12 @@ dx_query_ensure_ancestors (struct disir_context *config,
     struct disir_context *current_context = NULL;
     struct disir_context *parent_context = NULL;
     struct disir_context *ancestor_context = NULL;
+    struct disir_version *version;
 
     TRACE_ENTER ("parent (%p)", config);
 
+    version = &config->cx_root_context->cx_config->cf_version;
+
     // Populate a buffer with our query that we can process
     va_copy (args_copy, args);
     vsnprintf (buffer, 2048, query, args_copy);
@@ -222,7 +240,7 @@ dx_query_ensure_ancestors (struct disir_context *config,
             int max_elements = 0;
             status = dx_restriction_entries_value (element_mold_equiv,
                                                    DISIR_RESTRICTION_INC_ENTRY_MAX,
-                                                   NULL, &max_elements);
+                                                   version, &max_elements);
             if (status != DISIR_STATUS_OK)
             {
                 dc_putcontext (&element_mold_equiv);
@@ -274,7 +292,7 @@ dx_query_ensure_ancestors (struct disir_context *config,
                 // TODO: Verify / sanify error message
                 // This should only happend if the variable referenced is a KEYVAL, not a section.
                 dx_context_transfer_logwarn (config, current_context);
-                dc_destroy (&current_context);
+                ensure_ancestors_discard (&current_context, ancestor_context);
                 break;
             }
 
@@ -283,7 +301,7 @@ dx_query_ensure_ancestors (struct disir_context *config,
             {
                 // This should NOT happend.
                 log_warn ("TODO: HANDLE ERROR MESSAGE: generate_from_config_root");
-                dc_destroy (&current_context);
+                ensure_ancestors_discard (&current_context, ancestor_context);
                 break;
             }
 
@@ -297,7 +315,7 @@ dx_query_ensure_ancestors (struct disir_context *config,
                     // TODO: error message
                     log_warn ("TODO: HANDLE ERROR MESSAGE: dc_finalize_keep_reference");
                     status = DISIR_STATUS_INTERNAL_ERROR;
-                    dc_destroy (&current_context);
+                    ensure_ancestors_discard (&current_context, ancestor_context);
                     break;
                 }
             }
@@ -331,12 +349,7 @@ dx_query_ensure_ancestors (struct disir_context *config,
     // we need to destroy it.
     if (status != DISIR_STATUS_OK && ancestor_context)
     {
-        // We should only destroy the ancestor if we havent already destroyed
-        // it in our loop above
-        if (ancestor_context != current_context)
-        {
-            dc_destroy (&ancestor_context);
-        }
+        dc_destroy (&ancestor_context);
     }
 
     // Populate the output parameters
-- 
2.43.0


From 94e4ce18a17d26c6c6b5da6aae5fb1a6264a9830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 008/103] fix: the entry limits of a later major version could
 be shadowed by an older one

---
 lib/context_restriction.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 258381c..082e881 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1265,9 +1265,8 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     struct disir_restriction **q;
     int min = -1;
     int max = -1;
-    int min_closes_match = INT_MIN;
-    int max_closes_match = INT_MIN;
-    int diff;
+    struct disir_version *min_introduced = NULL;
+    struct disir_version *max_introduced = NULL;
     struct disir_version *element_introduced = NULL;
     struct disir_version *element_deprecated = NULL;
 
@@ -1359,24 +1358,26 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
         if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN ||
             entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX)
         {
-            // XXX: This is severely flawed - the diff does not indicate
-            // how great of a version difference
-            diff = dc_version_compare  (&entry->re_introduced, version);
             // entry is newer than target version
-            if (diff > 0)
+            if (dc_version_compare (&entry->re_introduced, version) > 0)
             {
                 entry = entry->next;
                 continue;
             }
 
-            if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN && diff > min_closes_match)
+            // The most recently introduced entry applies
+            if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN &&
+                (min_introduced == NULL ||
+                 dc_version_compare (&entry->re_introduced, min_introduced) > 0))
             {
-                min_closes_match = diff;
+                min_introduced = &entry->re_introduced;
                 min = entry->re_value_min;
             }
-            else if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX && diff > max_closes_match)
+            else if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX &&
+                     (max_introduced == NULL ||
+                      dc_version_compare (&entry->re_introduced, max_introduced) > 0))
             {
-                max_closes_match = diff;
+                max_introduced = &entry->re_introduced;
                 max = entry->re_value_max;
             }
         }
-- 
2.43.0


From 968c5eccc4b5701a2191dd235951ad4a358f19e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 009/103] fix: an index beyond the range of int resolved to
 another element

---
 lib/query.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/query.c b/lib/query.c
index 3c0e7e8..0af91d7 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <stdarg.h>
@@ -28,6 +29,7 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
     char *key_seperator;
     char *index_indicator;
     char *endptr;
+    long parsed_index;
 
     *index = 0;
     name_below = NULL;
@@ -95,7 +97,9 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
         strcat (resolved, name_index);
 
         // Find the index
-        *index = strtol (name_index, &endptr, 10);
+        parsed_index = strtol (name_index, &endptr, 10);
+        *index = (parsed_index > INT_MAX ? INT_MAX :
+                  parsed_index < INT_MIN ? INT_MIN : parsed_index);
         if (name_index == endptr)
         {
             dx_log_context (parent, "'%s' is an invalid index indicator.", resolved);
-- 
2.43.0


From 8dbd8c25d758665459a4432b5ecaf553a2b1addd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 010/103] fix: comparing versions and values overflowed or
 ignored fractions

---
 lib/util.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index baef28f..1e4e491 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -89,11 +89,10 @@ dc_version_compare (struct disir_version *s1, struct disir_version *s2)
 {
     int res;
 
-    res = 0;
-
-    res = s1->sv_major - s2->sv_major;
+    // The difference of two unsigned numbers does not fit: compare them.
+    res = (s1->sv_major > s2->sv_major) - (s1->sv_major < s2->sv_major);
     if (res == 0)
-        res = s1->sv_minor - s2->sv_minor;
+        res = (s1->sv_minor > s2->sv_minor) - (s1->sv_minor < s2->sv_minor);
 
     log_debug (8, "s1 (%u.%u) vs s2 (%u.%u) res (%d)",
                     s1->sv_major, s1->sv_minor,
@@ -259,20 +258,18 @@ dx_value_compare (struct disir_value *v1, struct disir_value *v2)
         return (INT_MIN);
 
     if (v1->dv_size != v2->dv_size)
-        return (v1->dv_size - v2->dv_size);
+        return (v1->dv_size > v2->dv_size ? 1 : -1);
 
-    // FIXME: There is probably some parts of this
-    //  compare that is sustainable to underflow/overflow..
     switch (dx_value_type_sanify (v1->dv_type))
     {
     case DISIR_VALUE_TYPE_ENUM:
         // FALL-THROUGH
     case DISIR_VALUE_TYPE_STRING:
-        return memcmp (v1->dv_string, v2->dv_string, v1->dv_size);
+        return (v1->dv_size == 0 ? 0 : memcmp (v1->dv_string, v2->dv_string, v1->dv_size));
     case DISIR_VALUE_TYPE_INTEGER:
-        return (v1->dv_integer - v2->dv_integer);
+        return (v1->dv_integer > v2->dv_integer) - (v1->dv_integer < v2->dv_integer);
     case DISIR_VALUE_TYPE_FLOAT:
-        return (int)(v1->dv_float - v2->dv_float);
+        return (v1->dv_float > v2->dv_float) - (v1->dv_float < v2->dv_float);
     case DISIR_VALUE_TYPE_BOOLEAN:
         return (v1->dv_boolean - v2->dv_boolean);
     default:
-- 
2.43.0


From fb3f43929280a41e2f2b25eb8cd1f414f55f7ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 011/103] fix: rendering a value wrote past an output buffer
 too small for it

---
 lib/util.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 1e4e491..5190454 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -199,6 +199,12 @@ dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
     int32_t size;
 
     status = DISIR_STATUS_OK;
+    size = 0;
+    if (output_buffer_size <= 0)
+    {
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+    }
+
     switch (value->dv_type)
     {
     case DISIR_VALUE_TYPE_ENUM:
@@ -216,8 +222,11 @@ dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
             log_debug (3, "Insufficient buffer provided - decrementing output size by one");
         }
 
-        memcpy (output, value->dv_string, copy_size);
-        output[size] = '\0';
+        if (copy_size > 0)
+        {
+            memcpy (output, value->dv_string, copy_size);
+        }
+        output[copy_size] = '\0';
         break;
     }
     case DISIR_VALUE_TYPE_INTEGER:
-- 
2.43.0


From fbefd09758f155059f78630e4f2f3adcc51d849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 012/103] fix: validating an untyped restriction or setting an
 enum from text aborted the process

---
 lib/context_value.c | 3 +--
 lib/validate.c      | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index 735eb36..0bb6106 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -319,8 +319,7 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
     }
     case DISIR_VALUE_TYPE_ENUM:
     {
-        // TODO: Implement dc_set_value enum
-        dx_crash_and_burn ("dc_set_value ENUM NOT HANDLED!");
+        status = dc_set_value_enum (context, value, value_size);
         break;
     }
     case DISIR_VALUE_TYPE_UNKNOWN:
diff --git a/lib/validate.c b/lib/validate.c
index 2ab0082..9544fd5 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -141,8 +141,7 @@ validate_inclusive_restrictions (struct disir_context *context)
             char buffer[50];
             dx_log_context (context,
                             "%s is not a valid element for version %s",
-                            name, dc_version_string(buffer, 50,
-                                                    &(context)->cx_config->cf_version));
+                            name, dc_version_string (buffer, 50, target_version));
             invalid = DISIR_STATUS_RESTRICTION_VIOLATED;
         }
         if (size > max && max > 0)
@@ -478,7 +477,7 @@ validate_restriction (struct disir_context *context)
     if (dx_restriction_type_sanify (res->re_type) == DISIR_RESTRICTION_UNKNOWN)
     {
        dx_log_context (context, "Missing type component for restriction.");
-       return DISIR_STATUS_INVALID_CONTEXT;
+       return DISIR_STATUS_WRONG_VALUE_TYPE;
     }
 
     // Validate that the restriction context got a valid type set (belongs to a group)
-- 
2.43.0


From f2bc257a86c80044d24156e17a16e11a95b3a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 013/103] fix: an enum value was checked beyond its size and
 crashed the check when unset

---
 lib/context_restriction.c | 3 ++-
 lib/context_value.c       | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 082e881..135af99 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1187,7 +1187,8 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
                 allowed_written = RESTRICTION_ENTRIES_BUFFER_SIZE;
             }
 
-            if (strcmp (string_value, entry->re_value_string) == 0)
+            if (string_value != NULL && entry->re_value_string != NULL &&
+                strcmp (string_value, entry->re_value_string) == 0)
             {
                 // QUESTION: Check length aswell ?
                 log_debug (6, "Exclusive_restriction fulfilled (Value (%s) == %s)",
diff --git a/lib/context_value.c b/lib/context_value.c
index 0bb6106..840acd2 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -808,6 +808,7 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
     enum disir_status status;
     enum disir_status invalid;
     struct disir_value *value_storage;
+    char *checked;
 
     TRACE_ENTER ("context: %p, value: %s, value_size: %d", context, value, value_size);
 
@@ -821,7 +822,10 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
 
     if (invalid != DISIR_STATUS_INVALID_CONTEXT)
     {
-        invalid = dx_restriction_exclusive_value_check (context, 0, 0, value);
+        // Only the value_size first bytes of value are stored - and checked.
+        checked = (value == NULL ? NULL : strndup (value, value_size));
+        invalid = dx_restriction_exclusive_value_check (context, 0, 0, checked);
+        free (checked);
     }
 
      // Do not allow finalized context to change value
-- 
2.43.0


From 286e3817a45fda72b4ff51555abc90f80cb7576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 014/103] fix: the name from the root of an element not in its
 parent hung, and deep ones overflowed

---
 lib/context.c | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 69d5a75..bf03619 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -676,9 +676,10 @@ dc_resolve_root_name (struct disir_context *context, char **output)
 {
     enum disir_status status;
     int total_size = 0;
-    const char *reverse_name_index[20];
-    int reverse_name_index_index[20];
+    const char **reverse_name_index = NULL;
+    int *reverse_name_index_index = NULL;
     int current_name_index = -1;
+    int depth = 0;
     struct disir_context *current_context = NULL;
     const char *name = NULL;
     int32_t name_size;
@@ -703,12 +704,26 @@ dc_resolve_root_name (struct disir_context *context, char **output)
         goto out;
     }
 
+    for (current_context = context; current_context != NULL;
+         current_context = current_context->cx_parent_context)
+    {
+        depth += 1;
+    }
+    reverse_name_index = calloc (depth, sizeof (*reverse_name_index));
+    reverse_name_index_index = calloc (depth, sizeof (*reverse_name_index_index));
+    if (reverse_name_index == NULL || reverse_name_index_index == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto out;
+    }
+
     current_context = context;
     while (current_context != NULL)
     {
         current_name_index += 1;
         reverse_name_index_index[current_name_index] = -1;
 
+        name = NULL;
         name_size = 0;
         status = dc_get_name (current_context, &name, &name_size);
         if (status != DISIR_STATUS_OK)
@@ -721,7 +736,7 @@ dc_resolve_root_name (struct disir_context *context, char **output)
         // Add length of name, plus additional characters for separators and index
         //  e.g., name@12.
         total_size += name_size;
-        total_size += 10;
+        total_size += 14;
 
         reverse_name_index[current_name_index] = name;
         if (reverse_name_index_index[current_name_index] == -1)
@@ -730,14 +745,20 @@ dc_resolve_root_name (struct disir_context *context, char **output)
             struct disir_collection *collection;
             struct disir_context *queried;
 
+            // An element that is not (yet) part of its parent has no name from the root
+            if (name == NULL)
+            {
+                status = DISIR_STATUS_NOT_EXIST;
+                goto out;
+            }
             status = dc_find_elements (current_context->cx_parent_context, name, &collection);
             if (status != DISIR_STATUS_OK)
-                break;
+                goto out;
 
             do
             {
                 status = dc_collection_next (collection, &queried);
-                if (status != DISIR_STATUS_OK && status != DISIR_STATUS_EXHAUSTED)
+                if (status != DISIR_STATUS_OK)
                     break;
 
                 i += 1;
@@ -757,7 +778,8 @@ dc_resolve_root_name (struct disir_context *context, char **output)
             // The context is not found in the parent..
             if (status != DISIR_STATUS_OK)
             {
-                break;
+                status = (status == DISIR_STATUS_EXHAUSTED ? DISIR_STATUS_NOT_EXIST : status);
+                goto out;
             }
         }
 
@@ -773,7 +795,10 @@ dc_resolve_root_name (struct disir_context *context, char **output)
     // Allocate buffer for name
     buffer = malloc (total_size);
     if (buffer == NULL)
-        return DISIR_STATUS_NO_MEMORY;
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto out;
+    }
 
     int i;
     int written = 0;
@@ -802,6 +827,8 @@ dc_resolve_root_name (struct disir_context *context, char **output)
     *output = buffer;
     status = DISIR_STATUS_OK;
 out:
+    free (reverse_name_index);
+    free (reverse_name_index_index);
     TRACE_EXIT ("%s", disir_status_string (status));
     return status;
 }
-- 
2.43.0


From f2c7b85f218b8999daf94f1f9bd42247602774fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 015/103] fix: limits, default and value type of an element
 that cannot have them crashed

---
 lib/context_default.c     | 11 +++++++++++
 lib/context_restriction.c | 11 +++++++++++
 lib/context_util.c        |  6 ++++--
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/lib/context_default.c b/lib/context_default.c
index e876c38..3b4647a 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -539,7 +539,18 @@ dc_get_default (struct disir_context *context, struct disir_version *version,
             return DISIR_STATUS_INTERNAL_ERROR;
         }
 
+        if (keyval == NULL)
+        {
+            log_debug_context (0, context, "has no mold to get its default from");
+            return DISIR_STATUS_MOLD_MISSING;
+        }
+
         dx_default_get_active (keyval, version, &def);
+        if (def == NULL)
+        {
+            log_debug_context (0, context, "has no default");
+            return DISIR_STATUS_DEFAULT_MISSING;
+        }
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_DEFAULT)
     {
diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 135af99..5b86aa5 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1271,10 +1271,21 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     struct disir_version *element_introduced = NULL;
     struct disir_version *element_deprecated = NULL;
 
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
+    if (status != DISIR_STATUS_OK)
+        return status;
     status = CONTEXT_TYPE_CHECK (context, DISIR_CONTEXT_SECTION, DISIR_CONTEXT_KEYVAL);
     if (status != DISIR_STATUS_OK)
         return status;
 
+    // The limits of a config element are those of its mold equivalent
+    if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG &&
+        (dc_context_type (context) == DISIR_CONTEXT_SECTION
+         ? context->cx_section->se_mold_equiv : context->cx_keyval->kv_mold_equiv) == NULL)
+    {
+        return DISIR_STATUS_MOLD_MISSING;
+    }
+
     if (type != DISIR_RESTRICTION_INC_ENTRY_MAX && type != DISIR_RESTRICTION_INC_ENTRY_MIN)
         return DISIR_STATUS_INTERNAL_ERROR;
 
diff --git a/lib/context_util.c b/lib/context_util.c
index aaf2ba1..065e27b 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -506,8 +506,10 @@ dc_set_value_type (struct disir_context *context, enum disir_value_type type)
     }
     default:
     {
-        dx_crash_and_burn ("%s: %s not handled", __func__, dc_context_type_string (context));
-        return DISIR_STATUS_INTERNAL_ERROR; // not reached
+        dx_context_error_set (context, "cannot set value type on %s",
+                                       dc_context_type_string (context));
+        status = DISIR_STATUS_WRONG_CONTEXT;
+        break;
     }
     }
 
-- 
2.43.0


From 52efc39c8821bf5858b984b222b52ffff97d6e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 016/103] fix: a string value was given out as an enum

---
 lib/context_value.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index 840acd2..39cb174 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -783,7 +783,10 @@ dc_get_value_enum (struct disir_context *context, const char **output, int32_t *
         goto out;
     }
 
-    status = dx_value_get_string (storage, output, size);
+    // An enum value is stored as a string, yet a string is not an enum
+    status = (storage->dv_type == DISIR_VALUE_TYPE_ENUM
+              ? dx_value_get_string (storage, output, size)
+              : DISIR_STATUS_WRONG_VALUE_TYPE);
     if (status == DISIR_STATUS_INVALID_ARGUMENT)
     {
         dx_context_error_set (context,
-- 
2.43.0


From 535b3050e8c7506795c6777b5a9a0f625609e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 017/103] fix: a destroyed context could still be marked with a
 fatal error

---
 lib/context_util.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/context_util.c b/lib/context_util.c
index 065e27b..8675b36 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -576,9 +576,18 @@ dc_fatal_error (struct disir_context *context, const char *msg, ...)
 enum disir_status
 dc_fatal_error_va (struct disir_context *context, const char *msg, va_list args)
 {
+    enum disir_status status;
+
     if (context == NULL || msg == NULL)
         return DISIR_STATUS_INVALID_ARGUMENT;
 
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        return status;
+    }
+
     // Cannot set fatal error on a finalized context.
     if (context->CONTEXT_STATE_FINALIZED)
         return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
-- 
2.43.0


From 456dcf07ebcd652abd1c81d78d65b1e5fee0defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 018/103] fix: a collection lost its place when contexts before
 it were destroyed

---
 lib/collection.c | 61 ++++++++++++------------------------------------
 1 file changed, 15 insertions(+), 46 deletions(-)

diff --git a/lib/collection.c b/lib/collection.c
index e1fd8a4..38cc094 100644
--- a/lib/collection.c
+++ b/lib/collection.c
@@ -124,10 +124,8 @@ dc_collection_reset (struct disir_collection *collection)
 enum disir_status
 dx_collection_coalesce (struct disir_collection *collection)
 {
-    struct disir_context *context;
     int32_t index;
-    int32_t probe;
-    int32_t invalid_entries_count;
+    int32_t kept;
     int32_t iterator_moveback;
 
     if (collection == NULL)
@@ -136,59 +134,30 @@ dx_collection_coalesce (struct disir_collection *collection)
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-    context = NULL;
-    index = 0;
-    probe = 1;
-    invalid_entries_count = 0;
+    // Keep the entries still alive, in order.
+    kept = 0;
     iterator_moveback = 0;
-    while (index < collection->cc_numentries)
+    for (index = 0; index < collection->cc_numentries; index++)
     {
-        context = collection->cc_collection[index];
-        index++;
-
-        if (context == NULL || context->CONTEXT_STATE_DESTROYED)
+        if (collection->cc_collection[index]->CONTEXT_STATE_DESTROYED)
         {
-            if (context != NULL)
-            {
-                dx_context_decref (&context);
-                invalid_entries_count += 1;
-                context = collection->cc_collection[index - 1] = NULL;
-            }
-
-            if (probe < index)
-                probe = index;
+            dx_context_decref (&collection->cc_collection[index]);
+            collection->cc_collection[index] = NULL;
 
-            // Find next non-valid entry in the collection, move it here.
-            while (probe < collection->cc_numentries)
+            // Every entry removed before the iterator moves it back.
+            if (index < collection->cc_iterator_index)
             {
-                if (collection->cc_collection[probe]->CONTEXT_STATE_DESTROYED == 0)
-                {
-                    context = collection->cc_collection[probe];
-                    collection->cc_collection[probe] = NULL;
-                    collection->cc_collection[index -1] = context;
-
-                    // Move iterator index if its affected.
-                    if (probe >= collection->cc_iterator_index &&
-                        (index -1) < collection->cc_iterator_index)
-                    {
-                        iterator_moveback  += 1;
-                    }
-                }
-
-                probe++;
-
-                if (context != NULL)
-                    break;
+                iterator_moveback += 1;
             }
+            continue;
         }
-    }
 
-    collection->cc_numentries -= invalid_entries_count;
+        collection->cc_collection[kept] = collection->cc_collection[index];
+        kept += 1;
+    }
 
-    // Take care of the iterator count post-iterate
+    collection->cc_numentries = kept;
     collection->cc_iterator_index -= iterator_moveback;
-    if (collection->cc_iterator_index < 0)
-        collection->cc_iterator_index = 0;
 
     return DISIR_STATUS_OK;
 }
-- 
2.43.0


From 0a972474bf15ee248dcb1223d14f88f49b8d9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:44 +0000
Subject: [PATCH 019/103] fix: updating a config lost the values of the user

Values kept by the user were missing in the updated config, as were entries he added
and everything behind the first section; a conflict in a section was resolved on the
top level. Long values were cut off, and an update without any conflict was thrown away
by import.
---
 lib/update.c | 237 ++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 214 insertions(+), 23 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index 7cf2c1b..4f41e13 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -14,6 +14,167 @@
 #include "mold.h"
 #include "update_private.h"
 
+//! STATIC FUNCTION
+//! Create one entry of the name of context in target_parent, holding its default content.
+static enum disir_status
+create_target_entry (struct disir_context *target_parent, struct disir_context *context,
+                     struct disir_version *target)
+{
+    enum disir_status status;
+    struct disir_context *created = NULL;
+    const char *name = NULL;
+    int32_t size = 0;
+
+    status = dc_get_name (context, &name, &size);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
+    status = dc_begin (target_parent, dc_context_type (context), &created);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
+    status = dc_set_name (created, name, size);
+    if (status == DISIR_STATUS_OK)
+    {
+        status = dc_context_type (created) == DISIR_CONTEXT_KEYVAL
+                    ? dc_keyval_set_default (created, target)
+                    : dc_generate_from_config_root (created);
+    }
+    if (status == DISIR_STATUS_OK)
+    {
+        status = dc_finalize (&created);
+    }
+    if (created)
+    {
+        dc_destroy (&created);
+    }
+
+    return status;
+}
+
+//! STATIC FUNCTION
+//! Give the target config an entry for each entry of the old one. An entry the target
+//! version does not have, or does not have room for, is left out.
+static enum disir_status
+ensure_target_entries (struct disir_context *parent, struct disir_context *target_parent,
+                       struct disir_version *target)
+{
+    enum disir_status status;
+    struct disir_collection *coll = NULL;
+    struct disir_collection *entries = NULL;
+    struct disir_context *context = NULL;
+    struct disir_context *entry = NULL;
+    struct disir_context *counterpart = NULL;
+    const char *name = NULL;
+    unsigned int index;
+
+    status = dc_get_elements (parent, &coll);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
+    while (dc_collection_next (coll, &context) == DISIR_STATUS_OK)
+    {
+        // Find the position of this entry among those of its name
+        index = 0;
+        dc_get_name (context, &name, NULL);
+        if (dc_find_elements (parent, name, &entries) == DISIR_STATUS_OK)
+        {
+            while (dc_collection_next (entries, &entry) == DISIR_STATUS_OK && entry != context)
+            {
+                dc_putcontext (&entry);
+                index++;
+            }
+            if (entry)
+                dc_putcontext (&entry);
+            dc_collection_finished (&entries);
+        }
+
+        status = dc_find_element (target_parent, name, index, &counterpart);
+        if (status == DISIR_STATUS_NOT_EXIST)
+        {
+            status = create_target_entry (target_parent, context, target);
+            if (status == DISIR_STATUS_OK)
+                status = dc_find_element (target_parent, name, index, &counterpart);
+        }
+        if (status == DISIR_STATUS_OK)
+        {
+            if (dc_context_type (context) == DISIR_CONTEXT_SECTION &&
+                dc_context_type (counterpart) == DISIR_CONTEXT_SECTION)
+            {
+                ensure_target_entries (context, counterpart, target);
+            }
+            dc_putcontext (&counterpart);
+        }
+
+        dc_putcontext (&context);
+    }
+
+    dc_collection_finished (&coll);
+    return DISIR_STATUS_OK;
+}
+
+//! STATIC FUNCTION
+//! The keyval of the target config in the same place as keyval is in the old one.
+static enum disir_status
+find_target_keyval (struct disir_update *update, struct disir_context *keyval,
+                    struct disir_context **output)
+{
+    enum disir_status status;
+    char *name = NULL;
+
+    status = dc_resolve_root_name (keyval, &name);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
+    status = dc_query_resolve_context (update->up_config_target->cf_context, "%s", output, name);
+    free (name);
+    if (status == DISIR_STATUS_OK && dc_context_type (*output) != DISIR_CONTEXT_KEYVAL)
+    {
+        dc_putcontext (output);
+        status = DISIR_STATUS_NOT_EXIST;
+    }
+
+    return status;
+}
+
+//! STATIC FUNCTION
+static enum disir_status
+set_value (struct disir_context *context, struct disir_value *value)
+{
+    switch (value->dv_type)
+    {
+    case DISIR_VALUE_TYPE_STRING:
+        return dc_set_value_string (context, value->dv_string, value->dv_size);
+    case DISIR_VALUE_TYPE_ENUM:
+        return dc_set_value_enum (context, value->dv_string, value->dv_size);
+    case DISIR_VALUE_TYPE_INTEGER:
+        return dc_set_value_integer (context, value->dv_integer);
+    case DISIR_VALUE_TYPE_FLOAT:
+        return dc_set_value_float (context, value->dv_float);
+    case DISIR_VALUE_TYPE_BOOLEAN:
+        return dc_set_value_boolean (context, value->dv_boolean);
+    default:
+        return DISIR_STATUS_WRONG_VALUE_TYPE;
+    }
+}
+
+//! STATIC FUNCTION
+//! Allocate the full text of value.
+static char *
+stringify_value (struct disir_value *value)
+{
+    char *output;
+    char small[4];
+    int32_t size = 0;
+
+    dx_value_stringify (value, sizeof (small), small, &size);
+    output = calloc (1, size + 1);
+    if (output)
+        dx_value_stringify (value, size + 1, output, &size);
+
+    return output;
+}
+
 //! STATIC FUNCTION
 static enum disir_status
 retrieve_all_keyvals_recursively (struct disir_context *current, struct disir_collection *keyvals)
@@ -63,6 +224,10 @@ retrieve_all_keyvals_recursively (struct disir_context *current, struct disir_co
     }
     while (1);
 
+    // Every element of this container is collected
+    if (status == DISIR_STATUS_EXHAUSTED)
+        status = DISIR_STATUS_OK;
+
     if (coll)
         dc_collection_finished (&coll);
     if (context)
@@ -131,10 +296,14 @@ disir_update_config (struct disir_config *config,
 
     up->up_config_target = config_at_target;
 
+    status = ensure_target_entries (config->cf_context, config_at_target->cf_context, target);
+    if (status != DISIR_STATUS_OK)
+        goto error;
+
     up->up_collection = dc_collection_create();
 
     status = retrieve_all_keyvals_recursively (config->cf_context, up->up_collection);
-    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_EXHAUSTED)
+    if (status != DISIR_STATUS_OK)
         goto error;
 
     up->up_config_old = config;
@@ -155,7 +324,7 @@ disir_update_continue (struct disir_update *update)
     struct disir_keyval *keyval;
     struct disir_default *config_def;
     struct disir_default *target_def;
-    int32_t size;
+    struct disir_context *target_keyval = NULL;
     int res;
 
     config_keyval = NULL;
@@ -180,6 +349,10 @@ disir_update_continue (struct disir_update *update)
         {
             dc_putcontext (&config_keyval);
         }
+        if (target_keyval)
+        {
+            dc_putcontext (&target_keyval);
+        }
 
         status = dc_collection_next (update->up_collection, &config_keyval);
         if (status != DISIR_STATUS_OK)
@@ -188,6 +361,13 @@ disir_update_continue (struct disir_update *update)
         update->up_context_keyval = config_keyval;
         keyval = config_keyval->cx_keyval;
 
+        // There is no place for this entry in the target version
+        if (keyval->kv_mold_equiv == NULL ||
+            find_target_keyval (update, config_keyval, &target_keyval) != DISIR_STATUS_OK)
+        {
+            continue;
+        }
+
         // Get keyval default of target version - if version is less or equal to current
         // Do nothing
         dx_default_get_active (keyval->kv_mold_equiv, &update->up_target, &target_def);
@@ -195,14 +375,14 @@ disir_update_continue (struct disir_update *update)
                                   &update->up_config_old->cf_version);
         if (res <= 0)
         {
-            // Do nothing - mold default value for target is older or equal to config version
-            continue;
+            // Mold default value for target is older or equal to config version:
+            // the config value is kept, unless the target version does not allow it
+            if (set_value (target_keyval, &keyval->kv_value) == DISIR_STATUS_OK)
+                continue;
         }
-        // We might get lucky and have the current config value equal the target default value
-        res = dx_value_compare (&keyval->kv_value, &target_def->de_value);
-        if (res == 0)
+        else if (dx_value_compare (&keyval->kv_value, &target_def->de_value) == 0)
         {
-            // Phew - Lucky,
+            // We got lucky: the current config value equals the target default value
             // TODO: Add update report entry
             continue;
         }
@@ -212,8 +392,7 @@ disir_update_continue (struct disir_update *update)
         //  * Conflict if default at config version differ from entry in config
         dx_default_get_active (keyval->kv_mold_equiv, &update->up_config_old->cf_version,
                                &config_def);
-        res = dx_value_compare (&keyval->kv_value, &config_def->de_value);
-        if (res == 0)
+        if (res > 0 && dx_value_compare (&keyval->kv_value, &config_def->de_value) == 0)
         {
             // Config has not changed since its last update value.
             // We can safely update the stored value in config with new default
@@ -228,13 +407,10 @@ disir_update_continue (struct disir_update *update)
             // from config default. Manual resolution is in order.
             update->up_keyval = keyval;
 
-            update->up_config_value = malloc (512); // XXX Handle allocation better
-            dx_value_stringify (&keyval->kv_value, 512, update->up_config_value, &size);
-            // XXX Handle buffer overflow / insufficient buffer
+            update->up_config_value = stringify_value (&keyval->kv_value);
+            update->up_mold_value = stringify_value (&target_def->de_value);
 
-            update->up_mold_value = malloc (512); // XXX: Handle allocation better
-            dx_value_stringify (&target_def->de_value, 512, update->up_mold_value, &size);
-            // XXX Handle buffer overflow / insufficient buffer
+            dc_putcontext (&target_keyval);
 
             // Signal that manual resolution is required.
             return DISIR_STATUS_CONFLICT;
@@ -284,9 +460,10 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
 {
     enum disir_status status;
     struct disir_context *context_keyval = NULL;
+    struct disir_default *target_def;
 
     TRACE_ENTER ("");
-    if (update == NULL)
+    if (update == NULL || resolve == NULL)
     {
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
@@ -297,12 +474,24 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
         return DISIR_STATUS_NO_CAN_DO;
     }
 
-    status = dc_query_resolve_context (update->up_config_target->cf_context,
-                                       update->up_keyval->kv_name.dv_string, &context_keyval);
+    status = find_target_keyval (update, update->up_context_keyval, &context_keyval);
     if (status != DISIR_STATUS_OK)
         goto out;
 
-    status = dc_set_value (context_keyval, resolve, strlen (resolve));
+    // Either of the two values presented is taken as it is, and not as it was printed.
+    if (update->up_config_value && strcmp (resolve, update->up_config_value) == 0)
+    {
+        status = set_value (context_keyval, &update->up_keyval->kv_value);
+    }
+    else if (update->up_mold_value && strcmp (resolve, update->up_mold_value) == 0)
+    {
+        dx_default_get_active (update->up_keyval->kv_mold_equiv, &update->up_target, &target_def);
+        status = set_value (context_keyval, &target_def->de_value);
+    }
+    else
+    {
+        status = dc_set_value (context_keyval, resolve, strlen (resolve));
+    }
     if (status != DISIR_STATUS_OK)
         goto out;
 
@@ -380,7 +569,7 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
     const char *mold;
 
     status = disir_update_config (*config, &(*config)->cf_mold->mo_version, &update);
-    if (status != DISIR_STATUS_CONFLICT)
+    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_CONFLICT)
         goto error;
 
     do
@@ -398,7 +587,7 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
         {
             status = disir_update_resolve (update, mold);
         }
-        else if (status != DISIR_STATUS_OK)
+        if (status != DISIR_STATUS_OK)
         {
             goto error;
         }
@@ -407,7 +596,9 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
 
     }
     while (1);
-   
+    if (status != DISIR_STATUS_OK)
+        goto error;
+
     c = *config;
 
     disir_update_finished (&update, config);
-- 
2.43.0


From f4d2cd7203c1ae1025254f5fb7d2b07eb1f8b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:11 +0000
Subject: [PATCH 020/103] fix: a refused config update leaked the config
 generated for it

---
 lib/update.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index 4f41e13..7b39389 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -242,7 +242,7 @@ disir_update_config (struct disir_config *config,
                      struct disir_version *target, struct disir_update **update)
 {
     enum disir_status status;
-    struct disir_config *config_at_target;
+    struct disir_config *config_at_target = NULL;
     int res;
     char buffer[512];
     struct disir_update *up;
@@ -288,14 +288,14 @@ disir_update_config (struct disir_config *config,
     }
 
     status = disir_generate_config_from_mold (config->cf_mold, target, &config_at_target);
+    // An invalid config is handed out as well
+    up->up_config_target = config_at_target;
     if (status != DISIR_STATUS_OK)
     {
         log_error ("failed to generate config from mold\n");
-        goto error;;
+        goto error;
     }
 
-    up->up_config_target = config_at_target;
-
     status = ensure_target_entries (config->cf_context, config_at_target->cf_context, target);
     if (status != DISIR_STATUS_OK)
         goto error;
-- 
2.43.0


From d8b24b77f555cdcfdcd244ebbc6dfa55fd2eb1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 021/103] fix: comparing molds looked at the first restriction
 only

---
 lib/compare.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/compare.c b/lib/compare.c
index be1d66d..fcabacf 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -341,15 +341,16 @@ compare_restriction_queue (struct disir_restriction *lhs, struct disir_restricti
     if (lhs->re_value_numeric != rhs->re_value_numeric
         || lhs->re_value_min != rhs->re_value_min
         || lhs->re_value_max != rhs->re_value_max
+        || (lhs->re_value_string == NULL) != (rhs->re_value_string == NULL)
         || (lhs->re_value_string != NULL
-            && rhs->re_value_string != NULL
             && strcmp (lhs->re_value_string, rhs->re_value_string) != 0))
     {
         dx_diff_report_add (report, "Restriction values differ... (printout NYI)");
         return DISIR_STATUS_OK;
     }
 
-    return DISIR_STATUS_OK;
+    // recurse to next entry
+    return compare_restriction_queue (lhs->next, rhs->next, report);
 }
 
 //! STATIC FUNCTION
-- 
2.43.0


From ae1a325413c412a8e1dd9eeb27a2448e360d10c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 022/103] fix: comparison named the container of an element in
 place of the element

---
 lib/compare.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/compare.c b/lib/compare.c
index fcabacf..47e9eee 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -380,7 +380,7 @@ compare_all_in_name (struct disir_context *lhs, struct disir_context *rhs, const
         if (status == DISIR_STATUS_NOT_EXIST)
         {
             log_debug (3, "rhs does not contain name entry: %s", name);
-            dx_diff_report_add (report, "%s not found in rhs.", dx_context_name (lhs));
+            dx_diff_report_add (report, "%s not found in rhs.", name);
             status = DISIR_STATUS_OK;
         }
         goto out;
@@ -409,7 +409,7 @@ compare_all_in_name (struct disir_context *lhs, struct disir_context *rhs, const
         if (status == DISIR_STATUS_EXHAUSTED)
         {
             status = DISIR_STATUS_OK;
-            dx_diff_report_add (report, "%s contains extra entry.", dx_context_name (lhs));
+            dx_diff_report_add (report, "%s contains extra entry.", name);
             dc_putcontext (&lhs_entry);
             continue;
         }
@@ -441,7 +441,7 @@ compare_all_in_name (struct disir_context *lhs, struct disir_context *rhs, const
         if (status == DISIR_STATUS_OK)
         {
             // TODO: Report value - stringify?
-            dx_diff_report_add (report, "%s missing entry.", dx_context_name (lhs));
+            dx_diff_report_add (report, "%s missing entry.", name);
 
             dc_putcontext (&rhs_entry);
             continue;
-- 
2.43.0


From 6b4c26bef1206ca91081657e548b24e57686755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 023/103] fix: comparing a destroyed context crashed

---
 lib/compare.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/compare.c b/lib/compare.c
index 47e9eee..d282e45 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -41,7 +41,7 @@ dx_diff_report_create (void)
 
     report = calloc(1, sizeof (struct disir_diff_report));
     if (report == NULL)
-        goto error;
+        return NULL;
 
     report->dr_internal_allocated = 20;
     report->dr_entries = 0;
@@ -801,10 +801,23 @@ dc_compare (struct disir_context *lhs, struct disir_context *rhs,
 
     if (lhs == NULL || rhs == NULL)
     {
-        log_debug (0, "invoked with NULL pointer(s). (lhs %p, rhs %p)");
+        log_debug (0, "invoked with NULL pointer(s). (lhs %p, rhs %p)", lhs, rhs);
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (lhs);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        return status;
+    }
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (rhs);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        return status;
+    }
+
     internal_report = dx_diff_report_create ();
     if (internal_report == NULL)
     {
-- 
2.43.0


From 6283897d18e4a3504066f1711317f49cf77a6d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:28 +0000
Subject: [PATCH 024/103] fix: documentation added in one call was leaked

---
 lib/context_documentation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index b14d3e0..a653494 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -182,7 +182,7 @@ dc_add_documentation (struct disir_context *parent, const char *doc, int32_t doc
         return status;
     }
 
-    status = dx_documentation_finalize (context);
+    status = dc_finalize (&context);
     if (status != DISIR_STATUS_OK)
     {
         dx_context_transfer_logwarn (parent, context);
-- 
2.43.0


From 1a43211b08fc668b0d29a0c3f2337a514b0afa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:28 +0000
Subject: [PATCH 025/103] fix: documentation of a config aborted and that of
 its elements was not found

---
 lib/context_documentation.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index a653494..0514d49 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -222,6 +222,29 @@ dc_get_documentation (struct disir_context *context, struct disir_version *versi
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
+    // The elements of a config are documented by their mold equivalent
+    if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
+    {
+        switch (dc_context_type (context))
+        {
+        case DISIR_CONTEXT_KEYVAL:
+            context = context->cx_keyval->kv_mold_equiv;
+            break;
+        case DISIR_CONTEXT_SECTION:
+            context = context->cx_section->se_mold_equiv;
+            break;
+        case DISIR_CONTEXT_CONFIG:
+            context = context->cx_config->cf_mold->mo_context;
+            break;
+        default:
+            break;
+        }
+        if (context == NULL)
+        {
+            return DISIR_STATUS_MOLD_MISSING;
+        }
+    }
+
     switch (dc_context_type (context))
     {
     case DISIR_CONTEXT_KEYVAL:
-- 
2.43.0


From 542473fd38733556780ab8786bc8e026a7bef6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:28 +0000
Subject: [PATCH 026/103] fix: finalizing a refused default again corrupted the
 defaults of the keyval

---
 lib/context_default.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/context_default.c b/lib/context_default.c
index 3b4647a..cc67e69 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -109,7 +109,15 @@ dx_default_finalize (struct disir_context *default_context)
     MQ_ENQUEUE_CONDITIONAL (*queue, def,
         (dc_version_compare (&entry->de_introduced, &def->de_introduced) > 0));
 
-    return dx_validate_context (default_context);
+    status = dx_validate_context (default_context);
+    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
+    {
+        // It stays under construction, and is not part of the keyval.
+        MQ_REMOVE (*queue, def);
+        default_context->CONTEXT_STATE_IN_PARENT = 0;
+    }
+
+    return status;
 }
 
 //! INTERNAL API
-- 
2.43.0


From aef9e08a1e4255551ed9a12a48ca59816623c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 027/103] fix: adding an enum restriction where none can be
 used an unset context

---
 lib/context_restriction.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 5b86aa5..45e5b6d 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -875,7 +875,7 @@ dc_add_restriction_value_enum (struct disir_context *parent, const char *value,
     if (status != DISIR_STATUS_OK)
     {
         // Already logged ?
-        goto error;
+        return status;
     }
 
     status = dc_set_restriction_type (context_restriction, DISIR_RESTRICTION_EXC_VALUE_ENUM);
-- 
2.43.0


From 94ce6678d6683502ef3a9bca085ddd98096419eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 028/103] fix: listing the restrictions of an element without a
 mold crashed

---
 lib/context_restriction.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 45e5b6d..b791c85 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1487,6 +1487,14 @@ dc_restriction_collection (struct disir_context *context, struct disir_collectio
         return status;
     }
 
+    // The restrictions of a config element are those of its mold equivalent
+    if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG &&
+        (dc_context_type (context) == DISIR_CONTEXT_SECTION
+         ? context->cx_section->se_mold_equiv : context->cx_keyval->kv_mold_equiv) == NULL)
+    {
+        return DISIR_STATUS_MOLD_MISSING;
+    }
+
     // Get inclusive queue from context
     switch (dc_context_type (context))
     {
-- 
2.43.0


From de891dfd8bece512252190afa797dbae95545d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:42 +0000
Subject: [PATCH 029/103] fix: the value type of a destroyed context was read
 from freed memory

---
 lib/context_util.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/context_util.c b/lib/context_util.c
index 8675b36..41dc2df 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -87,6 +87,12 @@ dc_value_type (struct disir_context *context)
     value_type = DISIR_VALUE_TYPE_UNKNOWN;
     context_type = dc_context_type (context);
 
+    // What held the value of a destroyed context is gone.
+    if (context->CONTEXT_STATE_DESTROYED)
+    {
+        return DISIR_VALUE_TYPE_UNKNOWN;
+    }
+
     if (context_type == DISIR_CONTEXT_DEFAULT)
         value_type = context->cx_default->de_value.dv_type;
     else if (context_type == DISIR_CONTEXT_KEYVAL)
-- 
2.43.0


From 366ed7ca325386f787abcd6d130ffb5b4f169d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:40 +0000
Subject: [PATCH 030/103] fix: copying an error message overflowed small
 buffers and reported stale bytes

---
 lib/error.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/lib/error.c b/lib/error.c
index 62e59e0..a2d8a98 100644
--- a/lib/error.c
+++ b/lib/error.c
@@ -70,12 +70,12 @@ disir_error_copy (struct disir_instance *instance,
 
     status = DISIR_STATUS_OK;
 
-    if (buffer_size < 4)
+    // The storage may be larger than the message it currently holds.
+    size = 0;
+    if (instance->disir_error_message)
     {
-        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+        size = strlen (instance->disir_error_message);
     }
-
-    size = instance->disir_error_message_size;
     if (bytes_written)
     {
         // Write the total size of the error message
@@ -83,16 +83,29 @@ disir_error_copy (struct disir_instance *instance,
         // buffer will be filled with partial error message
         *bytes_written = size;
     }
+
+    if (buffer_size < 4)
+    {
+        if (buffer_size > 0)
+        {
+            buffer[0] = '\0';
+        }
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+    }
     if (buffer_size <= size)
     {
-        size -= 4;
+        // Leave room for the trailing dots and the NUL terminator.
+        size = buffer_size - 4;
         status = DISIR_STATUS_INSUFFICIENT_RESOURCES;
     }
 
-    memcpy (buffer, instance->disir_error_message, size);
+    if (size > 0)
+    {
+        memcpy (buffer, instance->disir_error_message, size);
+    }
     if (status == DISIR_STATUS_INSUFFICIENT_RESOURCES)
     {
-        sprintf (buffer + size, "...");
+        memcpy (buffer + size, "...", 3);
         size += 3;
     }
     buffer[size] = '\0';
-- 
2.43.0


From eeda93aeeaa7196cb9c6549e8c8f483fc927f7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:40 +0000
Subject: [PATCH 031/103] fix: an error message that quotes the one it replaces
 was read from freed memory

---
 lib/log.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/log.c b/lib/log.c
index 9db4576..d79d7f7 100644
--- a/lib/log.c
+++ b/lib/log.c
@@ -214,6 +214,7 @@ dx_internal_log_to_storage (char **error_message, int32_t *error_message_size,
     int message_size;
     int res;
     char dummy[4];
+    char *message;
     va_list args_copy;
 
     // Make two instances of variadic arguments list
@@ -234,21 +235,22 @@ dx_internal_log_to_storage (char **error_message, int32_t *error_message_size,
     }
 
     // Allocate sufficiently large buffer, write message
-    if (*error_message_size < message_size + 1)
+    // The arguments may refer to the message currently stored: write the new one next to it.
+    message = malloc (message_size + 1);
+    if (message == NULL)
     {
-        *error_message = realloc (*error_message, message_size + 1);
-        if (*error_message == NULL)
-        {
-            // What should we do!? Throw a tantrum!?
-            return;
-        }
-        *error_message_size = message_size + 1;
+        // What should we do!? Throw a tantrum!?
+        return;
     }
 
-    res = vsnprintf (*error_message, message_size + 1, fmt_message, args);
+    res = vsnprintf (message, message_size + 1, fmt_message, args);
 
     // Put a null terminator to it.
-    (*error_message)[message_size] = '\0';
+    message[message_size] = '\0';
+
+    free (*error_message);
+    *error_message = message;
+    *error_message_size = message_size + 1;
 
     if (res < 0 || res > message_size)
     {
-- 
2.43.0


From 4299e817ca507d506d620096ad72fe5e2ff8bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:10 +0000
Subject: [PATCH 032/103] fix: version strings with signs, blanks or numbers
 out of range were accepted as other versions

---
 lib/util.c | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 5190454..ff999b8 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -117,13 +117,35 @@ dc_version_set (struct disir_version *destination, struct disir_version *source)
     destination->sv_minor = source->sv_minor;
 }
 
+//! STATIC API
+//! Parse a number made of decimal digits only. Signs and blanks are not part of a version number.
+static int
+parse_version_number (const char *input, const char **end, unsigned int *output)
+{
+    unsigned long long number;
+
+    number = 0;
+    *end = input;
+    while (**end >= '0' && **end <= '9')
+    {
+        number = number * 10 + (**end - '0');
+        if (number > UINT_MAX)
+        {
+            return 0;
+        }
+        *end += 1;
+    }
+    *output = number;
+
+    return *end != input;
+}
+
 //! PUBLIC API
 enum disir_status
 dc_version_convert (const char *input, struct disir_version *version)
 {
-    long int parsed_integer;
-    char *endptr;
-    const char *start;
+    unsigned int parsed_integer;
+    const char *endptr;
 
     if (input == NULL || version == NULL)
     {
@@ -134,9 +156,7 @@ dc_version_convert (const char *input, struct disir_version *version)
     log_debug (3, "Converting version input: %s", input);
 
     // Get Major version
-    start = input;
-    parsed_integer = strtol (start, &endptr, 10);
-    if (start == endptr)
+    if (parse_version_number (input, &endptr, &parsed_integer) == 0)
     {
         log_debug (6, "no int parsed");
         return DISIR_STATUS_INVALID_ARGUMENT;
@@ -149,10 +169,7 @@ dc_version_convert (const char *input, struct disir_version *version)
     version->sv_major = parsed_integer;
 
     // Get minor version
-    endptr++;
-    start = endptr;
-    parsed_integer = strtol (start, &endptr, 10);
-    if (start == endptr)
+    if (parse_version_number (endptr + 1, &endptr, &parsed_integer) == 0)
     {
         log_debug (6, "no int parsed");
         return DISIR_STATUS_INVALID_ARGUMENT;
-- 
2.43.0


From a025c846be5599f9e38f0b494d1ea5d9f5fe8e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:56 +0000
Subject: [PATCH 033/103] fix: printing a version into a buffer of negative
 size wrote past it

---
 lib/util.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/util.c b/lib/util.c
index ff999b8..d8dcaac 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -70,6 +70,10 @@ dc_version_string (char *buffer, int32_t buffer_size, struct disir_version *vers
                   __func__, buffer, version);
         return NULL;
     }
+    if (buffer_size <= 0)
+    {
+        return NULL;
+    }
 
     res = snprintf (buffer, buffer_size,
             "%u.%u", version->sv_major, version->sv_minor);
-- 
2.43.0


From a1301abd06c168fd0b607c383c90f4cedcd5ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:17 +0000
Subject: [PATCH 034/103] fix: creating an instance without a configuration
 leaked a context

---
 lib/disir.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/disir.c b/lib/disir.c
index 6f40b26..685f4ea 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -257,12 +257,15 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
         status = disir_generate_config_from_mold (libmold, NULL, &libconf);
 
         // Remove the plugin element from default generated config
+        struct disir_context *root;
         struct disir_context *plugin;
-        status = dc_find_element (dc_config_getcontext (libconf), "plugin", 0, &plugin);
+        root = dc_config_getcontext (libconf);
+        status = dc_find_element (root, "plugin", 0, &plugin);
         if (status == DISIR_STATUS_OK)
         {
             dc_destroy (&plugin);
         }
+        dc_putcontext (&root);
     }
     // We do not need the libmold definition anymore
     if (libmold)
-- 
2.43.0


From 0f773c52809d1f1ea08d735bd4b738b41713cbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 035/103] fix: floating point values written as JSON lost their
 last digits

---
 3rdparty/jsoncpp/jsoncpp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index 114d2b2..ff62d5d 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -4429,7 +4429,12 @@ JSONCPP_STRING valueToString(double value, bool useSpecialFloats, unsigned int p
 }
 }
 
-JSONCPP_STRING valueToString(double value) { return valueToString(value, false, 16); }
+JSONCPP_STRING valueToString(double value) {
+  // 16 digits where they are enough to read the same value back.
+  char buffer[32];
+  snprintf(buffer, sizeof(buffer), "%.16g", value);
+  return valueToString(value, false, strtod(buffer, NULL) == value ? 16 : 17);
+}
 
 JSONCPP_STRING valueToString(bool value) { return value ? "true" : "false"; }
 
-- 
2.43.0


From 858147e22990c5244d165ec6a94095b233074054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 036/103] fix: integers above 2147483647 in JSON documents were
 refused

---
 3rdparty/jsoncpp/jsoncpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index ff62d5d..b573478 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -785,7 +785,7 @@ bool Reader::decodeNumber(Token& token, Value& decoded) {
     decoded = Value::minLargestInt;
   else if (isNegative)
     decoded = -Value::LargestInt(value);
-  else if (value <= Value::LargestUInt(Value::maxInt))
+  else if (value <= Value::LargestUInt(Value::maxLargestInt))
     decoded = Value::LargestInt(value);
   else
     decoded = value;
-- 
2.43.0


From 1bca9a6bb1309b220458d0ca1f40b36e2a98df43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 037/103] fix: writing a config with a string value never set
 failed

---
 lib/fslib/json/json_serialize_config.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/json/json_serialize_config.cc b/lib/fslib/json/json_serialize_config.cc
index dff6220..cf50bcc 100644
--- a/lib/fslib/json/json_serialize_config.cc
+++ b/lib/fslib/json/json_serialize_config.cc
@@ -229,7 +229,7 @@ ConfigWriter::set_keyval (struct disir_context *context, std::string name, Json:
                 goto error;
             }
 
-            keyval = stringval;
+            keyval = stringval ? stringval : "";
             break;
         case DISIR_VALUE_TYPE_INTEGER:
             status = dc_get_value_integer (context, &intval);
@@ -264,7 +264,7 @@ ConfigWriter::set_keyval (struct disir_context *context, std::string name, Json:
             {
                 goto error;
             }
-            keyval = stringval;
+            keyval = stringval ? stringval : "";
             break;
         case DISIR_VALUE_TYPE_UNKNOWN:
             // If type is not know, we mark it
-- 
2.43.0


From 574971fc8fb65252b4b293ec329e26b8404de010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 038/103] fix: a section that could not be written leaked its
 context

---
 lib/fslib/json/json_serialize_config.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fslib/json/json_serialize_config.cc b/lib/fslib/json/json_serialize_config.cc
index cf50bcc..3cb7bda 100644
--- a/lib/fslib/json/json_serialize_config.cc
+++ b/lib/fslib/json/json_serialize_config.cc
@@ -344,7 +344,7 @@ ConfigWriter::_serialize_context (struct disir_context *parent_context, Json::Va
                 if (status != DISIR_STATUS_OK)
                 {
                     // logged
-                    return status;
+                    goto end;
                 }
                 break;
             case DISIR_CONTEXT_KEYVAL:
-- 
2.43.0


From 8ad6c15c24c2f28d508fecf0f6b7598c6aa80528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 039/103] fix: a JSON document that is not an object leaked the
 config being read

---
 lib/fslib/json/json_unserialize_config.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/fslib/json/json_unserialize_config.cc b/lib/fslib/json/json_unserialize_config.cc
index 6df5a56..e644029 100644
--- a/lib/fslib/json/json_unserialize_config.cc
+++ b/lib/fslib/json/json_unserialize_config.cc
@@ -74,6 +74,12 @@ ConfigReader::construct_config (Json::Value& root, struct disir_config **config)
         goto error;
     }
 
+    if (root.isObject () == false)
+    {
+        dc_fatal_error (context_config, "config document is not an object");
+        goto finalize;
+    }
+
     status = set_config_version (context_config, root[VERSION]);
     if (status != DISIR_STATUS_OK && status == DISIR_STATUS_INVALID_CONTEXT)
     {
-- 
2.43.0


From 95540304948637d7f9df48b71ff7263abb0d26c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 040/103] fix: refusing a JSON config leaked the section being
 read

---
 lib/fslib/json/json_unserialize_config.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/json/json_unserialize_config.cc b/lib/fslib/json/json_unserialize_config.cc
index e644029..95a83d6 100644
--- a/lib/fslib/json/json_unserialize_config.cc
+++ b/lib/fslib/json/json_unserialize_config.cc
@@ -275,7 +275,7 @@ ConfigReader::unserialize_type (struct disir_context *context, Json::Value& valu
         if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
         {
             // logged
-            return status;
+            goto error;
         }
 
         status = dc_finalize (&child_context);
@@ -285,6 +285,7 @@ ConfigReader::unserialize_type (struct disir_context *context, Json::Value& valu
             // Reeling us in by only loggin the error
             disir_log_user (m_disir, "Could not finalize context: %s",
                                      disir_status_string (status));
+            goto error;
         }
 
         // If context is invalid we need to
-- 
2.43.0


From 628ba627c00d8a21ac66de192e70f3a1f856dcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:00 +0000
Subject: [PATCH 041/103] fix: TOML parse errors were used as a format string

---
 lib/fslib/toml/toml_unserialize.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index 3d62845..33652c3 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -254,7 +254,7 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
     if (pr.valid() == false)
     {
         disir_log_user (instance, "TOML: Parse error: %s", pr.errorReason.c_str());
-        disir_error_set (instance, pr.errorReason.c_str());
+        disir_error_set (instance, "%s", pr.errorReason.c_str());
         // XXX: Revise error code
         return DISIR_STATUS_FS_ERROR;
     }
-- 
2.43.0


From 9f019d447d232fe961146ecafb2741d0c3093bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:00 +0000
Subject: [PATCH 042/103] fix: logging a TOML key without a value read a
 missing argument

---
 lib/fslib/toml/toml_unserialize.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index 33652c3..ecfebcb 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -189,7 +189,7 @@ dio_toml_unserialize_all (struct disir_instance *instance, const char *key,
     {
     case toml::Value::NULL_TYPE:
     {
-        disir_log_user (instance, "TOML: Key '%s' of NULL type. Cannot reasonably handle.");
+        disir_log_user (instance, "TOML: Key '%s' of NULL type. Cannot reasonably handle.", key);
         status = DISIR_STATUS_INTERNAL_ERROR;
         break;
     }
-- 
2.43.0


From 271e2cd4ce225e7928918a2f2d5ab15d022d10e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:00 +0000
Subject: [PATCH 043/103] fix: a TOML config with a malformed version took an
 undefined one

---
 lib/fslib/toml/toml_unserialize.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index ecfebcb..945a97c 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -291,6 +291,8 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
                 disir_error_set (instance, "TOML: Malformed %s string '%s'.",
                                            ATTRIBUTE_KEY_DISIR_CONFIG_VERSION,
                                            version->as<std::string>().c_str ());
+                dc_destroy (&context_config);
+                return status;
             }
             status = dc_set_version (context_config, &config_version);
             if (status != DISIR_STATUS_OK)
-- 
2.43.0


From 7da396b170dd1a41f4c1517e8b07c07250257afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:00 +0000
Subject: [PATCH 044/103] fix: a TOML config of a version its mold does not
 know was read

---
 lib/fslib/toml/toml_unserialize.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index 945a97c..774ccb7 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -297,9 +297,11 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
             status = dc_set_version (context_config, &config_version);
             if (status != DISIR_STATUS_OK)
             {
-                // TODO. Determine how to handle this situvation.
-                disir_log_user (instance, "TOML: Failed to set version on CONTEXT_CONFIG: %s",
-                                          disir_status_string (status));
+                disir_error_set (instance, "TOML: Version '%s' not accepted: %s",
+                                           version->as<std::string>().c_str (),
+                                           disir_status_string (status));
+                dc_destroy (&context_config);
+                return status;
             }
         }
 
-- 
2.43.0


From f32c0faff15c746272c96af67e51dc48d6794cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:00 +0000
Subject: [PATCH 045/103] fix: reading invalid elements from TOML leaked their
 contexts

---
 lib/fslib/toml/toml_unserialize.cc | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index 774ccb7..f87a910 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -133,7 +133,18 @@ dio_toml_unserialize_primitive (struct disir_instance *instance, const char *key
         goto error;
     }
 
-    return dc_finalize (&context);
+    status = dc_finalize (&context);
+    if (status == DISIR_STATUS_INVALID_CONTEXT)
+    {
+        // The invalid element is kept by its parent
+        dc_putcontext (&context);
+        return status;
+    }
+    if (status == DISIR_STATUS_OK)
+    {
+        return status;
+    }
+    // FALL-THROUGH
 error:
 
     dc_destroy (&context);
@@ -172,7 +183,18 @@ dio_toml_unserialize_table (struct disir_instance *instance, const char *key,
         goto error;
     }
 
-    return dc_finalize (&context);
+    status = dc_finalize (&context);
+    if (status == DISIR_STATUS_INVALID_CONTEXT)
+    {
+        // The invalid element is kept by its parent
+        dc_putcontext (&context);
+        return status;
+    }
+    if (status == DISIR_STATUS_OK)
+    {
+        return status;
+    }
+    // FALL-THROUGH
 error:
 
     dc_destroy (&context);
-- 
2.43.0


From 3f392d8b01a6ce41aced779c0b4accf06896b1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:00 +0000
Subject: [PATCH 046/103] fix: quoted TOML keys were parsed as dotted names

---
 3rdparty/tinytoml/toml.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index c1c0f28..b38b721 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -1770,7 +1770,7 @@ inline bool Parser::parseKeyValue(Value* current)
     if (!consumeEOLorEOFForKey())
         return false;
 
-    if (current->has(key)) {
+    if (current->findChild(key) != nullptr) {
         addError("Multiple same key: " + key);
         return false;
     }
@@ -1915,12 +1915,12 @@ inline bool Parser::parseInlineTable(Value* value)
         if (!parseValue(&v))
             return false;
 
-        if (t.has(key)) {
+        if (t.findChild(key) != nullptr) {
             addError("inline table has multiple same keys: key=" + key);
             return false;
         }
 
-        t.set(key, v);
+        t.setChild(key, std::move(v));
     }
 
     if (!consumeForValue(TokenType::RBRACE))
-- 
2.43.0


From f1c0b85dff3592a91c9f0c6c66f21e7c170d10dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:00 +0000
Subject: [PATCH 047/103] fix: numbers TOML cannot represent were read as
 another value

---
 3rdparty/tinytoml/toml.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index b38b721..35d05db 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -815,6 +815,8 @@ inline Token Lexer::nextValue()
         std::stringstream ss(removeDelimiter(s));
         std::int64_t x;
         ss >> x;
+        if (ss.fail())
+            return Token(TokenType::ERROR, std::string("Invalid integer: ") + s);
         return Token(TokenType::INT, x);
     }
 
@@ -822,6 +824,8 @@ inline Token Lexer::nextValue()
         std::stringstream ss(removeDelimiter(s));
         double d;
         ss >> d;
+        if (ss.fail())
+            return Token(TokenType::ERROR, std::string("Invalid float: ") + s);
         return Token(TokenType::DOUBLE, d);
     }
 
-- 
2.43.0


From 9d796c5932c9d3bff4adc61a6c2f53fe7bf16e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:00 +0000
Subject: [PATCH 048/103] fix: deeply nested TOML overflowed the stack

---
 3rdparty/tinytoml/toml.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 35d05db..87d63af 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -366,6 +366,9 @@ private:
     Lexer lexer_;
     Token token_;
     std::string errorReason_;
+    // Levels of nesting entered by parseValue.
+    int depth_ = 0;
+    static const int maxDepth_ = 1000;
 };
 
 class Writer {
@@ -1696,7 +1699,13 @@ inline Value* Parser::parseGroupKey(Value* root)
     }
 
     Value* currentValue = root;
+    int depth = 0;
     while (true) {
+        if (++depth > maxDepth_) {
+            addError("nested too deep");
+            return nullptr;
+        }
+
         if (token().type() != TokenType::IDENT && token().type() != TokenType::STRING)
             return nullptr;
 
@@ -1805,9 +1814,16 @@ inline bool Parser::parseValue(Value* v)
         nextValue();
         return true;
     case TokenType::LBRACKET:
-        return parseArray(v);
-    case TokenType::LBRACE:
-        return parseInlineTable(v);
+    case TokenType::LBRACE: {
+        if (depth_ == maxDepth_) {
+            addError("nested too deep");
+            return false;
+        }
+        ++depth_;
+        bool ok = token().type() == TokenType::LBRACKET ? parseArray(v) : parseInlineTable(v);
+        --depth_;
+        return ok;
+    }
     case TokenType::BOOL:
         *v = token().boolValue();
         nextValue();
-- 
2.43.0


From 339ad3a1e189b2051a3a4b717c639d280927e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 049/103] fix: writing TOML leaked the config and ignored
 elements it could not write

---
 lib/fslib/toml/toml_serialize.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fslib/toml/toml_serialize.cc b/lib/fslib/toml/toml_serialize.cc
index 82e1238..0ab0076 100644
--- a/lib/fslib/toml/toml_serialize.cc
+++ b/lib/fslib/toml/toml_serialize.cc
@@ -302,6 +302,11 @@ dio_toml_serialize_config (struct disir_instance *instance,
 
     // Mjes
     status = toml_serialize_elements (context_config, current);
+    dc_putcontext (&context_config);
+    if (status != DISIR_STATUS_OK)
+    {
+        return status;
+    }
 
     boost::fdostream file(fileno(output));
     root.write (&file);
-- 
2.43.0


From b6de8f9ffa99d578f9e322056bf768b1b3da7951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 050/103] fix: writing TOML with a string value never set
 crashed

---
 lib/fslib/toml/toml_serialize.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fslib/toml/toml_serialize.cc b/lib/fslib/toml/toml_serialize.cc
index 0ab0076..b27539d 100644
--- a/lib/fslib/toml/toml_serialize.cc
+++ b/lib/fslib/toml/toml_serialize.cc
@@ -32,6 +32,8 @@ toml_serialize_keyval (struct disir_context *context, toml::Value* current, cons
         status = dc_get_value_enum (context, &value_string, NULL);
         if (status == DISIR_STATUS_OK)
         {
+            if (value_string == NULL)
+                value_string = "";
             if (current->type () == toml::Value::Type::ARRAY_TYPE)
                 current->push ((toml::Value(value_string)));
             else
@@ -44,6 +46,8 @@ toml_serialize_keyval (struct disir_context *context, toml::Value* current, cons
         status = dc_get_value_string (context, &value_string, NULL);
         if (status == DISIR_STATUS_OK)
         {
+            if (value_string == NULL)
+                value_string = "";
             if (current->type () == toml::Value::Type::ARRAY_TYPE)
                 current->push ((toml::Value(value_string)));
             else
-- 
2.43.0


From e8aeb9d07e3469a1363524e4dfb0dab7eb4c176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 051/103] fix: writing repeated elements as TOML leaked them

---
 lib/fslib/toml/toml_serialize.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/toml/toml_serialize.cc b/lib/fslib/toml/toml_serialize.cc
index b27539d..00c75a0 100644
--- a/lib/fslib/toml/toml_serialize.cc
+++ b/lib/fslib/toml/toml_serialize.cc
@@ -241,8 +241,11 @@ toml_serialize_elements (struct disir_context *context, toml::Value* current)
 
         // Check if this element already exists in the current TOML value.
         // If it does, we have already added it (since there are more than one entry of it.)
-        if (current->has (name))
+        if (current->findChild (name) != nullptr)
+        {
+            dc_putcontext (&element);
             continue;
+        }
 
         status = toml_serialize_inner (context, current, name);
         if (status != DISIR_STATUS_OK)
-- 
2.43.0


From 15274a47e1f12e4add01544d531d506f49225d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 052/103] fix: an empty section was lost when written as TOML

---
 3rdparty/tinytoml/toml.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 87d63af..9b02006 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -2170,7 +2170,8 @@ inline void Writer::writeTable(const Value& value, const std::string& key)
     std::string pre("\n");
     std::string post("");
 
-    bool hasKeyvals = tableContainsKeyval(value);
+    // A table with nothing in it has only its key to show for itself.
+    bool hasKeyvals = tableContainsKeyval(value) || value.table_->empty();
 
     // We may write this inline if we are not root, and the FORMAT_TABLE_INLINE option is
     // set either on the global options or on the value specific formatting options.
-- 
2.43.0


From c91ed19efca4a3f491cdf26bf5da99b657111746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 053/103] fix: floating point values written as TOML lost their
 last digits

---
 3rdparty/tinytoml/toml.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 9b02006..63e09c0 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -8,6 +8,7 @@
 #include <cmath>
 #include <cstdint>
 #include <cstdio>
+#include <cstdlib>
 #include <ctime>
 #include <iomanip>
 #include <istream>
@@ -2258,7 +2259,14 @@ inline void Writer::writeType(const Value& value)
     case Value::DOUBLE_TYPE: {
         // Inline float type.
         // Can extract out in separate method if float output is specified by format.
-        output_ << std::fixed << std::showpoint << value.double_;
+        std::stringstream ss;
+        ss << std::fixed << std::showpoint << value.double_;
+        if (std::strtod(ss.str().c_str(), nullptr) != value.double_) {
+            // Six decimals are not enough to read the same value back.
+            ss.str(std::string());
+            ss << std::defaultfloat << std::setprecision(17) << value.double_;
+        }
+        output_ << ss.str();
         break;
     }
     case Value::STRING_TYPE:
-- 
2.43.0


From cb98616343efae3e602981dbd42f64bc87ffde8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:24 +0000
Subject: [PATCH 054/103] fix: TOML written for nested sections ran two entries
 into one line

---
 3rdparty/tinytoml/toml.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 63e09c0..040cfe2 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -2134,6 +2134,7 @@ inline void Writer::writeTableCatagorizedLexicographical(const Value& value, con
                 if (tableContainsKeyval(v) == false)
                     indent_ += indentIncrement;
 
+                writingTableCurrentIndex_ = 0;
                 writeTableWithoutKey(v, key);
 
                 // Restore indent at entry
@@ -2149,8 +2150,6 @@ inline void Writer::writeTableCatagorizedLexicographical(const Value& value, con
 // Write the table without the key formatting trouble
 inline void Writer::writeTableWithoutKey(const Value& value, const std::string& keyPrefix)
 {
-    // Prepare state for table function
-    writingTableCurrentIndex_ = 0;
     // Only indent if we actually wrote the key last pass
     // XXX How is this for inline?
     if (tableContainsKeyval(value))
@@ -2220,6 +2219,10 @@ inline void Writer::writeTable(const Value& value, const std::string& key)
     if (writingTableInline_ && writingTableCurrentIndex_ > 0)
         output_ << separator_;
 
+    // Whatever precedes a table without a key of its own still precedes its first entry.
+    if (key.empty() || hasKeyvals || writingTableInline_)
+        writingTableCurrentIndex_ = 0;
+
     // This will determine what formatting algorithm to use
     writeTableWithoutKey(value, key);
 
-- 
2.43.0


From 408b90fe5e3a4021209e261e64584b2bd48ae719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:24 +0000
Subject: [PATCH 055/103] fix: TOML strings with backspace and form feed
 escapes were refused

---
 3rdparty/tinytoml/toml.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 040cfe2..0de9e3f 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -659,6 +659,8 @@ inline Token Lexer::nextStringDoubleQuote()
                 return Token(TokenType::ERROR, std::string("string has unknown escape sequence"));
             next();
             switch (c) {
+            case 'b': c = '\b'; break;
+            case 'f': c = '\f'; break;
             case 't': c = '\t'; break;
             case 'n': c = '\n'; break;
             case 'r': c = '\r'; break;
-- 
2.43.0


From e12c602390565c90bf2bdde3ef47c9390bb04117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 056/103] fix: reporting malformed JSON read the document after
 it was freed

---
 3rdparty/jsoncpp/jsoncpp.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index b573478..9f22107 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -300,9 +300,9 @@ bool Reader::parse(std::istream& sin, Value& root, bool collectComments) {
 
   // Since JSONCPP_STRING is reference-counted, this at least does not
   // create an extra copy.
-  JSONCPP_STRING doc;
-  std::getline(sin, doc, (char)EOF);
-  return parse(doc.data(), doc.data() + doc.size(), root, collectComments);
+  // The document is kept: errors are located in it after parsing.
+  std::getline(sin, document_, (char)EOF);
+  return parse(document_.data(), document_.data() + document_.size(), root, collectComments);
 }
 
 bool Reader::parse(const char* beginDoc,
-- 
2.43.0


From 1ee53e54b5c2b263c39f9f22eafa8abb499b4e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 057/103] fix: molds and sections without elements could not be
 read back from JSON

---
 lib/fslib/json/json_serialize_mold.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fslib/json/json_serialize_mold.cc b/lib/fslib/json/json_serialize_mold.cc
index 504ec8a..d6fd77b 100644
--- a/lib/fslib/json/json_serialize_mold.cc
+++ b/lib/fslib/json/json_serialize_mold.cc
@@ -378,8 +378,12 @@ MoldWriter::_serialize_mold_contexts (struct disir_context *parent_context, Json
     const char *name;
     int32_t size;
 
+    context = NULL;
     status = DISIR_STATUS_OK;
 
+    // Without any elements, there shall still be an object for them.
+    parent = Json::objectValue;
+
     status = dc_get_elements (parent_context, &coll);
     if (status != DISIR_STATUS_OK)
     {
-- 
2.43.0


From d5ff17aba4d713a05017a1e847c6ff029eaeaf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 058/103] fix: molds with an empty documentation could not be
 read back from JSON

---
 lib/fslib/json/json_unserialize_mold.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/json/json_unserialize_mold.cc b/lib/fslib/json/json_unserialize_mold.cc
index f60527e..2ba53ac 100644
--- a/lib/fslib/json/json_unserialize_mold.cc
+++ b/lib/fslib/json/json_unserialize_mold.cc
@@ -143,7 +143,8 @@ bool
 MoldReader::mold_has_documentation (Json::Value& mold_root)
 {
     return mold_root[ATTRIBUTE_KEY_DOCUMENTATION].isNull () == false &&
-           mold_root[ATTRIBUTE_KEY_DOCUMENTATION].isString ();
+           mold_root[ATTRIBUTE_KEY_DOCUMENTATION].isString () &&
+           mold_root[ATTRIBUTE_KEY_DOCUMENTATION].asString ().empty () == false;
 }
 
 bool
@@ -377,6 +378,12 @@ MoldReader::unserialize_documentation (struct disir_context *context, Json::Valu
        return DISIR_STATUS_INVALID_CONTEXT;
     }
 
+    if (doc.asString ().empty ())
+    {
+        // Nothing to document with
+        return DISIR_STATUS_OK;
+    }
+
     status = dc_add_documentation (context, doc.asCString (), strlen (doc.asCString ()));
     if (status != DISIR_STATUS_OK)
     {
-- 
2.43.0


From 710eec5b38c3c67273058838ea4ad11a6aebcbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 059/103] fix: JSON of an unexpected type in a mold threw out
 of the reader, leaking it

---
 lib/fslib/json/json_unserialize_mold.cc | 33 +++++++++++++++++++++----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/lib/fslib/json/json_unserialize_mold.cc b/lib/fslib/json/json_unserialize_mold.cc
index 2ba53ac..0189065 100644
--- a/lib/fslib/json/json_unserialize_mold.cc
+++ b/lib/fslib/json/json_unserialize_mold.cc
@@ -90,6 +90,12 @@ MoldReader::construct_mold (struct disir_mold **mold)
         goto error;
     }
 
+    if (m_moldRoot.isObject () == false)
+    {
+        dc_fatal_error (context_mold, "document is not an object");
+        goto finalize;
+    }
+
     if (mold_has_documentation (m_moldRoot))
     {
         auto doc = m_moldRoot[ATTRIBUTE_KEY_DOCUMENTATION].asString ();
@@ -245,6 +251,12 @@ MoldReader::_unserialize_mold (struct disir_context *parent_context, Json::Value
 
     status = DISIR_STATUS_OK;
 
+    if (parent.isObject () == false)
+    {
+        dc_fatal_error (parent_context, "Elements must be of type object");
+        return DISIR_STATUS_INVALID_CONTEXT;
+    }
+
     Json::OrderedValueIterator iter = parent.beginOrdered ();
 
     for (; iter != parent.endOrdered(); ++iter)
@@ -399,6 +411,12 @@ MoldReader::unserialize_restriction (struct disir_context *restriction, Json::Va
 {
     enum disir_status status;
 
+    if (current.isObject () == false)
+    {
+        dc_fatal_error (restriction, "Restriction should be of type object");
+        return DISIR_STATUS_INVALID_CONTEXT;
+    }
+
     if (current[ATTRIBUTE_KEY_TYPE].isNull ())
     {
         dc_fatal_error (restriction, "No restriction type");
@@ -565,10 +583,10 @@ MoldReader::set_restriction_value (struct disir_context *context, Json::Value& c
     }
     case DISIR_RESTRICTION_EXC_VALUE_RANGE:
     {
-        if (assert_json_value_type (value[0], Json::intValue) == DISIR_STATUS_OK ||
-            assert_json_value_type (value[1], Json::intValue) == DISIR_STATUS_OK ||
-            assert_json_value_type (value[0], Json::realValue) == DISIR_STATUS_OK ||
-            assert_json_value_type (value[1], Json::realValue) == DISIR_STATUS_OK)
+        if ((assert_json_value_type (value[0], Json::intValue) == DISIR_STATUS_OK ||
+             assert_json_value_type (value[0], Json::realValue) == DISIR_STATUS_OK) &&
+            (assert_json_value_type (value[1], Json::intValue) == DISIR_STATUS_OK ||
+             assert_json_value_type (value[1], Json::realValue) == DISIR_STATUS_OK))
         {
 
             auto min = value[0].asDouble();
@@ -721,7 +739,12 @@ MoldReader::unserialize_defaults (struct disir_context *context_keyval, Json::Va
             continue;
         }
 
-        if (def[ATTRIBUTE_KEY_VALUE].isNull ())
+        if (def.isObject () == false)
+        {
+            dc_fatal_error (context_default, "Default should be of type object");
+            error = DISIR_STATUS_NOT_EXIST;
+        }
+        else if (def[ATTRIBUTE_KEY_VALUE].isNull ())
         {
             dc_fatal_error (context_default, "Default value is not present");
             error = DISIR_STATUS_NOT_EXIST;
-- 
2.43.0


From cc60a403a43ebdbe42da356b031479d1dfc698c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 060/103] fix: refusing a JSON mold leaked what had been read
 of it

---
 lib/fslib/json/json_unserialize_mold.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/fslib/json/json_unserialize_mold.cc b/lib/fslib/json/json_unserialize_mold.cc
index 0189065..626db95 100644
--- a/lib/fslib/json/json_unserialize_mold.cc
+++ b/lib/fslib/json/json_unserialize_mold.cc
@@ -102,8 +102,7 @@ MoldReader::construct_mold (struct disir_mold **mold)
         status = dc_add_documentation (context_mold, doc.c_str (), doc.size ());
         if (status != DISIR_STATUS_OK)
         {
-
-            return status;
+            goto error;
         }
     }
 
@@ -186,7 +185,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
     if (status != DISIR_STATUS_OK &&
         status != DISIR_STATUS_INVALID_CONTEXT)
     {
-        return status;
+        goto error;
     }
 
     if (status == DISIR_STATUS_INVALID_CONTEXT)
@@ -196,7 +195,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
     if (status != DISIR_STATUS_OK
         && status != DISIR_STATUS_INVALID_CONTEXT)
     {
-        return status;
+        goto error;
     }
 
     if (type == DISIR_CONTEXT_SECTION)
@@ -212,7 +211,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
-            return status;
+            goto error;
         }
     }
     else if  (type == DISIR_CONTEXT_KEYVAL)
@@ -221,7 +220,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
-            return status;
+            goto error;
         }
     }
     if (status == DISIR_STATUS_INVALID_CONTEXT)
@@ -232,7 +231,7 @@ finalize:
     if (status != DISIR_STATUS_OK &&
         status != DISIR_STATUS_INVALID_CONTEXT)
     {
-        return status;
+        goto error;
     }
 
     if (status == DISIR_STATUS_INVALID_CONTEXT)
@@ -241,6 +240,9 @@ finalize:
     }
 
     return DISIR_STATUS_OK;
+error:
+    dc_destroy (&context);
+    return status;
 }
 
 //! PRIVATE
@@ -676,6 +678,7 @@ MoldReader::unserialize_restrictions (struct disir_context *context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
+            dc_destroy (&restriction);
             return status;
         }
 
@@ -683,6 +686,7 @@ MoldReader::unserialize_restrictions (struct disir_context *context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
+            dc_destroy (&restriction);
             return status;
         }
 
-- 
2.43.0


From f81fc45e5b4af5eec001537e0ac9696c6ffc3f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 061/103] fix: bounds beyond 64 bits of an integer range became
 arbitrary

---
 lib/context_restriction.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index b791c85..576156b 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -505,6 +505,19 @@ dc_restriction_set_string (struct disir_context *context, const char *value)
     return DISIR_STATUS_OK;
 }
 
+//! STATIC FUNCTION: the number without decimals. Numbers beyond 64 bits have none.
+static double
+whole_number (double value)
+{
+    if (value > -9223372036854775808.0 && value < 9223372036854775808.0)
+    {
+        return (int64_t) value;
+    }
+
+    return value;
+}
+
+//! PUBLIC API
 enum disir_status
 dc_restriction_set_range (struct disir_context *context, double min, double max)
 {
@@ -530,8 +543,8 @@ dc_restriction_set_range (struct disir_context *context, double min, double max)
         // Store restriction value based on keyval type (integer vs float)
         if (dc_value_type (context->cx_parent_context) == DISIR_VALUE_TYPE_INTEGER)
         {
-            context->cx_restriction->re_value_min = (int64_t) min;
-            context->cx_restriction->re_value_max = (int64_t) max;
+            context->cx_restriction->re_value_min = whole_number (min);
+            context->cx_restriction->re_value_max = whole_number (max);
         }
         else
         {
-- 
2.43.0


From b767a2f5f2c6e9bde251923438095476767bc858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 062/103] fix: the warning about a failing plugin query read a
 missing argument

---
 lib/disir_config.c | 2 +-
 lib/disir_mold.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index b22b3fe..6423ba8 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -68,7 +68,7 @@ disir_config_read (struct disir_instance *instance, const char *group_id, const
         {
             log_warn ("Plugin '%s' (id %s) failed to query for entry '%s': %s",
                       entry->pi_io_id, entry->pi_plugin.dp_name,
-                      entry_id), disir_status_string (status);
+                      entry_id, disir_status_string (status));
             entry = entry->next;
             continue;
         }
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 9ccf553..0883a54 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -69,7 +69,7 @@ disir_mold_read (struct disir_instance *instance, const char *group_id,
         {
             log_warn ("Plugin '%s' (id %s) failed to query for entry '%s': %s",
                       entry->pi_io_id, entry->pi_plugin.dp_name,
-                      entry_id), disir_status_string (status);
+                      entry_id, disir_status_string (status));
             entry = entry->next;
             continue;
         }
-- 
2.43.0


From ec51dfd9acc3c88d32ca20f0e37901babed3e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 063/103] fix: writing a mold to an unknown group read a
 missing argument

---
 lib/disir_mold.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 0883a54..ca167e2 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -153,7 +153,8 @@ disir_mold_write (struct disir_instance *instance, const char *group_id,
     }
     else
     {
-        disir_error_set (instance, "No plugin in group '%s' available: '%s'.", group_id);
+        disir_error_set (instance, "No plugin in group '%s' available: '%s'.",
+                         group_id, entry_id);
         status = DISIR_STATUS_NOT_EXIST;
     }
 
-- 
2.43.0


From 76f78a083274ab617ce2bc0caa4ee2acacb2dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 064/103] fix: an empty entry id was read out of bounds

---
 lib/disir_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 6423ba8..ad560d5 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -127,7 +127,7 @@ disir_config_write (struct disir_instance *instance, const char *group_id, const
     disir_error_clear (instance);
 
     entry_id_length = strlen (entry_id);
-    if (entry_id[entry_id_length - 1] == '/')
+    if (entry_id_length > 0 && entry_id[entry_id_length - 1] == '/')
     {
         // TODO: Add a better status?
         disir_error_set (instance, "cannot write namespace entry: %s", entry_id);
@@ -194,7 +194,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
     disir_error_clear (instance);
 
     entry_id_length = strlen (entry_id);
-    if (entry_id[entry_id_length - 1] == '/')
+    if (entry_id_length > 0 && entry_id[entry_id_length - 1] == '/')
     {
         disir_error_set (instance, "cannot remove namespace entry: %s", entry_id);
         return DISIR_STATUS_FS_ERROR;
-- 
2.43.0


From 139306b7861b1b230cda0bc9bc40e224cec294ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 065/103] fix: removing an entry asked whether the plugin can
 write, not remove

---
 lib/disir_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index ad560d5..64ef49a 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -214,7 +214,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
 
     if (plugin)
     {
-        if (plugin->pi_plugin.dp_config_write)
+        if (plugin->pi_plugin.dp_config_remove)
         {
             status = plugin->pi_plugin.dp_config_remove (instance, &plugin->pi_plugin,
                                                          entry_id);
@@ -222,7 +222,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
         else
         {
             status = DISIR_STATUS_NO_CAN_DO;
-            log_debug (1, "Plugin '%s' does not implement config_write", plugin->pi_io_id);
+            log_debug (1, "Plugin '%s' does not implement config_remove", plugin->pi_io_id);
         }
     }
     else
-- 
2.43.0


From 3f0ad4cc56997e0255ccd843bc8dea1c3cabb322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 066/103] fix: querying an entry asked only the last plugin of
 its group

---
 lib/disir_config.c | 10 ++++++----
 lib/disir_mold.c   |  8 ++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 64ef49a..08c882c 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -375,14 +375,16 @@ disir_config_query (struct disir_instance *instance, const char *group_id,
         }
 
         plugin = entry;
+        status = entry->pi_plugin.dp_config_query (instance, &entry->pi_plugin,
+                                                   entry_id, entry_internal);
+        if (status == DISIR_STATUS_EXISTS)
+        {
+            break;
+        }
     }));
 
     if (plugin)
     {
-        // QUESTION: Should this abstraction check if there is a mold available before
-        // issuing the config query? Or handle it individually in the plugins?
-        status = plugin->pi_plugin.dp_config_query (instance, &plugin->pi_plugin,
-                                                    entry_id, entry_internal);
         if (status != DISIR_STATUS_EXISTS && status != DISIR_STATUS_NOT_EXIST)
         {
             log_warn ("Plugin '%s' config_query failed with status: %s",
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index ca167e2..893d1e7 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -294,12 +294,16 @@ disir_mold_query (struct disir_instance *instance, const char *group_id,
         }
 
         plugin = entry;
+        status = entry->pi_plugin.dp_mold_query (instance, &entry->pi_plugin,
+                                                   entry_id, entry_internal);
+        if (status == DISIR_STATUS_EXISTS)
+        {
+            break;
+        }
     }));
 
     if (plugin)
     {
-        status = plugin->pi_plugin.dp_mold_query (instance, &plugin->pi_plugin,
-                                                  entry_id, entry_internal);
         if (status != DISIR_STATUS_EXISTS && status != DISIR_STATUS_NOT_EXIST)
         {
             log_warn ("Plugin '%s' config_query failed with status: %s",
-- 
2.43.0


From 44fabb0eaa187764284e161107091480c2dde483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 067/103] fix: creating a directory reported an undefined
 status

---
 lib/fslib/mkdir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fslib/mkdir.c b/lib/fslib/mkdir.c
index ad6a2bd..9f396c5 100644
--- a/lib/fslib/mkdir.c
+++ b/lib/fslib/mkdir.c
@@ -35,6 +35,7 @@ fslib_mkdir_p (struct disir_instance *instance, const char *path)
     char _path[PATH_MAX];
     char *p;
 
+    status = DISIR_STATUS_OK;
     errno = 0;
 
     // Copy a mutable string
-- 
2.43.0


From 76be4567a53e21ba062e24237ee2c82b102b39c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 068/103] fix: the namespace mold path of a long entry id
 overflowed its buffer

---
 lib/fslib/query.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 3838a12..c95508f 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -552,6 +552,15 @@ fslib_mold_resolve_entry_id (struct disir_instance *instance, struct disir_regis
 
     *sep = '\0';
 
+    if (strlen (filepath) + strlen ("/__namespace.") + strlen (plugin->dp_mold_entry_type)
+            >= PATH_MAX)
+    {
+        *filepath = '\0';
+        disir_error_set (instance,
+                "entry_id '%s' is not covered by a normal nor namespace mold", entry_id);
+        return DISIR_STATUS_NOT_EXIST;
+    }
+
     strcat (filepath, "/__namespace.");
     strcat (filepath, plugin->dp_mold_entry_type);
 
-- 
2.43.0


From 1b1072f2049da3c925e80684499133457ef77674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 069/103] fix: reading a config whose mold is invalid leaked
 the mold

---
 lib/fslib/read.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/fslib/read.c b/lib/fslib/read.c
index feaae82..8bb4314 100644
--- a/lib/fslib/read.c
+++ b/lib/fslib/read.c
@@ -36,9 +36,15 @@ fslib_plugin_config_read (struct disir_instance *instance,
     // Locate mold from plugin
     if (mold == NULL)
     {
+        resolved_mold = NULL;
         status = plugin->dp_mold_read (instance, plugin, entry_id, &resolved_mold);
         if (status != DISIR_STATUS_OK)
         {
+            // An invalid mold is still handed out
+            if (resolved_mold != NULL)
+            {
+                disir_mold_finished (&resolved_mold);
+            }
             if (status == DISIR_STATUS_INVALID_CONTEXT)
             {
                 // XXX: Another error perhaps?
@@ -61,6 +67,10 @@ fslib_plugin_config_read (struct disir_instance *instance,
         // TODO: Check errno and set appropriate error
         // TODO: Use threadsafe strerror, or refactor entirely
         disir_error_set (instance, "opening for reading %s: %s", filepath, strerror (errno));
+        if (mold == NULL)
+        {
+            disir_mold_finished (&resolved_mold);
+        }
         return DISIR_STATUS_FS_ERROR;
     }
 
-- 
2.43.0


From f65d47d8aeb23d7e89fc358dbb4da02982dc4ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 070/103] fix: destroying an instance closed the handle of
 plugins that have none

---
 lib/disir.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/disir.c b/lib/disir.c
index 685f4ea..998ee7c 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -334,7 +334,9 @@ disir_instance_destroy (struct disir_instance **instance)
             plugin->pi_plugin.dp_plugin_finished (*instance, plugin->pi_plugin.dp_storage);
         }
 
-        dlclose (plugin->pi_dl_handler);
+        // Plugins that were registered directly have no handle
+        if (plugin->pi_dl_handler)
+            dlclose (plugin->pi_dl_handler);
 
         if (plugin->pi_filepath)
             free (plugin->pi_filepath);
@@ -358,7 +360,8 @@ disir_instance_destroy (struct disir_instance **instance)
         free (plugin);
     }
 
-    disir_config_finished(&(*instance)->libdisir_config);
+    if ((*instance)->libdisir_config)
+        disir_config_finished(&(*instance)->libdisir_config);
 
     // Free any error message set on instance
     if ((*instance)->disir_error_message)
-- 
2.43.0


From ad745f660cd6585a5c388ddd835b116cec79fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 071/103] fix: an instance that could not be created leaked its
 config, plugins and error

---
 lib/disir.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/lib/disir.c b/lib/disir.c
index 998ee7c..1e5d4c9 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -31,6 +31,8 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
     struct disir_register_plugin_internal *internal;
     plugin_register dio_reg;
 
+    memset (&plugin, 0, sizeof (struct disir_register_plugin));
+
     // Attempt to load the filepath dynamically
     handle = dlopen (plugin_filepath, RTLD_NOW | RTLD_LOCAL);
     if (handle == NULL)
@@ -53,8 +55,6 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
     }
 
     // Populate the plugin object
-    memset (&plugin, 0, sizeof (struct disir_register_plugin));
-
     if (config_base_id)
         plugin.dp_config_base_id = strndup (config_base_id, 512);
     if (mold_base_id)
@@ -92,6 +92,14 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
 
     return DISIR_STATUS_OK;
 error:
+    if (plugin.dp_config_base_id)
+    {
+        free (plugin.dp_config_base_id);
+    }
+    if (plugin.dp_mold_base_id)
+    {
+        free (plugin.dp_mold_base_id);
+    }
     if (handle)
     {
         dlclose (handle);
@@ -211,6 +219,7 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
     struct disir_mold *libmold;
 
     status = DISIR_STATUS_OK;
+    libconf = NULL;
     libmold = NULL;
 
     TRACE_ENTER ("config_filepath: %s, config: %p, instance: %p",
@@ -301,7 +310,14 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
 error:
     if (dis)
     {
-        free (dis);
+        // Also lets go of the plugins that were loaded
+        disir_instance_destroy (&dis);
+
+        // The config of the caller remains with the caller
+        if (libconf && libconf != config)
+        {
+            disir_config_finished (&libconf);
+        }
     }
     if (libmold)
     {
-- 
2.43.0


From f6d042aa8bf3710e9e0278be6efb842f0527279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 072/103] fix: a mold override that could not be parsed was
 reported on stdout

---
 lib/fslib/json/json_mold_namespace_override.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/fslib/json/json_mold_namespace_override.cc b/lib/fslib/json/json_mold_namespace_override.cc
index 56b0e51..523e4c9 100644
--- a/lib/fslib/json/json_mold_namespace_override.cc
+++ b/lib/fslib/json/json_mold_namespace_override.cc
@@ -28,7 +28,6 @@ MoldOverride::parse_mold_override_entry (struct disir_instance *instance, std::i
     bool success = reader.parse (entry, root);
     if (!success)
     {
-        std::cout << reader.getFormattedErrorMessages() << std::endl;
         disir_error_set (instance, "mold override parse error: %s",
                                    reader.getFormattedErrorMessages().c_str());
         return DISIR_STATUS_FS_ERROR;
-- 
2.43.0


From bbce11bf00847170ca5ca09a28407e9325f1b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 073/103] fix: JSON of an unexpected type in a mold override
 threw out of the reader

---
 .../json/json_mold_namespace_override.cc      | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/fslib/json/json_mold_namespace_override.cc b/lib/fslib/json/json_mold_namespace_override.cc
index 523e4c9..be6b435 100644
--- a/lib/fslib/json/json_mold_namespace_override.cc
+++ b/lib/fslib/json/json_mold_namespace_override.cc
@@ -47,6 +47,13 @@ MoldOverride::validate_override (struct disir_instance *instance,
                                  Json::Value& current, std::string& name,
                                  std::set<std::string>& versions)
 {
+    if (current.isObject() == false)
+    {
+        disir_error_set (instance,
+                         "invalid mold override entry: (%s) is not of type object", name.c_str());
+        return DISIR_STATUS_FS_ERROR;
+    }
+
     auto version = current[ATTRIBUTE_KEY_VERSION];
     auto value = current[ATTRIBUTE_KEY_VALUE];
 
@@ -86,6 +93,12 @@ MoldOverride::validate_override_entry (struct disir_instance *instance, Json::Va
     enum disir_status status;
     std::set<std::string> versions;
 
+    if (root.isObject() == false)
+    {
+        disir_error_set (instance, "invalid mold override entry: not of type object");
+        return DISIR_STATUS_FS_ERROR;
+    }
+
     // for an override entry to be valid the following invaraints
     // must be fulfilled:
     // It must have "sync" array and "override" object
@@ -117,6 +130,13 @@ MoldOverride::validate_override_entry (struct disir_instance *instance, Json::Va
     for (unsigned int i = 0; i < sync_entries.size(); i++)
     {
         auto sync_entry = sync_entries[i];
+        if (sync_entry.isObject() == false)
+        {
+            disir_error_set (instance,
+                             "invalid sync entry: sync entry (%d) is not of type object", i);
+            return DISIR_STATUS_FS_ERROR;
+        }
+
         auto namespace_version = sync_entry[ATTRIBUTE_KEY_NAMESPACE];
         auto override_version = sync_entry[ATTRIBUTE_KEY_OVERRIDE];
 
-- 
2.43.0


From d8bfe59270912f8b8780f88256ec1f3fa3c7654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 074/103] fix: the names of mold overrides were used as a
 format string

---
 lib/fslib/json/json_mold_namespace_override.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/json/json_mold_namespace_override.cc b/lib/fslib/json/json_mold_namespace_override.cc
index be6b435..0ea900c 100644
--- a/lib/fslib/json/json_mold_namespace_override.cc
+++ b/lib/fslib/json/json_mold_namespace_override.cc
@@ -437,7 +437,8 @@ MoldOverride::apply_override (struct disir_context *context_mold, struct mold_en
     struct disir_context *context_keyval = NULL;
     int eq;
 
-    status = dc_query_resolve_context (context_mold, entry->mo_name.c_str(), &context_keyval);
+    status = dc_query_resolve_context (context_mold, "%s", &context_keyval,
+                                       entry->mo_name.c_str());
     if (status != DISIR_STATUS_OK && status != DISIR_STATUS_NOT_EXIST)
     {
         return status;
-- 
2.43.0


From b71759a69f3fc48782c065658bdb51a1bf3c891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 075/103] fix: listing entries provided by several plugins of a
 group hung

---
 lib/disir_config.c | 3 +++
 lib/disir_mold.c   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 08c882c..9c96f19 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -318,6 +318,9 @@ disir_config_entries (struct disir_instance *instance, const char *group_id,
             else
             {
                 // Duplicate entry that a previous plugin provides. Forget about it.
+                // Its neighbours may already be part of queue.
+                current->next = NULL;
+                current->prev = NULL;
                 disir_entry_finished (&current);
             }
 
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 893d1e7..0476f16 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -237,6 +237,9 @@ disir_mold_entries (struct disir_instance *instance,
             else
             {
                 // Duplicate entry that a previous plugin provides. Forget about it.
+                // Its neighbours may already be part of queue.
+                current->next = NULL;
+                current->prev = NULL;
                 disir_entry_finished (&current);
             }
 
-- 
2.43.0


From 31d0f81c2b1f82baff6a6b4c6d1da344c8094033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 076/103] fix: configs and molds that could not be written out
 were reported as written

---
 lib/fslib/json/json_serialize.cc | 16 ++++++++++++++--
 lib/fslib/toml/toml_serialize.cc |  4 ++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/json/json_serialize.cc b/lib/fslib/json/json_serialize.cc
index 704d79c..99d8cb2 100644
--- a/lib/fslib/json/json_serialize.cc
+++ b/lib/fslib/json/json_serialize.cc
@@ -21,7 +21,13 @@ dio_json_serialize_config (struct disir_instance *instance,
         boost::fdostream file(fileno(output));
         dio::ConfigWriter writer (NULL);
 
-         return writer.serialize (config, file);
+        auto status = writer.serialize (config, file);
+        if (status == DISIR_STATUS_OK && !file.flush ())
+        {
+            return DISIR_STATUS_FS_ERROR;
+        }
+
+        return status;
     }
     catch (std::exception& e)
     {
@@ -41,7 +47,13 @@ dio_json_serialize_mold (struct disir_instance *instance,
         boost::fdostream file(fileno(output));
         dio::MoldWriter writer (instance);
 
-        return writer.serialize (mold, file);
+        auto status = writer.serialize (mold, file);
+        if (status == DISIR_STATUS_OK && !file.flush ())
+        {
+            return DISIR_STATUS_FS_ERROR;
+        }
+
+        return status;
     }
     catch (std::exception& e)
     {
diff --git a/lib/fslib/toml/toml_serialize.cc b/lib/fslib/toml/toml_serialize.cc
index 00c75a0..16c0f06 100644
--- a/lib/fslib/toml/toml_serialize.cc
+++ b/lib/fslib/toml/toml_serialize.cc
@@ -317,6 +317,10 @@ dio_toml_serialize_config (struct disir_instance *instance,
 
     boost::fdostream file(fileno(output));
     root.write (&file);
+    if (!file.flush ())
+    {
+        return DISIR_STATUS_FS_ERROR;
+    }
 
     disir_log_user (instance, "TRACE EXIT serialize_config");
     return DISIR_STATUS_OK;
-- 
2.43.0


From be14730f8706321fd1ccec415e30f8c899aeb383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 077/103] fix: writing a config or mold that failed destroyed
 the stored one

---
 lib/fslib/write.c | 109 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 97 insertions(+), 12 deletions(-)

diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index e73d416..625e337 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -4,7 +4,96 @@
 // system
 #include <errno.h>
 #include <limits.h>
+#include <unistd.h>
 
+//! STATIC FUNCTION
+//! Open the temporary file that is to replace filepath, next to it.
+static FILE *
+open_replacement (struct disir_instance *instance, const char *filepath, char *temppath)
+{
+    static const char name[] = ".disir";
+    char *separator;
+    FILE *file;
+    int attempt;
+
+    // A symbolic link is kept; what it refers to is replaced.
+    if (realpath (filepath, temppath) == NULL)
+    {
+        strcpy (temppath, filepath);
+    }
+
+    separator = strrchr (temppath, '/');
+    separator = (separator == NULL ? temppath : separator + 1);
+    file = NULL;
+    errno = ENAMETOOLONG;
+    for (attempt = 0; attempt < 100; attempt++)
+    {
+        int size = PATH_MAX - (separator - temppath);
+        if (snprintf (separator, size, "%s.%ld.%d", name, (long) getpid (), attempt) >= size)
+        {
+            errno = ENAMETOOLONG;
+            break;
+        }
+
+        file = fopen (temppath, "wx");
+        if (file != NULL || errno != EEXIST)
+        {
+            break;
+        }
+    }
+
+    if (file == NULL)
+    {
+        // TODO: Check errno and set appropriate error
+        // TODO: Use threadsafe strerror, or refactor entirely
+        disir_error_set (instance, "opening for writing %s: %s", filepath, strerror (errno));
+    }
+
+    return file;
+}
+
+//! STATIC FUNCTION
+//! Close the temporary file. It replaces filepath when everything was written to it.
+static enum disir_status
+finish_replacement (struct disir_instance *instance, const char *filepath, const char *temppath,
+                    FILE *file, enum disir_status status)
+{
+    char target[PATH_MAX];
+    struct stat statbuf;
+
+    if (realpath (filepath, target) == NULL)
+    {
+        strcpy (target, filepath);
+    }
+    else if (stat (target, &statbuf) == 0)
+    {
+        // Keep who can access the file.
+        if (fchown (fileno (file), statbuf.st_uid, statbuf.st_gid) != 0)
+        {
+            // Not ours to give away.
+        }
+        fchmod (fileno (file), statbuf.st_mode & 07777);
+    }
+
+    if (fclose (file) != 0 && status == DISIR_STATUS_OK)
+    {
+        disir_error_set (instance, "writing %s: %s", filepath, strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+    }
+
+    if (status == DISIR_STATUS_OK && rename (temppath, target) != 0)
+    {
+        disir_error_set (instance, "replacing %s: %s", filepath, strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+    }
+
+    if (status != DISIR_STATUS_OK)
+    {
+        unlink (temppath);
+    }
+
+    return status;
+}
 
 //! FSLIB API
 enum disir_status
@@ -87,20 +176,18 @@ fslib_plugin_config_write (struct disir_instance *instance, struct disir_registe
     }
 
     FILE *file;
+    char temppath[PATH_MAX];
 
-    file = fopen (filepath, "w+");
+    file = open_replacement (instance, filepath, temppath);
     if (file == NULL)
     {
-        // TODO: Check errno and set appropriate error
-        // TODO: Use threadsafe strerror, or refactor entirely
-        disir_error_set (instance, "opening for writing %s: %s", filepath, strerror (errno));
+        // Already logged
         return DISIR_STATUS_FS_ERROR;
     }
 
     status = func_serialize (instance, config, file);
-    fclose (file);
 
-    return status;
+    return finish_replacement (instance, filepath, temppath, file, status);
 }
 
 //! FSLIB API
@@ -171,20 +258,18 @@ fslib_plugin_mold_write (struct disir_instance *instance, struct disir_register_
     }
 
     FILE *file;
+    char temppath[PATH_MAX];
 
-    file = fopen (filepath, "w+");
+    file = open_replacement (instance, filepath, temppath);
     if (file == NULL)
     {
-        // TODO: Check errno and set appropriate error
-        // TODO: Use threadsafe strerror, or refactor entirely
-        disir_error_set (instance, "opening for writing %s: %s", filepath, strerror (errno));
+        // Already logged
         return DISIR_STATUS_FS_ERROR;
     }
 
     status = func_serialize (instance, mold, file);
-    fclose (file);
 
-    return status;
+    return finish_replacement (instance, filepath, temppath, file, status);
 }
 
 //! FSLIB API
-- 
2.43.0


From bf1f9e64211dab13bac2400efbdd509fdd1d1d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 078/103] fix: a config that could not be removed was reported
 as removed

---
 lib/fslib/write.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index 625e337..bb6a297 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -305,7 +305,11 @@ fslib_plugin_config_remove (struct disir_instance *instance,
     if (status == DISIR_STATUS_OK)
     {
         // Delete the file
-        remove (filepath);
+        if (remove (filepath) != 0)
+        {
+            disir_error_set (instance, "removing %s: %s", filepath, strerror (errno));
+            return DISIR_STATUS_FS_ERROR;
+        }
     }
     else if (status == DISIR_STATUS_NOT_EXIST)
     {
-- 
2.43.0


From d38193f5793ad797f20462c26a6a6b34d2bb31f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 079/103] fix: archives could be extracted outside their
 folder, and damaged ones were accepted

---
 lib/disir_archive_util.cc | 53 +++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index c0dfdea..728f3d7 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -97,6 +97,7 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
     int64_t offset;
     size_t size;
     const void *buff;
+    const char *name;
     char path[PATH_MAX];
 
     // Check for write permission
@@ -107,9 +108,7 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
     }
 
     flags = ARCHIVE_EXTRACT_TIME;
-    flags |= ARCHIVE_EXTRACT_PERM;
-    flags |= ARCHIVE_EXTRACT_ACL;
-    flags |= ARCHIVE_EXTRACT_FFLAGS;
+    flags |= ARCHIVE_EXTRACT_SECURE_NODOTDOT;
 
     write_archive = archive_write_disk_new();
     if (write_archive == NULL)
@@ -141,14 +140,42 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
 
     status = DISIR_STATUS_OK;
 
-    while (archive_read_next_header (read_archive, &entry) == ARCHIVE_OK)
+    while ((ret = archive_read_next_header (read_archive, &entry)) == ARCHIVE_OK)
     {
-        snprintf(path, PATH_MAX, "%s/%s", extract_path, archive_entry_pathname (entry));
-        extract_content.insert (std::make_pair (archive_entry_pathname (entry), path));
+        // An archive holds files only. Links and devices reach outside of it.
+        name = archive_entry_pathname (entry);
+        if (name == NULL || archive_entry_hardlink (entry) != NULL ||
+            (archive_entry_filetype (entry) != AE_IFREG &&
+             archive_entry_filetype (entry) != AE_IFDIR))
+        {
+            log_error ("archive contains something else than files");
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
+
+        if (snprintf(path, PATH_MAX, "%s/%s", extract_path, name) >= PATH_MAX)
+        {
+            log_error ("archive entry name is too long");
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
+
+        if (archive_entry_filetype (entry) == AE_IFREG)
+        {
+            extract_content.insert (std::make_pair (std::string (name), path));
+        }
         archive_entry_set_pathname (entry, path);
+        archive_entry_set_perm (entry, archive_entry_filetype (entry) == AE_IFDIR ? 0700 : 0600);
+
+        if (archive_write_header (write_archive, entry) != ARCHIVE_OK)
+        {
+            log_error ("could not extract archive entry: %s",
+                        archive_error_string (write_archive));
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
 
-        if (archive_write_header (write_archive, entry) == ARCHIVE_OK &&
-                                  archive_entry_size (entry) > 0)
+        if (archive_entry_size (entry) > 0)
         {
             while (1)
             {
@@ -178,11 +205,17 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
         if (archive_write_finish_entry (write_archive) != ARCHIVE_OK)
         {
             log_error ("could not finish archive write entry: %s",
-                        archive_error_string (read_archive));
+                        archive_error_string (write_archive));
             status = DISIR_STATUS_FS_ERROR;
-            break;
+            goto out;
         }
     }
+
+    if (ret != ARCHIVE_EOF)
+    {
+        log_error ("could not read archive: %s", archive_error_string (read_archive));
+        status = DISIR_STATUS_FS_ERROR;
+    }
     // FALL-THROUGH
 out:
     if (write_archive)
-- 
2.43.0


From bcd7b7393caa81cbdcd2de4b694dfd0ead0f06cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 080/103] fix: archive metadata of the wrong type ended the
 program, and groups with a dot were not found

---
 lib/disir_archive_util.cc | 23 +++++++++++++++++++++--
 lib/disir_export.cc       |  2 +-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 728f3d7..5d8aee8 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -459,8 +459,14 @@ validate_archive_backend_entries (struct disir_archive *archive,
     // Iterate groups
     for (const auto& group : groups.as<toml::Array>())
     {
+        if (group.is<std::string>() == false)
+        {
+            log_error ("group in backend '%s' is not a string", backend.c_str());
+            return DISIR_STATUS_WRONG_VALUE_TYPE;
+        }
+
         // Find group table in entries.toml
-        entries_group_table = entries_root.find (group.as<std::string>());
+        entries_group_table = entries_root.findChild (group.as<std::string>());
 
         if (entries_group_table == nullptr)
         {
@@ -478,6 +484,13 @@ validate_archive_backend_entries (struct disir_archive *archive,
         // Locate config on disk
         for (const auto& entry : entries_group_table->as<toml::Table>())
         {
+            if (entry.second.is<std::string>() == false)
+            {
+                log_error ("version of '%s' in backend '%s' is not a string",
+                            entry.first.c_str(), backend.c_str());
+                return DISIR_STATUS_WRONG_VALUE_TYPE;
+            }
+
             config_entry = backend + "/" + group.as<std::string>() + "/" + entry.first;
             iter = extract_content.find (config_entry);
             if (iter == extract_content.end ())
@@ -588,7 +601,13 @@ dx_archive_validate (struct disir_archive *archive,
 
     for (const auto& entry : backends->as<toml::Array>())
     {
-        auto id = entry.find (ATTRIBUTE_KEY_ID);
+        if (entry.is<toml::Table>() == false)
+        {
+            log_error ("backend in metadata.toml is not a toml table");
+            return DISIR_STATUS_WRONG_VALUE_TYPE;
+        }
+
+        auto id = entry.findChild (ATTRIBUTE_KEY_ID);
 
         if (id == nullptr)
         {
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 8193bf1..3b5d73b 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -49,7 +49,7 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
     const toml::Value* backends = root.find (ATTRIBUTE_KEY_BACKEND);
     for (const auto& entry : backends->as<toml::Array>())
     {
-        auto id = entry.find (ATTRIBUTE_KEY_ID);
+        auto id = entry.findChild (ATTRIBUTE_KEY_ID);
 
         auto iter = extract_content.find (id->as<std::string>() + "/entries.toml");
         if (iter == extract_content.end())
-- 
2.43.0


From bf2e92d512e6f6a704a956a1eb6eb1b696f3742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 081/103] fix: archive errors were logged with arguments of the
 wrong type

---
 lib/disir_archive_util.cc | 15 +++++++++------
 lib/disir_export.cc       | 18 ++++++++++--------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 5d8aee8..dfa02c5 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -438,7 +438,7 @@ validate_archive_backend_entries (struct disir_archive *archive,
     auto iter = extract_content.find (backend + "/entries.toml");
     if (iter == extract_content.end())
     {
-        log_error ("cannot find entries.toml for backend '%s' in map", backend);
+        log_error ("cannot find entries.toml for backend '%s' in map", backend.c_str());
         return DISIR_STATUS_NOT_EXIST;
     }
 
@@ -449,7 +449,7 @@ validate_archive_backend_entries (struct disir_archive *archive,
 
     if (!pr.valid())
     {
-        log_error ("unable to parse entries.toml in backend '%s'", backend);
+        log_error ("unable to parse entries.toml in backend '%s'", backend.c_str());
         return DISIR_STATUS_FS_ERROR;
     }
 
@@ -471,13 +471,14 @@ validate_archive_backend_entries (struct disir_archive *archive,
         if (entries_group_table == nullptr)
         {
             log_error ("unable to find the group '%s' in entries.toml, in backend '%s'",
-                        group.as<std::string>(), backend);
+                        group.as<std::string>().c_str(), backend.c_str());
             return DISIR_STATUS_NOT_EXIST;
         }
 
         if (entries_group_table->is<toml::Table>() == false)
         {
-            log_error ("group '%s' in '%s' is not a toml table", group.as<std::string>(), backend);
+            log_error ("group '%s' in '%s' is not a toml table",
+                        group.as<std::string>().c_str(), backend.c_str());
             return DISIR_STATUS_WRONG_VALUE_TYPE;
         }
 
@@ -624,7 +625,8 @@ dx_archive_validate (struct disir_archive *archive,
         auto groups = entry.find (ATTRIBUTE_KEY_GROUPS);
         if (groups == nullptr)
         {
-            log_error ("key 'groups' not present in backend '%s'", id->as<std::string>());
+            log_error ("key 'groups' not present in backend '%s'",
+                        id->as<std::string>().c_str());
             return DISIR_STATUS_NOT_EXIST;
         }
 
@@ -636,7 +638,8 @@ dx_archive_validate (struct disir_archive *archive,
 
         if (groups->empty())
         {
-            log_error ("'groups' array in backend '%s' is empty", id->as<std::string>());
+            log_error ("'groups' array in backend '%s' is empty",
+                        id->as<std::string>().c_str());
             return DISIR_STATUS_NOT_EXIST;
         }
 
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 3b5d73b..0316671 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -54,7 +54,8 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
         auto iter = extract_content.find (id->as<std::string>() + "/entries.toml");
         if (iter == extract_content.end())
         {
-            log_error ("cannot find entries.toml for backend '%s' in map", id->as<std::string>());
+            log_error ("cannot find entries.toml for backend '%s' in map",
+                        id->as<std::string>().c_str());
             return DISIR_STATUS_NOT_EXIST;
         }
 
@@ -65,7 +66,8 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
 
         if (!pr.valid())
         {
-            log_error ("unable to parse entries.toml in backend '%s'", id->as<std::string>());
+            log_error ("unable to parse entries.toml in backend '%s'",
+                        id->as<std::string>().c_str());
             return DISIR_STATUS_FS_ERROR;
         }
 
@@ -195,7 +197,7 @@ append_config (struct disir_instance *instance, struct archive *archive,
     if (entry == NULL)
     {
         log_debug (3, "error creating new archive entry: %s",
-                       archive_errno (archive));
+                       archive_error_string (archive));
         return DISIR_STATUS_NO_MEMORY;
     }
 
@@ -219,7 +221,7 @@ append_config (struct disir_instance *instance, struct archive *archive,
 
         if (archive_write_data (archive, buf, read) < 0)
         {
-            log_error ("error writing to archive %s", archive_errno (archive));
+            log_error ("error writing to archive %s", archive_error_string (archive));
             status = DISIR_STATUS_FS_ERROR;
             goto out;
         }
@@ -227,7 +229,7 @@ append_config (struct disir_instance *instance, struct archive *archive,
 
     if (archive_write_finish_entry (archive) != ARCHIVE_OK)
     {
-        log_error ("could not finish archive write entry %s", archive_errno (archive));
+        log_error ("could not finish archive write entry %s", archive_error_string (archive));
         status = DISIR_STATUS_FS_ERROR;
         goto out;
     }
@@ -402,7 +404,7 @@ write_archive_metadata_toml (struct disir_archive *archive)
     if (entry == NULL)
     {
         log_debug (5, "error creating new archive entry: %s",
-                       archive_errno (archive->da_archive));
+                       archive_error_string (archive->da_archive));
         return DISIR_STATUS_NO_MEMORY;
     }
 
@@ -460,7 +462,7 @@ dx_archive_metadata_write (struct disir_archive *archive)
         if (entry == NULL)
         {
             log_error ("error creating new archive entry: %s",
-                        archive_errno (archive->da_archive));
+                        archive_error_string (archive->da_archive));
             return DISIR_STATUS_NO_MEMORY;
         }
 
@@ -474,7 +476,7 @@ dx_archive_metadata_write (struct disir_archive *archive)
         if (archive_write_data (archive->da_archive, str.c_str(), str.size()) < 0)
         {
             log_error ("error writing archive metadata.toml: %s",
-                        archive_errno (archive->da_archive));
+                        archive_error_string (archive->da_archive));
             status = DISIR_STATUS_FS_ERROR;
             goto error;
         }
-- 
2.43.0


From 2ddff659422532e4052b50065b540a2b84572a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 082/103] fix: an archive entry that could not be begun was
 ignored

---
 lib/disir_export.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 0316671..057746d 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -157,7 +157,7 @@ populate_archive_entry (struct archive *archive, struct archive_entry *entry,
     archive_entry_set_filetype (entry, AE_IFREG);
     archive_entry_set_perm (entry, 0644);
 
-    ret = archive_write_header (archive, entry) != ARCHIVE_OK;
+    ret = archive_write_header (archive, entry);
     if (ret != ARCHIVE_OK)
     {
         if (ret == ARCHIVE_FATAL)
-- 
2.43.0


From 4765d45e1d94a2dd7b31def233532164dbcf543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 083/103] fix: configs named like archive metadata were lost
 when an archive was extended

---
 lib/disir_export.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 057746d..1f79a40 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -568,10 +568,13 @@ dx_archive_begin_existing (struct disir_instance *instance, const char *archive_
     for (const auto& entry : extract_content)
     {
         // Ignore metadata files, they will be re-written in finalize.
-        if (entry.first.find ("entries.toml") != std::string::npos)
+        if (entry.first == METADATA_FILENAME)
             continue;
 
-        if (entry.first.find ("metadata.toml") != std::string::npos)
+        auto separator = entry.first.find ("/entries.toml");
+        if (separator != std::string::npos &&
+            write_archive->da_entries->count (entry.first.substr (0, separator)) &&
+            entry.first.substr (separator) == "/entries.toml")
             continue;
 
         status = append_config (instance, write_archive->da_archive, entry.second.c_str(),
-- 
2.43.0


From 50a6feb7575a040d92a13ca8ce0d2d99bfaebfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 084/103] fix: exporting configs lost file handles, unwritten
 data and configs that could not be read

---
 lib/disir_export.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 1f79a40..cafe91b 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -302,6 +302,15 @@ dx_archive_config_entries_write (struct disir_instance *instance, struct disir_a
         if (status != DISIR_STATUS_OK)
             goto out;
 
+        ret = fclose (entry_file);
+        entry_file = NULL;
+        if (ret != 0)
+        {
+            log_error ("unable to write temp config file: %s", filepath);
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
+
         status = serialize_entry_index (archive, config, group_id,
                                         current->de_entry_name, plugin->dp_name);
         if (status != DISIR_STATUS_OK)
@@ -340,6 +349,9 @@ out:
     if (entry_file)
         fclose (entry_file);
 
+    if (config)
+        disir_config_finished (&config);
+
     if (filepath[0] != '\0')
     {
         // Ignore failure condition
-- 
2.43.0


From 79346cb37745d969488d4a5769753f6fd2ecae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 085/103] fix: archive paths that are empty or too long were
 read and written out of bounds

---
 lib/disir_archive.cc | 8 ++++++++
 lib/disir_export.cc  | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index e6b3811..d0928c2 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -342,6 +342,14 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
 
     log_info("Finalizing archive to archive_path (%s)", archive_path);
 
+    // Make sure the archive path, and the names derived from it, can be handled
+    if (archive_path && (archive_path[0] == '\0' ||
+        strlen (archive_path) + strlen (".disir.backup") >= sizeof (extract_folder_path)))
+    {
+        disir_error_set (instance, "invalid archive path: '%s'", archive_path);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     // Make sure archive path is not a directory
     if (archive_path && archive_path[strlen (archive_path)-1] == '/')
     {
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index cafe91b..848bbf8 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -524,7 +524,7 @@ dx_archive_begin_existing (struct disir_instance *instance, const char *archive_
     const char *ext = NULL;
 
     // Make sure archive path is not a directory
-    if (archive_path[strlen(archive_path)-1] == '/')
+    if (archive_path[0] == '\0' || archive_path[strlen(archive_path)-1] == '/')
     {
         disir_error_set (instance, "invalid archive path: input path is a directory");
         return DISIR_STATUS_INVALID_ARGUMENT;
-- 
2.43.0


From 451994e9d065579e395dba9317ddca200100d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 086/103] fix: an archive that could not be finalized lost its
 file handle and memory

---
 lib/disir_archive.cc      | 2 ++
 lib/disir_archive_util.cc | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index d0928c2..9b652a4 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -408,6 +408,8 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
             status = DISIR_STATUS_FS_ERROR;
         }
 
+        ar->da_archive = NULL;
+
         if (status != DISIR_STATUS_OK)
         {
             goto out;
diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index dfa02c5..3ccba08 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -691,6 +691,13 @@ dx_archive_destroy (struct disir_archive *ar)
     struct stat st;
     int ret;
 
+    // Never closed, its content is not wanted
+    if (ar && ar->da_archive)
+    {
+        (void) archive_write_fail (ar->da_archive);
+        (void) archive_write_free (ar->da_archive);
+    }
+
     // Remove temp files
     if (ar && ar->da_extract_folder_path && stat (ar->da_extract_folder_path, &st) == 0)
     {
-- 
2.43.0


From f96ea53f02b7af280e469473a36f678d443e98b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 087/103] fix: exporting an archive could truncate or remove it
 and report success

---
 lib/disir_archive_util.cc | 50 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 3ccba08..6abd102 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -13,7 +13,9 @@ extern "C" {
 // external libs
 #include <archive.h>
 #include <archive_entry.h>
+#include <fcntl.h>
 #include <limits.h>
+#include <unistd.h>
 #include <fstream>
 #include <iostream>
 #include <ftw.h>
@@ -796,13 +798,47 @@ copy_file (const char *from, const char *to)
         return DISIR_STATUS_FS_ERROR;
     }
 
-    std::ofstream destination (to, std::ios::binary);
-    if (destination.is_open() == false)
+    // A symbolic link is kept; what it refers to is replaced.
+    char target[PATH_MAX];
+    std::string replaced = realpath (to, target) != NULL ? target : to;
+    std::string folder = replaced.substr (0, replaced.rfind ("/") + 1);
+
+    // Written under a temporary name, so that the target is whole at all times.
+    std::string temp;
+    int fd = -1;
+    for (int attempt = 0; fd < 0 && attempt < 100; attempt++)
+    {
+        temp = folder + ".disir." + std::to_string (getpid ()) + "." + std::to_string (attempt);
+        fd = open (temp.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0666);
+        if (fd < 0 && errno != EEXIST)
+            break;
+    }
+    if (fd < 0)
     {
         return DISIR_STATUS_FS_ERROR;
     }
 
+    // Keep who can access an archive that is replaced.
+    struct stat st;
+    if (stat (replaced.c_str(), &st) == 0)
+    {
+        if (fchown (fd, st.st_uid, st.st_gid) != 0)
+        {
+            // Not ours to give away.
+        }
+        (void) fchmod (fd, st.st_mode & 07777);
+    }
+    close (fd);
+
+    std::ofstream destination (temp, std::ios::binary);
     destination << source.rdbuf();
+    destination.close();
+
+    if (source.fail() || destination.fail() || rename (temp.c_str(), replaced.c_str()) != 0)
+    {
+        (void) remove (temp.c_str());
+        return DISIR_STATUS_FS_ERROR;
+    }
 
     return DISIR_STATUS_OK;
 }
@@ -817,6 +853,8 @@ dx_archive_disk_append (const char *new_archive_path, const char *existing_archi
     char backup_path[PATH_MAX];
     char archive_path_with_extension[4096];
     const char *ext = NULL;
+    struct stat existing;
+    struct stat exported;
 
     strcpy (archive_path_with_extension, new_archive_path);
     backup_path[0] = '\0';
@@ -851,6 +889,14 @@ dx_archive_disk_append (const char *new_archive_path, const char *existing_archi
             return DISIR_STATUS_FS_ERROR;
         }
 
+        // Both paths may refer to the same archive.
+        if (stat (existing_archive_path, &existing) == 0 &&
+            stat (archive_path_with_extension, &exported) == 0 &&
+            existing.st_dev == exported.st_dev && existing.st_ino == exported.st_ino)
+        {
+            return DISIR_STATUS_OK;
+        }
+
         ret = remove (existing_archive_path);
         if (ret != 0)
         {
-- 
2.43.0


From 8ba4fada5f38e50bcfd4bf39122a2bc424d3ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 088/103] fix: a long import message was written beyond its
 buffer

---
 lib/disir_import.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 0c1b01f..17062fe 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -31,11 +31,18 @@ import_info_set (struct disir_import_entry *entry, const char *message, ...)
 
     if (entry->ie_info)
         free (entry->ie_info);
+    entry->ie_info = NULL;
 
     va_start (args, message);
     msgsize = vsnprintf (buf, 1000, message, args);
     va_end (args);
 
+    // What did not fit is left out
+    if (msgsize < 0)
+        return;
+    if (msgsize >= (int) sizeof (buf))
+        msgsize = sizeof (buf) - 1;
+
     entry->ie_info = (char *)malloc (sizeof (char) * msgsize + 1);
     buf[msgsize] = '\0';
 
-- 
2.43.0


From 4088da2f37b89824232f2def4b1bba6e395d544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 089/103] fix: imports leaked molds and entries, and an empty
 or discarded one was freed wrongly

---
 lib/disir_archive.cc |  1 +
 lib/disir_import.c   | 12 ++++++------
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index 9b652a4..e97924c 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -96,6 +96,7 @@ archive_import_config_entries (struct disir_instance *instance,
             status != DISIR_STATUS_CONFIG_INVALID &&
             status != DISIR_STATUS_CONFLICTING_SEMVER)
         {
+            dx_import_entry_destroy (entry);
             goto error;
         }
 
diff --git a/lib/disir_import.c b/lib/disir_import.c
index 17062fe..0b6759e 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -249,7 +249,8 @@ dx_resolve_config_import_status (struct disir_instance *instance, const char *co
     if (status != DISIR_STATUS_OK)
     {
         // logged and error set
-        return DISIR_STATUS_NO_CAN_DO;
+        status = DISIR_STATUS_NO_CAN_DO;
+        goto out;
     }
 
     status = read_config_imported (instance, config_path, import->ie_group_id,
@@ -542,7 +543,9 @@ disir_import_finalize (struct disir_instance *instance, enum disir_import_option
     {
     case DISIR_IMPORT_DISCARD:
     {
-        return dx_import_destroy (*import);
+        status = dx_import_destroy (*import);
+        *import = NULL;
+        return status;
     }
     case DISIR_IMPORT_DO:
     {
@@ -663,16 +666,13 @@ dx_import_destroy (struct disir_import *entry)
     if (entry == NULL)
         return DISIR_STATUS_OK;
 
-    i = entry->di_num_entries - 1;
-
     if (entry->di_entries)
     {
-        do
+        for (i = 0; i < entry->di_num_entries; i++)
         {
             if (entry->di_entries[i] != NULL)
                 dx_import_entry_destroy (entry->di_entries[i]);
         }
-        while (i--);
 
         free (entry->di_entries);
     }
-- 
2.43.0


From 26af36eeabeff99831d8f92f5d10e1238911ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 090/103] fix: one entry that could not be imported refused the
 whole archive

---
 lib/disir_import.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 0b6759e..8b59aaf 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -275,7 +275,13 @@ dx_resolve_config_import_status (struct disir_instance *instance, const char *co
         // Plugin does not support reading from FILE
         else if (status == DISIR_STATUS_NO_CAN_DO)
         {
-            import_info_set (import, "group does implement support for import");
+            import_info_set (import, "group does not implement support for import");
+        }
+        // Nothing else can be said about it
+        else if (status != DISIR_STATUS_NO_MEMORY)
+        {
+            import_info_set (import, "archive entry is invalid");
+            status = DISIR_STATUS_CONFIG_INVALID;
         }
         goto out;
     }
@@ -287,6 +293,10 @@ dx_resolve_config_import_status (struct disir_instance *instance, const char *co
         status != DISIR_STATUS_NOT_EXIST)
     {
         import_info_set (import, "archive entry cannot be imported");
+        if (status != DISIR_STATUS_CONFIG_INVALID && status != DISIR_STATUS_NO_MEMORY)
+        {
+            status = DISIR_STATUS_NO_CAN_DO;
+        }
     }
     // If equivalent config does not exist on the system
     if (status == DISIR_STATUS_NOT_EXIST)
-- 
2.43.0


From 333bfe30d0b4ec152d431d0f6ad56cc7f58ca15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 091/103] fix: an archive that could not be extracted was
 refused without an error message

---
 lib/disir_archive.cc | 3 +++
 lib/disir_export.cc  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index e97924c..487a8fa 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -156,7 +156,10 @@ disir_archive_import (struct disir_instance *instance, const char *archive_path,
 
     status = dx_archive_extract (archive_path, archive_content, tmp_dir_name);
     if (status != DISIR_STATUS_OK)
+    {
+        disir_error_set (instance, "unable to extract archive: '%s'", archive_path);
         goto out;
+    }
 
     status = dx_archive_validate (archive, archive_content);
     if (status != DISIR_STATUS_OK)
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 848bbf8..f776715 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -563,7 +563,10 @@ dx_archive_begin_existing (struct disir_instance *instance, const char *archive_
 
     status = dx_archive_extract (archive_path, extract_content, tmp_dir_name);
     if (status != DISIR_STATUS_OK)
+    {
+        disir_error_set (instance, "unable to extract archive: '%s'", archive_path);
         goto out;
+    }
 
     status = dx_archive_validate (write_archive, extract_content);
     if (status != DISIR_STATUS_OK)
-- 
2.43.0


From 9a9e1abe81f7220aa26808dc698c023098385326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 092/103] fix: archives begun within the same second shared
 their temporary file

---
 lib/disir_archive_util.cc | 60 +++++++++------------------------------
 1 file changed, 13 insertions(+), 47 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 6abd102..213bce5 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -19,7 +19,6 @@ extern "C" {
 #include <fstream>
 #include <iostream>
 #include <ftw.h>
-#include <ctime>
 
 //! INTERNAL API
 char *dx_archive_create_temp_folder (void)
@@ -250,31 +249,14 @@ out:
     return status;
 }
 
-//! STATIC FUNCTION
-static void
-dx_random_string (unsigned int length, unsigned int seed, char *dest)
-{
-    std::srand (std::time (0) + seed);
-
-    for (auto i = 0u ; i < length; i++)
-    {
-        *(dest++) = std::rand() % 25 + 97;
-    }
-
-    *dest = '\0';
-}
-
 //! INTERNAL API
 enum disir_status
 dx_archive_open_write (struct disir_archive *archive)
 {
     enum disir_status status;
-    char temp_archive_path[PATH_MAX];
-    char random_suffix[20];
+    char temp_archive_path[] = "/tmp/arc.XXXXXX";
     struct archive *ar;
-    struct stat st;
-    int ret;
-    int retry_count = 1;
+    int fd;
 
     if (archive == NULL)
     {
@@ -305,37 +287,20 @@ dx_archive_open_write (struct disir_archive *archive)
         goto out;
     }
 
-    // Seed until temp file path is unique
-    while (retry_count <= 100)
+    fd = mkstemp (temp_archive_path);
+    if (fd < 0)
     {
-        dx_random_string (10, retry_count, random_suffix);
-        temp_archive_path[0] = '\0';
-        snprintf (temp_archive_path, PATH_MAX, "/tmp/arc.%s", random_suffix);
-
-        archive->da_temp_archive_path = strdup (temp_archive_path);
-        if (archive->da_temp_archive_path == NULL)
-        {
-            status = DISIR_STATUS_NO_MEMORY;
-        }
-        ret = stat (temp_archive_path, &st);
-        if (ret == 0)
-        {
-            log_debug (3, "archive with temp name '%s' already exists, retrying...",
-                          temp_archive_path);
-            status = DISIR_STATUS_FS_ERROR;
-        }
-        else
-        {
-            status = DISIR_STATUS_OK;
-            break;
-        }
-        retry_count++;
+        log_error ("unable to create temp archive: %s", strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+        goto out;
     }
+    close (fd);
 
-    if (status != DISIR_STATUS_OK)
+    archive->da_temp_archive_path = strdup (temp_archive_path);
+    if (archive->da_temp_archive_path == NULL)
     {
-        log_error ("archive with temp name '%s' already exists, failed after %d retries",
-                   temp_archive_path, retry_count);
+        (void) remove (temp_archive_path);
+        status = DISIR_STATUS_NO_MEMORY;
         goto out;
     }
 
@@ -343,6 +308,7 @@ dx_archive_open_write (struct disir_archive *archive)
     {
         log_error ("unable open archive on path '%s': %s",
                    temp_archive_path, archive_error_string (ar));
+        (void) remove (temp_archive_path);
         status = DISIR_STATUS_FS_ERROR;
         goto out;
     }
-- 
2.43.0


From 435b6209bf4a88c9f17d33faac1c05d372df0250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 093/103] fix: appending a group that could not be listed
 leaked what was listed

---
 lib/disir_archive.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index 487a8fa..62e432f 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -271,6 +271,12 @@ disir_archive_append_group (struct disir_instance *instance, struct disir_archiv
     status = disir_config_entries (instance, group_id, &config_entries);
     if (status != DISIR_STATUS_OK)
     {
+        while (config_entries != NULL)
+        {
+            struct disir_entry *next = config_entries->next;
+            disir_entry_finished (&config_entries);
+            config_entries = next;
+        }
         return status;
     }
 
-- 
2.43.0


From 37fc3420d0fff931681ea310bf660958f6c3b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 094/103] fix: importing replaced an existing config newer than
 its mold without being forced

---
 lib/disir_import.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 8b59aaf..676dc66 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -142,6 +142,12 @@ import_determine_conflict (struct disir_instance *instance,
     }
     else if (status != DISIR_STATUS_OK)
     {
+        if (status == DISIR_STATUS_CONFLICTING_SEMVER)
+        {
+            // The existing entry is newer than its mold: not to be replaced unless forced
+            import_info_set (current, "existing entry is newer than system version");
+            current->ie_conflict = 1;
+        }
         status = status == DISIR_STATUS_INVALID_CONTEXT ? DISIR_STATUS_CONFIG_INVALID : status;
         goto out;
     }
-- 
2.43.0


From 0bafb7dd45a635d5c5c3496b4fc934ddd35203db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:09 +0000
Subject: [PATCH 095/103] fix: an archive that could not be finalized still
 kept its file open

---
 lib/disir_archive_util.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 213bce5..f64b91b 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -662,7 +662,6 @@ dx_archive_destroy (struct disir_archive *ar)
     // Never closed, its content is not wanted
     if (ar && ar->da_archive)
     {
-        (void) archive_write_fail (ar->da_archive);
         (void) archive_write_free (ar->da_archive);
     }
 
-- 
2.43.0


From 5d5d528c730a541c7bf17cb9d39c8ee4269b227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 096/103] fix: archives listed only the last entry of a group
 with a dot in its name

---
 lib/disir_export.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index f776715..3351751 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -108,7 +108,7 @@ serialize_entry_index (struct disir_archive *archive, struct disir_config *confi
 
     plugin_entries = (*archive->da_entries)[plugin_name];
 
-    group_entries = plugin_entries->find (group_id);
+    group_entries = plugin_entries->findChild (group_id);
     if (group_entries == NULL)
     {
         group_entries = plugin_entries->setChild (group_id, toml::Table());
-- 
2.43.0


From 76a773cd11cf395a742c5ebd76afb66da33b01a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:39 +0000
Subject: [PATCH 097/103] fix: an archived entry named as the folder of another
 could not be read back

---
 lib/disir_archive_util.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index f64b91b..3fc03f3 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -100,6 +100,7 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
     const void *buff;
     const char *name;
     char path[PATH_MAX];
+    unsigned int count = 0;
 
     // Check for write permission
     status = dx_assert_write_permission (extract_path);
@@ -154,7 +155,8 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
             goto out;
         }
 
-        if (snprintf(path, PATH_MAX, "%s/%s", extract_path, name) >= PATH_MAX)
+        // Each in a folder of its own: the name of one entry may be the folder of another.
+        if (snprintf(path, PATH_MAX, "%s/%u/%s", extract_path, count++, name) >= PATH_MAX)
         {
             log_error ("archive entry name is too long");
             status = DISIR_STATUS_FS_ERROR;
@@ -163,7 +165,7 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
 
         if (archive_entry_filetype (entry) == AE_IFREG)
         {
-            extract_content.insert (std::make_pair (std::string (name), path));
+            extract_content[name] = path;
         }
         archive_entry_set_pathname (entry, path);
         archive_entry_set_perm (entry, archive_entry_filetype (entry) == AE_IFDIR ? 0700 : 0600);
-- 
2.43.0


From 5b167c13e03c9c0b8d54150a04175455f5038aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:01 +0000
Subject: [PATCH 098/103] fix: an archive whose temporary files could not be
 removed was not freed

---
 lib/disir_archive_util.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 3fc03f3..3314053 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -658,6 +658,7 @@ remove_folder_and_content (const char *fpath, const struct stat *sb,
 enum disir_status
 dx_archive_destroy (struct disir_archive *ar)
 {
+    enum disir_status status = DISIR_STATUS_OK;
     struct stat st;
     int ret;
 
@@ -676,7 +677,7 @@ dx_archive_destroy (struct disir_archive *ar)
         if (ret != 0)
         {
             // Already logged
-            return DISIR_STATUS_FS_ERROR;
+            status = DISIR_STATUS_FS_ERROR;
         }
     }
 
@@ -702,7 +703,7 @@ dx_archive_destroy (struct disir_archive *ar)
     if (ar)
         free (ar);
 
-    return DISIR_STATUS_OK;
+    return status;
 }
 
 //! INTERNAL API
-- 
2.43.0


From 33b66f3318bb4e345ad987dcc001f90735b5e6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 099/103] fix: a value of no type was reported to differ from
 itself

---
 lib/util.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/util.c b/lib/util.c
index d8dcaac..dfa0de1 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -302,6 +302,9 @@ dx_value_compare (struct disir_value *v1, struct disir_value *v2)
         return (v1->dv_float > v2->dv_float) - (v1->dv_float < v2->dv_float);
     case DISIR_VALUE_TYPE_BOOLEAN:
         return (v1->dv_boolean - v2->dv_boolean);
+    case DISIR_VALUE_TYPE_UNKNOWN:
+        // Neither holds a value.
+        return (0);
     default:
         return (INT_MIN);
     }
-- 
2.43.0


From 834b7f0d3a8336325797e2886deaa97dfdf44a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 100/103] fix: generating from a mold with a keyval of no
 default crashed

---
 lib/generate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/generate.c b/lib/generate.c
index 0d80fa8..423f6fa 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -95,6 +95,12 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
                 //
 
                 dx_default_get_active (equiv, version, &def);
+                if (def == NULL)
+                {
+                    log_debug_context (2, equiv, "has no default to generate an entry from");
+                    status = DISIR_STATUS_DEFAULT_MISSING;
+                    goto error;
+                }
 
                 status = dx_value_copy (&context->cx_keyval->kv_value, &def->de_value);
                 if (status != DISIR_STATUS_OK)
-- 
2.43.0


From c647975990197d124090f845ecd8cdaebfcf1a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:44 +0000
Subject: [PATCH 101/103] fix: writing a name shared by a section and a keyval
 as TOML aborted

---
 3rdparty/tinytoml/toml.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 0de9e3f..ec9a861 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -385,6 +385,7 @@ public:
     static std::string escapeKey(const std::string& key);
     static std::string escapeString(const std::string& s);
     static bool tableContainsKeyval(const Value& value);
+    static bool isArrayOfTables(const Value& value);
 
 private:
     std::ostream& output_;
@@ -2052,6 +2053,21 @@ inline bool Writer::tableContainsKeyval(const Value& value)
     return false;
 }
 
+// static
+// Determine if the input Value is an array with nothing but tables in it.
+inline bool Writer::isArrayOfTables(const Value& value)
+{
+    if (!value.is<Array>() || value.size() == 0)
+        return false;
+
+    for (const auto& v : *value.array_) {
+        if (!v.is<Table>())
+            return false;
+    }
+
+    return true;
+}
+
 inline void Writer::writeDatetime(const Value& value)
 {
     time_t tt = std::chrono::system_clock::to_time_t(*(value.time_));
@@ -2083,7 +2099,7 @@ inline void Writer::writeTableCatagorizedLexicographical(const Value& value, con
     for (const auto& kv : *value.table_) {
         if (kv.second.is<Table>())
             continue;
-        if (kv.second.is<Array>() && kv.second.size() > 0 && kv.second.find(0)->is<Table>())
+        if (isArrayOfTables(kv.second))
             continue;
 
         if (writingTableCurrentIndex_ > 0)
@@ -2113,8 +2129,7 @@ inline void Writer::writeTableCatagorizedLexicographical(const Value& value, con
         }
 
         // Write array of tables
-        // Peak at the first entry. If its a table, than we assume the entire array is to spec.
-        if (kv.second.is<Array>() && kv.second.size() > 0 && kv.second.find(0)->is<Table>()) {
+        if (isArrayOfTables(kv.second)) {
             std::string key(keyPrefix);
             if (!keyPrefix.empty())
                 key += ".";
-- 
2.43.0


From 1ce391d1ce6644ad2d3df8bd7b933b2518101d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:44 +0000
Subject: [PATCH 102/103] fix: disir generate replaced an existing top-level
 config covered by the root namespace mold

---
 cli/command_generate.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/command_generate.cc b/cli/command_generate.cc
index 367880c..c7915c8 100644
--- a/cli/command_generate.cc
+++ b/cli/command_generate.cc
@@ -120,8 +120,8 @@ CommandGenerate::handle_command (std::vector<std::string> &args)
             // it is covered by a namespace mold
             // Either the entry is covered by the top-level namespace (if it exists)
             // or a subnamespace (which namespace_entry does not resolve
-            if ((root == NULL && namespaces.count ("/") == 1)
-                || (namespaces.count (namespace_entry) != 0 && configs.count (entry) == 0))
+            if (namespaces.count (root == NULL ? "/" : namespace_entry) != 0
+                && configs.count (entry) == 0)
             {
                 m_cli->verbose() << "Adding entry " << entry << " to available set."
                                  << " (namespace entry)" << std::endl;
-- 
2.43.0


From b4a96906cda4b2f7b12bbde871bc698ad1ac3d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:44 +0000
Subject: [PATCH 103/103] fix: disir import asked for ever when its input had
 ended

---
 cli/command_import.cc | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/cli/command_import.cc b/cli/command_import.cc
index aaf1569..bf9e954 100644
--- a/cli/command_import.cc
+++ b/cli/command_import.cc
@@ -189,7 +189,11 @@ CommandImport::prompt_finalize_yes_no_from_user ()
     do
     {
         std::cout << "\ndo you wish to commit the above changes? (y)es or (n)o ? ";
-        read_stdin (opt, 3);
+        if (read_stdin (opt, 3) < 0)
+        {
+            // no answer will ever come
+            return DISIR_IMPORT_DISCARD;
+        }
         switch (opt[0])
         {
         case 'y':
@@ -209,18 +213,20 @@ int
 CommandImport::read_stdin (char *opt, unsigned int length)
 {
     std::string input;
-    std::getline (std::cin, input);
+    std::fill (opt, opt + length, '\0');
 
-    if (input.length() > length)
+    if (!std::getline (std::cin, input))
     {
-        return(1);
+        return(-1);
     }
 
-    for (auto i = 0u; i < length || i < input.length(); i++)
+    if (input.length() > length)
     {
-        opt[i] = input[i];
+        return(1);
     }
 
+    input.copy (opt, length);
+
     return 0;
 }
 
@@ -233,7 +239,13 @@ CommandImport::read_option (enum disir_import_option& option)
     {
         std::cout << "import entry [a,u,s,i,f,d,?]? ";
 
-        if (read_stdin (&opt, 1))
+        int ret = read_stdin (&opt, 1);
+        if (ret < 0)
+        {
+            // no answer will ever come: abort
+            return(1);
+        }
+        if (ret)
         {
             opt = 'h';
         }
-- 
2.43.0

