From e1683f4b960e9db5753c0ae430b7ea7aa9ad2f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:31 +0000
Subject: [PATCH 01/31] fix: mark and relocate panic and ctrl-c prototypes
 during garbage collection

---
 core/kos_heap.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/kos_heap.c b/core/kos_heap.c
index 6837c5c..39f6769 100644
--- a/core/kos_heap.c
+++ b/core/kos_heap.c
@@ -1855,6 +1855,8 @@ static int mark_roots(KOS_CONTEXT ctx, KOS_MARK_CONTEXT *mark_ctx)
     TRY(mark_object_black(mark_ctx, inst->prototypes.generator_end_proto));
     TRY(mark_object_black(mark_ctx, inst->prototypes.thread_proto));
     TRY(mark_object_black(mark_ctx, inst->prototypes.module_proto));
+    TRY(mark_object_black(mark_ctx, inst->prototypes.panic_proto));
+    TRY(mark_object_black(mark_ctx, inst->prototypes.ctrl_c_proto));
 
     TRY(mark_object_black(mark_ctx, inst->modules.init_module));
     TRY(mark_object_black(mark_ctx, inst->modules.search_paths));
@@ -2454,6 +2456,8 @@ static void update_after_evacuation(KOS_CONTEXT ctx)
     update_child_ptr(&inst->prototypes.generator_end_proto);
     update_child_ptr(&inst->prototypes.thread_proto);
     update_child_ptr(&inst->prototypes.module_proto);
+    update_child_ptr(&inst->prototypes.panic_proto);
+    update_child_ptr(&inst->prototypes.ctrl_c_proto);
 
     update_child_ptr(&inst->modules.init_module);
     update_child_ptr(&inst->modules.search_paths);
-- 
2.43.0


From 110e07286d09882c587b5463b20229fd1e02fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:31 +0000
Subject: [PATCH 02/31] fix: do not count a pool against the heap limit when
 its header cannot be allocated

---
 core/kos_heap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/kos_heap.c b/core/kos_heap.c
index 39f6769..6b4b6d2 100644
--- a/core/kos_heap.c
+++ b/core/kos_heap.c
@@ -623,6 +623,7 @@ static KOS_POOL *alloc_pool(KOS_HEAP *heap,
     pool_hdr = (KOS_POOL *)KOS_malloc(sizeof(KOS_POOL));
 
     if ( ! pool_hdr) {
+        heap->heap_size -= alloc_size;
         KOS_free_aligned(pool);
         return KOS_NULL;
     }
-- 
2.43.0


From bbefb1a8af47a289c6581665c6dffa9584c96afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:31 +0000
Subject: [PATCH 03/31] fix: writing to a read-only buffer element fails
 instead of succeeding with a pending exception

---
 core/kos_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_vm.c b/core/kos_vm.c
index 1ae70ec..a0a915f 100644
--- a/core/kos_vm.c
+++ b/core/kos_vm.c
@@ -1210,7 +1210,7 @@ static int write_buffer(KOS_CONTEXT ctx, KOS_OBJ_ID objptr, int idx, KOS_OBJ_ID
     else {
         uint8_t *const buf = KOS_buffer_data_volatile(ctx, objptr);
         if ( ! buf)
-            goto cleanup;
+            RAISE_ERROR(KOS_ERROR_EXCEPTION);
         buf[idx] = (uint8_t)byte_value;
     }
 
-- 
2.43.0


From 7017e0d267bf5f739a2041997d8577a92b703583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:31 +0000
Subject: [PATCH 04/31] fix: check that the buffer for received data was
 allocated

---
 modules/kos_mod_io.c  | 4 +++-
 modules/kos_mod_net.c | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 0324bf8..cb15d99 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -857,8 +857,10 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
     buf.o = KOS_array_read(ctx, args.o, 1);
     TRY_OBJID(buf.o);
 
-    if (buf.o == KOS_VOID)
+    if (buf.o == KOS_VOID) {
         buf.o = KOS_new_buffer(ctx, 0);
+        TRY_OBJID(buf.o);
+    }
     else if (GET_OBJ_TYPE(buf.o) != OBJ_BUFFER)
         RAISE_EXCEPTION_STR(str_err_not_buffer);
 
diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 111a517..ab37593 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -975,8 +975,10 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
     buf.o = KOS_array_read(ctx, args.o, 1);
     TRY_OBJID(buf.o);
 
-    if (buf.o == KOS_VOID)
+    if (buf.o == KOS_VOID) {
         buf.o = KOS_new_buffer(ctx, 0);
+        TRY_OBJID(buf.o);
+    }
     else if (GET_OBJ_TYPE(buf.o) != OBJ_BUFFER)
         RAISE_EXCEPTION_STR(str_err_not_buffer);
 
@@ -1098,8 +1100,10 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
     buf.o = KOS_array_read(ctx, args.o, 1);
     TRY_OBJID(buf.o);
 
-    if (buf.o == KOS_VOID)
+    if (buf.o == KOS_VOID) {
         buf.o = KOS_new_buffer(ctx, 0);
+        TRY_OBJID(buf.o);
+    }
     else if (GET_OBJ_TYPE(buf.o) != OBJ_BUFFER)
         RAISE_EXCEPTION_STR(str_err_not_buffer);
 
-- 
2.43.0


From 105ca48bb509b63aad8b9e02296721438ea7f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:31 +0000
Subject: [PATCH 05/31] fix: raise an exception when memory runs out while
 parsing a regular expression

---
 modules/kos_mod_re.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/kos_mod_re.c b/modules/kos_mod_re.c
index e0a5e5a..7749020 100644
--- a/modules/kos_mod_re.c
+++ b/modules/kos_mod_re.c
@@ -1361,6 +1361,8 @@ static int parse_re(KOS_CONTEXT ctx, KOS_OBJ_ID regex_str, KOS_OBJ_ID regex)
         re_ctx.buf.size = 0;
         if ( ! KOS_string_to_cstr_vec(ctx, regex_str, &re_ctx.buf))
             re_cstr = re_ctx.buf.buffer;
+        else
+            KOS_clear_exception(ctx);
 
         disassemble(re, re_cstr);
     }
@@ -1368,6 +1370,11 @@ static int parse_re(KOS_CONTEXT ctx, KOS_OBJ_ID regex_str, KOS_OBJ_ID regex)
     KOS_object_set_private_ptr(regex, re);
 
 cleanup:
+    if (error == KOS_ERROR_OUT_OF_MEMORY) {
+        KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
+        error = KOS_ERROR_EXCEPTION;
+    }
+
     KOS_vector_destroy(&re_ctx.class_data);
     KOS_vector_destroy(&re_ctx.class_descs);
     KOS_vector_destroy(&re_ctx.buf);
-- 
2.43.0


From 8ee9f18d4cbcbb93b73c7d5ec2e45bc0e69e5b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:31 +0000
Subject: [PATCH 06/31] fix: a generator which could not be resumed is not left
 in running state

---
 core/kos_vm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/kos_vm.c b/core/kos_vm.c
index a0a915f..0ab432d 100644
--- a/core/kos_vm.c
+++ b/core/kos_vm.c
@@ -1112,8 +1112,9 @@ static int prepare_call(KOS_CONTEXT        ctx,
     }
 
 cleanup:
-    if (error && (stack_obj != ctx->stack || regs_idx != ctx->regs_idx)) {
-        kos_stack_pop(ctx);
+    if (error) {
+        if (stack_obj != ctx->stack || regs_idx != ctx->regs_idx)
+            kos_stack_pop(ctx);
 
         if (state_set)
             KOS_atomic_write_release_u32(OBJPTR(FUNCTION, func.o)->state, state);
-- 
2.43.0


From 9fa972ca9d20c9cd0d54e675a0c822b8649525ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:31 +0000
Subject: [PATCH 07/31] fix: propagate failure to read the argument of a
 resumed generator

---
 core/kos_vm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/kos_vm.c b/core/kos_vm.c
index 0ab432d..7ece382 100644
--- a/core/kos_vm.c
+++ b/core/kos_vm.c
@@ -1084,6 +1084,7 @@ static int prepare_call(KOS_CONTEXT        ctx,
                         num_args = KOS_get_array_size(args.o);
 
                         value = num_args ? KOS_array_read(ctx, args.o, 0) : KOS_VOID;
+                        TRY_OBJID(value);
                     }
 
                     write_to_yield_reg(ctx, value);
-- 
2.43.0


From be47204f9e6905259b4852caa0da193a3b12b57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:40 +0000
Subject: [PATCH 08/31] fix: kos.execute() fails when it runs out of memory

---
 modules/kos_mod_kos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_kos.c b/modules/kos_mod_kos.c
index 7a29e0f..99d0a2a 100644
--- a/modules/kos_mod_kos.c
+++ b/modules/kos_mod_kos.c
@@ -506,7 +506,7 @@ static KOS_OBJ_ID execute(KOS_CONTEXT ctx,
         if (data_size) {
             if (KOS_vector_resize(&data_cstr, data_size)) {
                 KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
-                goto cleanup;
+                RAISE_ERROR(KOS_ERROR_EXCEPTION);
             }
 
             memcpy(data_cstr.buffer, KOS_buffer_data_const(arg_id), data_size);
@@ -520,7 +520,7 @@ static KOS_OBJ_ID execute(KOS_CONTEXT ctx,
     if (name.o == KOS_VOID) {
         if (KOS_vector_resize(&name_cstr, 1)) {
             KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
-            goto cleanup;
+            RAISE_ERROR(KOS_ERROR_EXCEPTION);
         }
         name_cstr.buffer[0] = 0;
     }
-- 
2.43.0


From 8929aca5f91e86a04b9425ae302d998f1c063f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:40 +0000
Subject: [PATCH 09/31] fix: stop native value conversion when a buffer cannot
 be accessed

---
 core/kos_utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index 765b4cd..66dfcb7 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -2286,10 +2286,10 @@ int KOS_extract_native_value(KOS_CONTEXT           ctx,
                     RAISE_ERROR(KOS_ERROR_EXCEPTION);
                 }
 
-                data  = KOS_buffer_data_volatile(ctx, elem_id);
-                error = data ? KOS_SUCCESS : KOS_ERROR_EXCEPTION;
-                if (data)
-                    memcpy(value_ptr, data, convert->size);
+                data = KOS_buffer_data_volatile(ctx, elem_id);
+                if ( ! data)
+                    RAISE_ERROR(KOS_ERROR_EXCEPTION);
+                memcpy(value_ptr, data, convert->size);
                 break;
             }
         }
-- 
2.43.0


From 50cfd77cf1b991c6f8bbd12ab9e951d539c9afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:40 +0000
Subject: [PATCH 10/31] fix: discard the failure to use the executable's path
 before falling back to argv[0]

---
 interpreter/kos.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpreter/kos.c b/interpreter/kos.c
index 06744b1..a2cb3a8 100644
--- a/interpreter/kos.c
+++ b/interpreter/kos.c
@@ -216,8 +216,10 @@ int main(int argc, char *argv[])
         error = KOS_instance_add_default_path(ctx, KOS_NULL);
 
     /* Fallback: use argv[0] to find modules */
-    if (error)
+    if (error) {
+        KOS_clear_exception(ctx);
         error = KOS_instance_add_default_path(ctx, argv[0]);
+    }
 
     if (error) {
         fprintf(stderr, "Failed to setup module search paths\n");
-- 
2.43.0


From f35f660ef755c9235332bfc939061e2665322e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:20 +0000
Subject: [PATCH 11/31] fix: stop the interactive prompt when the Ctrl-C
 handler cannot be restored

---
 interpreter/kos.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interpreter/kos.c b/interpreter/kos.c
index a2cb3a8..c6b2ae0 100644
--- a/interpreter/kos.c
+++ b/interpreter/kos.c
@@ -497,8 +497,8 @@ static int run_interactive(KOS_CONTEXT ctx, KOS_VECTOR *buf)
         KOS_resume_context(ctx);
 
         hook_error = KOS_hook_ctrl_c(ctx);
-        if ( ! error)
-            error = hook_error;
+        if (hook_error)
+            RAISE_ERROR(hook_error);
 
         if (error) {
             if (error == KOS_ERROR_INTERRUPTED)
@@ -528,8 +528,8 @@ static int run_interactive(KOS_CONTEXT ctx, KOS_VECTOR *buf)
             KOS_resume_context(ctx);
 
             hook_error = KOS_hook_ctrl_c(ctx);
-            if ( ! error)
-                error = hook_error;
+            if (hook_error)
+                RAISE_ERROR(hook_error);
 
             if (error) {
                 assert(error == KOS_ERROR_OUT_OF_MEMORY ||
-- 
2.43.0


From f59aa9a425c183264122472a17e054aaddc8998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:16 +0000
Subject: [PATCH 12/31] fix: unregister roots when os.spawn() runs out of
 memory preparing the environment

---
 modules/kos_mod_os.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index ae9b900..eae9048 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -507,7 +507,7 @@ static int get_env_array(KOS_CONTEXT    ctx,
     array = (PROCESS_ARRAY)KOS_mempool_alloc(alloc, (est_num_env + 1) * sizeof(void *));
     if ( ! array) {
         KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
-        return KOS_ERROR_EXCEPTION;
+        RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
 
     out_ptr = array;
@@ -563,7 +563,7 @@ static int get_env_array(KOS_CONTEXT    ctx,
         buf = (char *)KOS_mempool_alloc(alloc, buf_size);
         if ( ! buf) {
             KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
-            return KOS_ERROR_EXCEPTION;
+            RAISE_ERROR(KOS_ERROR_EXCEPTION);
         }
 
         KOS_string_to_utf8(KOS_get_walk_key(in_obj.o), buf, key_len);
-- 
2.43.0


From ed82fb1a7f53078d23bb4bbade32cfeae3e95fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:47 +0000
Subject: [PATCH 13/31] fix: unregister the file root when setting position or
 size of a file fails

---
 modules/kos_mod_io.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index cb15d99..fe3a672 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -1512,7 +1512,9 @@ static KOS_OBJ_ID set_file_pos(KOS_CONTEXT ctx,
 
     assert(KOS_get_array_size(args_obj) >= 1);
 
-    TRY(acquire_file_object(ctx, this_obj, &file_holder));
+    KOS_init_local_with(ctx, &this_, this_obj);
+
+    TRY(acquire_file_object(ctx, this_.o, &file_holder));
 
     arg = KOS_array_read(ctx, args_obj, 0);
 
@@ -1523,8 +1525,6 @@ static KOS_OBJ_ID set_file_pos(KOS_CONTEXT ctx,
     if (pos < 0)
         whence = SEEK_END;
 
-    KOS_init_local_with(ctx, &this_, this_obj);
-
     KOS_suspend_context(ctx);
 
     errno = 0;
@@ -1538,12 +1538,12 @@ static KOS_OBJ_ID set_file_pos(KOS_CONTEXT ctx,
 
     KOS_resume_context(ctx);
 
-    this_obj = KOS_destroy_top_local(ctx, &this_);
-
 cleanup:
+    this_.o = KOS_destroy_top_local(ctx, &this_);
+
     release_file(file_holder);
 
-    return error ? KOS_BADPTR : this_obj;
+    return error ? KOS_BADPTR : this_.o;
 }
 
 /* @item io file.prototype.resize()
@@ -1578,7 +1578,9 @@ static KOS_OBJ_ID set_file_size(KOS_CONTEXT ctx,
 
     assert(KOS_get_array_size(args_obj) >= 1);
 
-    TRY(acquire_file_object(ctx, this_obj, &file_holder));
+    KOS_init_local_with(ctx, &this_, this_obj);
+
+    TRY(acquire_file_object(ctx, this_.o, &file_holder));
 
     arg = KOS_array_read(ctx, args_obj, 0);
     TRY_OBJID(arg);
@@ -1598,8 +1600,6 @@ static KOS_OBJ_ID set_file_size(KOS_CONTEXT ctx,
 
 #undef BAD_SIZE_CHECK
 
-    KOS_init_local_with(ctx, &this_, this_obj);
-
     KOS_suspend_context(ctx);
 
     errno = 0;
@@ -1664,12 +1664,12 @@ static KOS_OBJ_ID set_file_size(KOS_CONTEXT ctx,
 
     KOS_resume_context(ctx);
 
-    this_obj = KOS_destroy_top_local(ctx, &this_);
-
 cleanup:
+    this_.o = KOS_destroy_top_local(ctx, &this_);
+
     release_file(file_holder);
 
-    return error ? KOS_BADPTR : this_obj;
+    return error ? KOS_BADPTR : this_.o;
 }
 
 /* @item io file_lock()
-- 
2.43.0


From a7e69af795e6993bbed6a5088c6553a3e8275433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:39 +0000
Subject: [PATCH 14/31] fix: root the array printed by KOS_print_to_cstr_vec()
 while its elements are converted

---
 core/kos_utils.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index 66dfcb7..c74aca7 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -1273,32 +1273,35 @@ KOS_OBJ_ID KOS_object_to_string(KOS_CONTEXT ctx,
 }
 
 int KOS_print_to_cstr_vec(KOS_CONTEXT   ctx,
-                          KOS_OBJ_ID    array,
+                          KOS_OBJ_ID    array_obj,
                           KOS_QUOTE_STR quote_str,
                           KOS_VECTOR   *cstr_vec,
                           const char   *sep,
                           unsigned      sep_len)
 {
-    int      error = KOS_SUCCESS;
-    uint32_t len;
-    uint32_t i;
-    uint32_t first_sep_i;
+    int       error = KOS_SUCCESS;
+    KOS_LOCAL array;
+    uint32_t  len;
+    uint32_t  i;
+    uint32_t  first_sep_i;
 
     assert(cstr_vec);
-    assert(GET_OBJ_TYPE(array) == OBJ_ARRAY);
+    assert(GET_OBJ_TYPE(array_obj) == OBJ_ARRAY);
 
-    if (GET_OBJ_TYPE(array) != OBJ_ARRAY)
+    KOS_init_local_with(ctx, &array, array_obj);
+
+    if (GET_OBJ_TYPE(array.o) != OBJ_ARRAY)
         RAISE_EXCEPTION_STR(str_err_not_array);
 
     first_sep_i = cstr_vec->size ? 0U : 1U;
 
-    len = KOS_get_array_size(array);
+    len = KOS_get_array_size(array.o);
 
     if (len)
         TRY(KOS_vector_reserve(cstr_vec, cstr_vec->size + 128U));
 
     for (i = 0; i < len; i++) {
-        KOS_OBJ_ID obj = KOS_array_read(ctx, array, (int)i);
+        KOS_OBJ_ID obj = KOS_array_read(ctx, array.o, (int)i);
         TRY_OBJID(obj);
 
         if (i >= first_sep_i && sep_len) {
@@ -1316,6 +1319,8 @@ cleanup:
         error = KOS_ERROR_EXCEPTION;
     }
 
+    KOS_destroy_top_local(ctx, &array);
+
     return error;
 }
 
-- 
2.43.0


From db1a0eaecb06760de9c43828ff7177cc90db6925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:02 +0000
Subject: [PATCH 15/31] fix: root the function name looked up by
 KOS_module_run_function()

---
 core/kos_module.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/core/kos_module.c b/core/kos_module.c
index eb88e07..1ba6762 100644
--- a/core/kos_module.c
+++ b/core/kos_module.c
@@ -2018,36 +2018,41 @@ static void print_run_info(KOS_CONTEXT ctx,
 
 KOS_OBJ_ID KOS_module_run_function(KOS_CONTEXT               ctx,
                                    KOS_OBJ_ID                module_obj,
-                                   KOS_OBJ_ID                func_name,
+                                   KOS_OBJ_ID                func_name_obj,
                                    enum KOS_RUN_FUNC_FLAGS_E run_flags)
 {
     KOS_LOCAL  func;
+    KOS_LOCAL  func_name;
     KOS_OBJ_ID args;
     KOS_OBJ_ID ret = KOS_BADPTR;
+    int        error;
 
-    const int error = KOS_module_get_global(ctx, module_obj, func_name, &func.o, KOS_NULL);
+    KOS_init_local(ctx, &func);
+    KOS_init_local_with(ctx, &func_name, func_name_obj);
+
+    error = KOS_module_get_global(ctx, module_obj, func_name.o, &func.o, KOS_NULL);
 
     if (error) {
-        if (run_flags != KOS_FUNC_OPTIONAL)
-            return KOS_BADPTR;
+        if (run_flags == KOS_FUNC_OPTIONAL) {
+            KOS_clear_exception(ctx);
 
-        KOS_clear_exception(ctx);
+            print_run_info(ctx, module_obj, func_name.o, "Function ", " not found");
 
-        print_run_info(ctx, module_obj, func_name, "Function ", " not found");
+            ret = KOS_VOID;
+        }
 
-        return KOS_VOID;
+        goto cleanup;
     }
 
-    print_run_info(ctx, module_obj, func_name, "Running function ", "");
-
-    KOS_init_local_with(ctx, &func, func.o);
+    print_run_info(ctx, module_obj, func_name.o, "Running function ", "");
 
     args = KOS_array_slice(ctx, ctx->inst->args, 0, MAX_INT64);
 
     if ( ! IS_BAD_PTR(args))
         ret = KOS_call_function(ctx, func.o, KOS_VOID, args);
 
-    KOS_destroy_top_local(ctx, &func);
+cleanup:
+    KOS_destroy_top_locals(ctx, &func_name, &func);
 
     return ret;
 }
-- 
2.43.0


From 291c9f149219473051fa257800f74b3d3af7b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:33 +0000
Subject: [PATCH 16/31] fix: do not hold up garbage collection while a script
 is read from stdin

---
 core/kos_module.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/kos_module.c b/core/kos_module.c
index 1ba6762..38680e2 100644
--- a/core/kos_module.c
+++ b/core/kos_module.c
@@ -1827,8 +1827,12 @@ static int append_stdin(KOS_CONTEXT ctx, KOS_VECTOR *buf)
 
         TRY(KOS_vector_resize(buf, last_size + KOS_BUF_ALLOC_SIZE));
 
+        KOS_suspend_context(ctx);
+
         num_read = fread(buf->buffer + last_size, 1, KOS_BUF_ALLOC_SIZE, stdin);
 
+        KOS_resume_context(ctx);
+
         if (num_read < KOS_BUF_ALLOC_SIZE) {
 
             TRY(KOS_vector_resize(buf, last_size + num_read));
-- 
2.43.0


From d2ca6cd570081f2f2a25f898e9f1561fd6c283f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:58 +0000
Subject: [PATCH 17/31] fix: close a new socket when the object for it cannot
 be created

---
 modules/kos_mod_net.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index ab37593..8545e17 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -564,8 +564,12 @@ static KOS_OBJ_ID kos_socket(KOS_CONTEXT ctx,
                                          set_blocking));
 
     TRY(set_socket_object(ctx, ret.o, socket_fd, arg_domain));
+    socket_fd = KOS_INVALID_SOCKET;
 
 cleanup:
+    if (socket_fd != KOS_INVALID_SOCKET)
+        closesocket(socket_fd);
+
     ret.o = KOS_destroy_top_locals(ctx, &this_, &ret);
 
     return error ? KOS_BADPTR : ret.o;
@@ -629,6 +633,7 @@ static KOS_OBJ_ID kos_accept(KOS_CONTEXT ctx,
     TRY_OBJID(sock.o);
 
     TRY(set_socket_object(ctx, sock.o, socket_fd, socket_holder->family));
+    socket_fd = KOS_INVALID_SOCKET;
 
     ret.o = KOS_new_object(ctx);
     TRY_OBJID(ret.o);
@@ -636,6 +641,9 @@ static KOS_OBJ_ID kos_accept(KOS_CONTEXT ctx,
     TRY(KOS_set_property(ctx, ret.o, KOS_CONST_ID(str_socket), sock.o));
 
 cleanup:
+    if (socket_fd != KOS_INVALID_SOCKET)
+        closesocket(socket_fd);
+
     release_socket(socket_holder);
 
     ret.o = KOS_destroy_top_locals(ctx, &this_, &ret);
-- 
2.43.0


From 9373ee64414fcd89cb05942690332d65c2bb2265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:06 +0000
Subject: [PATCH 18/31] fix: close the status pipe when os.spawn() fails to
 create a process

---
 modules/kos_mod_os.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index eae9048..2f21466 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1325,6 +1325,11 @@ cleanup:
         CloseHandle(stdout_file);
     if (stderr_file != INVALID_HANDLE_VALUE)
         CloseHandle(stderr_file);
+#else
+    if (exec_status_fd[0] != -1)
+        close(exec_status_fd[0]);
+    if (exec_status_fd[1] != -1)
+        close(exec_status_fd[1]);
 #endif
 
     return error ? KOS_BADPTR : process.o;
-- 
2.43.0


From a48f40938efd1facaa7bde4c5fb41845618e17d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:44 +0000
Subject: [PATCH 19/31] fix: do not treat a non-string file in a backtrace as a
 string

---
 core/kos_instance.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/kos_instance.c b/core/kos_instance.c
index 2116d73..495e2fc 100644
--- a/core/kos_instance.c
+++ b/core/kos_instance.c
@@ -1017,8 +1017,10 @@ KOS_OBJ_ID KOS_format_exception(KOS_CONTEXT ctx,
 
         str = KOS_get_property(ctx, frame_desc.o, KOS_STR_FILE);
         TRY_OBJID(str);
-        str = KOS_get_file_name(ctx, str);
-        TRY_OBJID(str);
+        if (GET_OBJ_TYPE(str) == OBJ_STRING) {
+            str = KOS_get_file_name(ctx, str);
+            TRY_OBJID(str);
+        }
         TRY(KOS_object_to_string_or_cstr_vec(ctx, str, KOS_DONT_QUOTE, KOS_NULL, &cstr));
 
         TRY(KOS_append_cstr(ctx, &cstr, str_format_line,
-- 
2.43.0


From f395ff85a32e475c28001e1094b28fe69c7c3c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:44 +0000
Subject: [PATCH 20/31] fix: raise an exception when module.prototype.get() is
 not called on a module

---
 modules/kos_mod_base.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 417981c..202baf8 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -4930,6 +4930,9 @@ static KOS_OBJ_ID get_module_global(KOS_CONTEXT ctx,
     KOS_init_local_with(ctx, &this_, this_obj);
     KOS_init_local_with(ctx, &args,  args_obj);
 
+    if (GET_OBJ_TYPE(this_.o) != OBJ_MODULE)
+        RAISE_EXCEPTION_STR(str_err_not_module);
+
     name_obj = KOS_array_read(ctx, args.o, 0);
     TRY_OBJID(name_obj);
 
-- 
2.43.0


From 6bd1be95d761373196b959c5122056e902ac407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 21/31] fix: KOS_get_integer converted NaN to an integer

---
 core/kos_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index c74aca7..22bfbc2 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -180,7 +180,7 @@ int KOS_get_integer(KOS_CONTEXT ctx,
 
         case OBJ_FLOAT: {
             const double number = OBJPTR(FLOAT, obj_id)->value;
-            if (number <= -9223372036854775808.0 || number >= 9223372036854775808.0) {
+            if ( ! (number > -9223372036854775808.0 && number < 9223372036854775808.0)) {
                 KOS_raise_printf(ctx, "number %f is out of range for conversion to integer", number);
                 error = KOS_ERROR_EXCEPTION;
             }
-- 
2.43.0


From cb18ec99f8cfe154ff8fe07f1417575a350f160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 22/31] fix: constant folding converted out-of-range numbers to
 integers

---
 core/kos_compiler_optim.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index e8a5a86..3cfca43 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -1302,7 +1302,7 @@ static int optimize_binary_op(KOS_COMP_UNIT      *program,
         assert(op != OT_ADD && op != OT_SUB && op != OT_MUL && op != OT_DIV && op != OT_MOD);
 
         if (numeric_a.type == KOS_FLOAT_VALUE) {
-            if (numeric_a.u.d <= -9223372036854775808.0 || numeric_a.u.d >= 9223372036854775808.0) {
+            if ( ! (numeric_a.u.d > -9223372036854775808.0 && numeric_a.u.d < 9223372036854775808.0)) {
                 program->error_str   = str_err_number_out_of_range;
                 program->error_token = &a->token;
                 RAISE_ERROR(KOS_ERROR_COMPILE_FAILED);
@@ -1312,7 +1312,7 @@ static int optimize_binary_op(KOS_COMP_UNIT      *program,
         }
 
         if (numeric_b.type == KOS_FLOAT_VALUE) {
-            if (numeric_b.u.d <= -9223372036854775808.0 || numeric_b.u.d >= 9223372036854775808.0) {
+            if ( ! (numeric_b.u.d > -9223372036854775808.0 && numeric_b.u.d < 9223372036854775808.0)) {
                 program->error_str   = str_err_number_out_of_range;
                 program->error_token = &b->token;
                 RAISE_ERROR(KOS_ERROR_COMPILE_FAILED);
@@ -1461,6 +1461,11 @@ static int optimize_unary_op(KOS_COMP_UNIT      *program,
         assert(op == OT_NOT);
 
         if (numeric_a.type == KOS_FLOAT_VALUE) {
+            if ( ! (numeric_a.u.d > -9223372036854775808.0 && numeric_a.u.d < 9223372036854775808.0)) {
+                program->error_str   = str_err_number_out_of_range;
+                program->error_token = &a->token;
+                return KOS_ERROR_COMPILE_FAILED;
+            }
             numeric_a.u.i = (int64_t)floor(numeric_a.u.d);
             numeric_a.type = KOS_INTEGER_VALUE;
         }
-- 
2.43.0


From c4a5fdc59f30f6e92f2de3127ba92aa356fd55cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 23/31] fix: literal index out of integer range was converted
 by the compiler

---
 core/kos_compiler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 410e142..12eadfe 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -3546,6 +3546,8 @@ static int maybe_int(const KOS_AST_NODE *node,
         *value = numeric.u.i;
     else {
         assert(numeric.type == KOS_FLOAT_VALUE);
+        if ( ! (numeric.u.d > -9223372036854775808.0 && numeric.u.d < 9223372036854775808.0))
+            return 0;
         *value = (int64_t)floor(numeric.u.d);
     }
 
-- 
2.43.0


From 1a03fc4de039e8383891eb1f7de3258361486a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 24/31] fix: socket.wait accepted NaN as timeout

---
 modules/kos_mod_net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 8545e17..80fcf74 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -1266,7 +1266,7 @@ static KOS_OBJ_ID kos_wait(KOS_CONTEXT ctx,
             tv_usec = (uint64_t)timeout.u.i * 1000000U;
         }
         else {
-            if (timeout.u.d < 0 || timeout.u.d > 2147483647.0) {
+            if ( ! (timeout.u.d >= 0 && timeout.u.d <= 2147483647.0)) {
                 KOS_raise_printf(ctx, "timeout_sec argument %.6f is out of range",
                                  timeout.u.d);
                 RAISE_ERROR(KOS_ERROR_EXCEPTION);
-- 
2.43.0


From 187d7802908a5f87eaaa62b2f2b7736ffacf3632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 25/31] fix: threads.sleep accepted NaN

---
 modules/kos_mod_threads.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kos_mod_threads.c b/modules/kos_mod_threads.c
index 814f1a3..2835b8d 100644
--- a/modules/kos_mod_threads.c
+++ b/modules/kos_mod_threads.c
@@ -490,7 +490,7 @@ static KOS_OBJ_ID kos_sleep(KOS_CONTEXT ctx,
     else {
         assert(arg.type == KOS_FLOAT_VALUE);
 
-        if (arg.u.d < 0 || arg.u.d > 1000000.0) {
+        if ( ! (arg.u.d >= 0 && arg.u.d <= 1000000.0)) {
             KOS_raise_printf(ctx, "invalid sleep time %f seconds", arg.u.d);
             RAISE_ERROR(KOS_ERROR_EXCEPTION);
         }
-- 
2.43.0


From 7f3cbd24a18ecf3c3909192636201fddd79779a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 26/31] fix: socket timeout option checked its range after
 converting the value

---
 modules/kos_mod_net.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 80fcf74..2d0bb51 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -2369,26 +2369,28 @@ static int setsockopt_time(KOS_CONTEXT        ctx,
                            KOS_OBJ_ID         value)
 {
     KOS_NUMERIC    numeric = KOS_get_numeric(value);
-    uint64_t       tv_usec;
+    uint64_t       tv_usec     = 0;
 #ifdef _WIN32
     DWORD          time_value;
 #else
     struct timeval time_value;
 #endif
-    int            positive    = 0;
+    int            in_range    = 0;
     int            error       = 0;
     int            saved_errno = 0;
 
     switch (numeric.type) {
 
         case KOS_INTEGER_VALUE:
-            tv_usec  = (uint64_t)numeric.u.i * 1000000U;
-            positive = numeric.u.i >= 0;
+            in_range = numeric.u.i >= 0 && numeric.u.i <= 0x7FFFFFFF / 1000;
+            if (in_range)
+                tv_usec = (uint64_t)numeric.u.i * 1000000U;
             break;
 
         case KOS_FLOAT_VALUE:
-            tv_usec  = (uint64_t)floor(numeric.u.d * 1000000.0);
-            positive = numeric.u.d >= 0;
+            in_range = numeric.u.d >= 0 && numeric.u.d < 0x80000000U / 1000.0;
+            if (in_range)
+                tv_usec = (uint64_t)floor(numeric.u.d * 1000000.0);
             break;
 
         default:
@@ -2397,8 +2399,11 @@ static int setsockopt_time(KOS_CONTEXT        ctx,
             return KOS_ERROR_EXCEPTION;
     }
 
-    if ( ! positive || (tv_usec / 1000U) > 0x7FFFFFFFU) {
-        KOS_raise_printf(ctx, "value argument %" PRIu64 " us is out of range", tv_usec);
+    if ( ! in_range) {
+        if (numeric.type == KOS_INTEGER_VALUE)
+            KOS_raise_printf(ctx, "value argument %" PRId64 " is out of range", numeric.u.i);
+        else
+            KOS_raise_printf(ctx, "value argument %.6f is out of range", numeric.u.d);
         return KOS_ERROR_EXCEPTION;
     }
 
-- 
2.43.0


From db5b4b03c8f0f635427816f7035cd9d8132f73a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:37 +0000
Subject: [PATCH 27/31] fix: array.prototype.cas truncated its index to 32 bits

---
 modules/kos_mod_base.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 202baf8..32bb3fb 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -36,6 +36,7 @@ KOS_DECLARE_STATIC_CONST_STRING(str_err_bad_number,               "number parse
 KOS_DECLARE_STATIC_CONST_STRING(str_err_cannot_convert_to_array,  "unsupported type passed to array class");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_cannot_convert_to_buffer, "unsupported type passed to buffer class");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_cannot_convert_to_string, "unsupported type passed to string class");
+KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_array_index,      "array index is out of range");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_array_size,       "array size out of range");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_buffer_size,      "buffer size out of range");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_byte_value,       "buffer element value out of range");
@@ -3807,6 +3808,9 @@ static KOS_OBJ_ID array_cas(KOS_CONTEXT ctx,
 
     TRY(KOS_get_integer(ctx, pos_obj, &pos));
 
+    if (pos < -(int64_t)0x7FFFFFFF || pos > 0x7FFFFFFF)
+        RAISE_EXCEPTION_STR(str_err_invalid_array_index);
+
     ret = KOS_array_cas(ctx, this_obj, (int)pos, old_val, new_val);
 
 cleanup:
-- 
2.43.0


From 977731554c373ee1360172735028aff8a6c0eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:37 +0000
Subject: [PATCH 28/31] fix: socket send and receive flags were accepted and
 rejected the wrong way around

---
 modules/kos_mod_net.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 2d0bb51..5c3a4da 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -975,7 +975,7 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
     else
         TRY(KOS_get_integer(ctx, arg, &flags64));
 
-    if (flags64 & (MSG_OOB | MSG_PEEK | MSG_WAITALL)) {
+    if (flags64 & ~(int64_t)(MSG_OOB | MSG_PEEK | MSG_WAITALL)) {
         KOS_raise_printf(ctx, "flags argument 0x%" PRIx64 " contains unrecognized bits", flags64);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
@@ -1100,7 +1100,7 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
     else
         TRY(KOS_get_integer(ctx, arg, &flags64));
 
-    if (flags64 & (MSG_OOB | MSG_PEEK | MSG_WAITALL)) {
+    if (flags64 & ~(int64_t)(MSG_OOB | MSG_PEEK | MSG_WAITALL)) {
         KOS_raise_printf(ctx, "flags argument 0x%" PRIx64 " contains unrecognized bits", flags64);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
@@ -1729,7 +1729,7 @@ static KOS_OBJ_ID kos_send(KOS_CONTEXT ctx,
     else
         TRY(KOS_get_integer(ctx, arg, &flags64));
 
-    if (flags64 & (MSG_OOB | MSG_PEEK)) {
+    if (flags64 & ~(int64_t)(MSG_OOB | MSG_PEEK)) {
         KOS_raise_printf(ctx, "flags argument 0x%" PRIx64 " contains unrecognized bits", flags64);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
@@ -1826,7 +1826,7 @@ static KOS_OBJ_ID kos_sendto(KOS_CONTEXT ctx,
     else
         TRY(KOS_get_integer(ctx, arg, &flags64));
 
-    if (flags64 & (MSG_OOB | MSG_PEEK)) {
+    if (flags64 & ~(int64_t)(MSG_OOB | MSG_PEEK)) {
         KOS_raise_printf(ctx, "flags argument 0x%" PRIx64 " contains unrecognized bits", flags64);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
-- 
2.43.0


From 154e3e6cb4f5495489247f88c7f0d6e703e0a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:37 +0000
Subject: [PATCH 29/31] fix: socket.recv and recvfrom ignored errors and
 returned a byte less

---
 modules/kos_mod_net.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 5c3a4da..96d47f1 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -1008,8 +1008,19 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
 
     num_read = recv(get_socket(socket_holder), (char *)(data + offset), (DATA_LEN)to_read, (int)flags64);
 
-    if (num_read < -1)
-        saved_errno = get_error();
+    if (num_read < 0) {
+        const int recv_error = get_error();
+
+        /* No data is available on a non-blocking socket */
+#ifdef _WIN32
+        if (recv_error != WSAEWOULDBLOCK)
+#else
+        if (recv_error != EAGAIN && recv_error != EWOULDBLOCK)
+#endif
+            saved_errno = recv_error;
+
+        num_read = 0;
+    }
 
     KOS_resume_context(ctx);
 
@@ -1158,8 +1169,19 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
                         (struct sockaddr *)&addr,
                         &addr_len);
 
-    if (num_read < -1)
-        saved_errno = get_error();
+    if (num_read < 0) {
+        const int recv_error = get_error();
+
+        /* No data is available on a non-blocking socket */
+#ifdef _WIN32
+        if (recv_error != WSAEWOULDBLOCK)
+#else
+        if (recv_error != EAGAIN && recv_error != EWOULDBLOCK)
+#endif
+            saved_errno = recv_error;
+
+        num_read = 0;
+    }
 
     KOS_resume_context(ctx);
 
-- 
2.43.0


From f4a5f9f5dee22455418b45ac57b602a3be6a8310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:37 +0000
Subject: [PATCH 30/31] fix: socket.setsockopt truncated integer values to 32
 bits

---
 modules/kos_mod_net.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 96d47f1..573c644 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -2359,6 +2359,11 @@ static int setsockopt_int(KOS_CONTEXT        ctx,
     if (error)
         return error;
 
+    if (val64 < -0x7FFFFFFF || val64 > 0x7FFFFFFF) {
+        KOS_raise_printf(ctx, "value argument %" PRId64 " is out of range", val64);
+        return KOS_ERROR_EXCEPTION;
+    }
+
     int_value = (int)val64;
 
     KOS_suspend_context(ctx);
-- 
2.43.0


From 09c55392800281e77acb7dbac48c023ff88b3a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:34 +0000
Subject: [PATCH 31/31] fix: array sort modified read-only arrays and crashed
 when the key function resized the array

---
 modules/kos_mod_base.c | 58 ++++++++++++++----------------------------
 1 file changed, 19 insertions(+), 39 deletions(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 32bb3fb..f9e0bbf 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -2164,20 +2164,18 @@ static KOS_OBJ_ID expand_for_sort(KOS_CONTEXT ctx,
     KOS_LOCAL      iterable;
     KOS_LOCAL      key_func;
     KOS_LOCAL      key_args;
-    KOS_LOCAL      src;
     KOS_LOCAL      dest;
     KOS_LOCAL      val;
     KOS_LOCAL      expanded;
 
     assert(GET_OBJ_TYPE(iterable_obj) == OBJ_ARRAY);
 
-    KOS_init_locals(ctx, &iterable, &key_func, &key_args, &src, &dest, &val, &expanded, kos_end_locals);
+    KOS_init_locals(ctx, &iterable, &key_func, &key_args, &dest, &val, &expanded, kos_end_locals);
 
     iterable.o = iterable_obj;
     key_func.o = key_func_obj;
 
-    size  = KOS_get_array_size(iterable.o);
-    src.o = kos_get_array_storage(iterable.o);
+    size = KOS_get_array_size(iterable.o);
 
     expanded.o = KOS_new_array(ctx, size * step);
     TRY_OBJID(expanded.o);
@@ -2191,7 +2189,9 @@ static KOS_OBJ_ID expand_for_sort(KOS_CONTEXT ctx,
 
     while (i < size) {
 
-        val.o = KOS_atomic_read_relaxed_obj(OBJPTR(ARRAY_STORAGE, src.o)->buf[i]);
+        /* The key function or another thread can resize the array */
+        val.o = KOS_array_read(ctx, iterable.o, (int)i);
+        TRY_OBJID(val.o);
 
         if (key_func.o == KOS_VOID) {
             KOS_atomic_write_relaxed_ptr(OBJPTR(ARRAY_STORAGE, dest.o)->buf[i_dest],     val.o);
@@ -2308,38 +2308,6 @@ static void sort_range(KOS_ATOMIC(KOS_OBJ_ID) *begin,
         sort_range(mid + step, end + step, step, reverse);
 }
 
-static void copy_sort_results(KOS_CONTEXT ctx,
-                              KOS_OBJ_ID  ret,
-                              KOS_OBJ_ID  sorted,
-                              uint32_t    step)
-{
-    KOS_ATOMIC(KOS_OBJ_ID) *src;
-    KOS_ATOMIC(KOS_OBJ_ID) *src_end;
-    KOS_ATOMIC(KOS_OBJ_ID) *dest;
-
-    assert(GET_OBJ_TYPE(ret) == OBJ_ARRAY);
-    assert(GET_OBJ_TYPE(sorted) == OBJ_ARRAY);
-    assert(step == 2 || step == 3);
-
-    src     = kos_get_array_buffer(OBJPTR(ARRAY, sorted));
-    src_end = src + KOS_get_array_size(sorted);
-    dest    = kos_get_array_buffer(OBJPTR(ARRAY, ret));
-
-    assert(KOS_get_array_size(ret) * step == KOS_get_array_size(sorted));
-
-    if (step == 3)
-        src += 2;
-
-    while (src < src_end) {
-
-        const KOS_OBJ_ID val = KOS_atomic_read_relaxed_obj(*src);
-        KOS_atomic_write_relaxed_ptr(*dest, val);
-
-        src += step;
-        ++dest;
-    }
-}
-
 /* @item base array.prototype.sort()
  *
  *     array.prototype.sort(key = void, reverse = false)
@@ -2406,6 +2374,10 @@ static KOS_OBJ_ID sort(KOS_CONTEXT ctx,
         RAISE_EXCEPTION_STR(str_err_invalid_reverse_type);
 
     if (KOS_get_array_size(this_obj) > 1) {
+        const uint32_t step = (key == KOS_VOID) ? 2 : 3;
+        uint32_t       num_elems;
+        uint32_t       i;
+
         to_expand.o = this_obj;
         sort_key.o  = key;
 
@@ -2416,10 +2388,18 @@ static KOS_OBJ_ID sort(KOS_CONTEXT ctx,
 
         sort_range(src,
                    src + KOS_get_array_size(expanded.o),
-                   (sort_key.o == KOS_VOID) ? 2 : 3,
+                   step,
                    (int)KOS_get_bool(reverse_id));
 
-        copy_sort_results(ctx, to_expand.o, expanded.o, (sort_key.o == KOS_VOID) ? 2 : 3);
+        num_elems = KOS_get_array_size(expanded.o) / step;
+
+        for (i = 0; i < num_elems; i++) {
+
+            const KOS_OBJ_ID elem = KOS_array_read(ctx, expanded.o, (int)(i * step + ((step == 3) ? 2 : 0)));
+            TRY_OBJID(elem);
+
+            TRY(KOS_array_write(ctx, to_expand.o, (int)i, elem));
+        }
 
         this_obj = to_expand.o;
     }
-- 
2.43.0

