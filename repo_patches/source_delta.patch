From 6102d7cf670144b60ebcddb9cff4d4c8d9646434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:10 +0000
Subject: [PATCH 01/19] fix: retry short and interrupted writes in the number
 and raw-byte print functions

---
 crates/tribute-runtime/src/lib.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/crates/tribute-runtime/src/lib.rs b/crates/tribute-runtime/src/lib.rs
index 1520e5b..d5892de 100644
--- a/crates/tribute-runtime/src/lib.rs
+++ b/crates/tribute-runtime/src/lib.rs
@@ -141,10 +141,8 @@ unsafe extern "C" {
 pub extern "C" fn __tribute_print_int(value: i32) {
     let mut buf = itoa::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print an unsigned 32-bit integer to stdout, followed by a newline.
@@ -156,10 +154,8 @@ pub extern "C" fn __tribute_print_int(value: i32) {
 pub extern "C" fn __tribute_print_nat(value: u32) {
     let mut buf = itoa::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print a 64-bit float to stdout, followed by a newline.
@@ -171,10 +167,8 @@ pub extern "C" fn __tribute_print_nat(value: u32) {
 pub extern "C" fn __tribute_print_float(value: f64) {
     let mut buf = zmij::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print raw bytes to stdout (no newline appended).
@@ -197,9 +191,8 @@ pub unsafe extern "C" fn __tribute_print_bytes(ptr: *const u8, len: u64) {
     let Ok(len) = usize::try_from(len) else {
         return;
     };
-    unsafe {
-        write(1, ptr, len);
-    }
+    let bytes = unsafe { core::slice::from_raw_parts(ptr, len) };
+    write_stdout_all(bytes);
 }
 
 /// Print a newline character to stdout.
-- 
2.43.0


From bada32fea659f7146ed77711533301dd97f2a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:24 +0000
Subject: [PATCH 02/19] fix: keep folded core.i1 constants at 0 or 1

The arithmetic folds wrap to the signed range of the result width, so a
true core.i1 became -1. The backends hold booleans as 0/1: after folding,
'x xor true' compiled to 'x xor -1', which is non-zero for both values of x.
---
 crates/trunk-ir/src/transforms/canonicalize.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/trunk-ir/src/transforms/canonicalize.rs b/crates/trunk-ir/src/transforms/canonicalize.rs
index 1dcea4b..a618c45 100644
--- a/crates/trunk-ir/src/transforms/canonicalize.rs
+++ b/crates/trunk-ir/src/transforms/canonicalize.rs
@@ -164,6 +164,14 @@ impl RewritePattern for FoldDispatchPattern {
                     [t] => *t,
                     _ => return false,
                 };
+                // Folds wrap to the signed range of the result width, where a set
+                // `core.i1` is -1; the payload of a `core.i1` constant is 0 or 1.
+                let attr = match attr {
+                    Attribute::Int(v) if arith::core_int_width(ctx, result_ty) == Some(1) => {
+                        Attribute::Int(v & 1)
+                    }
+                    attr => attr,
+                };
                 let new_const = arith::r#const(ctx, loc, result_ty, attr);
                 rewriter.replace_op(new_const.op_ref());
                 true
-- 
2.43.0


From 17464276b720e44195edd3ca17c64819699e5cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:33 +0000
Subject: [PATCH 03/19] verif hook: record Cranelift ids of emitted symbols
 under cfg(verif_hooks)

---
 crates/trunk-ir-cranelift-backend/src/lib.rs  |  3 +++
 .../src/translate.rs                          |  7 +++++++
 .../src/verif_hooks.rs                        | 21 +++++++++++++++++++
 3 files changed, 31 insertions(+)
 create mode 100644 crates/trunk-ir-cranelift-backend/src/verif_hooks.rs

diff --git a/crates/trunk-ir-cranelift-backend/src/lib.rs b/crates/trunk-ir-cranelift-backend/src/lib.rs
index b6e8437..c4dc4e3 100644
--- a/crates/trunk-ir-cranelift-backend/src/lib.rs
+++ b/crates/trunk-ir-cranelift-backend/src/lib.rs
@@ -21,6 +21,9 @@ mod function;
 pub mod passes;
 mod translate;
 mod validation;
+#[allow(unexpected_cfgs)]
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 
 pub use errors::{CompilationError, CompilationErrorKind, CompilationResult};
 pub use translate::{RodataEntry, emit_module_to_native};
diff --git a/crates/trunk-ir-cranelift-backend/src/translate.rs b/crates/trunk-ir-cranelift-backend/src/translate.rs
index 18538ac..a9626e4 100644
--- a/crates/trunk-ir-cranelift-backend/src/translate.rs
+++ b/crates/trunk-ir-cranelift-backend/src/translate.rs
@@ -448,6 +448,13 @@ fn emit_module_impl(
         data_ids.insert(entry.symbol, data_id);
     }
 
+    #[allow(unexpected_cfgs)]
+    #[cfg(verif_hooks)]
+    crate::verif_hooks::record(
+        func_ids.iter().map(|(s, id)| (s.to_string(), id.as_u32())),
+        data_ids.iter().map(|(s, id)| (s.to_string(), id.as_u32())),
+    );
+
     // 4. Second pass — define functions
     let mut fb_ctx = FunctionBuilderContext::new();
 
diff --git a/crates/trunk-ir-cranelift-backend/src/verif_hooks.rs b/crates/trunk-ir-cranelift-backend/src/verif_hooks.rs
new file mode 100644
index 0000000..69e9da8
--- /dev/null
+++ b/crates/trunk-ir-cranelift-backend/src/verif_hooks.rs
@@ -0,0 +1,21 @@
+//! Observation hook for external verification, compiled only with `--cfg verif_hooks`:
+//! remembers which Cranelift id each symbol of the last emitted module received.
+use std::cell::RefCell;
+
+type Ids = Vec<(String, u32)>;
+
+thread_local! {
+    static LAST: RefCell<(Ids, Ids)> = const { RefCell::new((Vec::new(), Vec::new())) };
+}
+
+pub(crate) fn record(
+    functions: impl Iterator<Item = (String, u32)>,
+    data: impl Iterator<Item = (String, u32)>,
+) {
+    LAST.with(|l| *l.borrow_mut() = (functions.collect(), data.collect()));
+}
+
+/// `(functions, data)` of the last module emitted on this thread.
+pub fn take() -> (Ids, Ids) {
+    LAST.with(|l| std::mem::take(&mut *l.borrow_mut()))
+}
-- 
2.43.0


From 42bb2511510a1616485a9753ce805a2e15ba738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:00 +0000
Subject: [PATCH 04/19] fix: emit call_indirect with the type index of its
 signature

func_to_wasm leaves type_idx = 0 as a placeholder for the emitter, but the
emitter took the placeholder at face value, so every direct-style indirect
call named GC type 0 and the module was rejected by WebAssembly validators.
---
 .../src/emit/handlers/call_handlers.rs        | 43 ++++++++-----------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
index c4fb863..8bd4eb9 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
@@ -192,36 +192,27 @@ pub(crate) fn handle_call_indirect(
         ctx.types.get(result_ty).name
     );
 
-    // Get or compute type_idx
-    let attrs = &ctx.op(op).attributes;
-    let type_idx = match attr_u32(attrs, Symbol::new("type_idx")) {
-        Ok(idx) => {
-            debug!("call_indirect emit: using type_idx from attribute: {}", idx);
-            idx
-        }
-        Err(_) => {
-            // Look up type index
-            let idx = module_info
-                .type_idx_by_type
-                .get(&func_type)
-                .copied()
-                .ok_or_else(|| {
-                    debug!(
-                        "call_indirect emit: func_type not found in type_idx_by_type! func_type={:?}",
-                        func_type
-                    );
-                    CompilationError::invalid_module(
-                        "wasm.call_indirect function type not registered in type section",
-                    )
-                })?;
-            debug!("call_indirect emit: looked up type_idx: {}", idx);
-            idx
-        }
-    };
+    // The signature is authoritative: func_to_wasm leaves placeholder `type_idx`
+    // and `table` attributes for this phase to resolve.
+    let type_idx = module_info
+        .type_idx_by_type
+        .get(&func_type)
+        .copied()
+        .ok_or_else(|| {
+            debug!(
+                "call_indirect emit: func_type not found in type_idx_by_type! func_type={:?}",
+                func_type
+            );
+            CompilationError::invalid_module(
+                "wasm.call_indirect function type not registered in type section",
+            )
+        })?;
+    debug!("call_indirect emit: looked up type_idx: {}", type_idx);
 
     // call_indirect with i32 table index
     // IR operand order: [table_idx, arg1, arg2, ...]
     // WebAssembly stack order: [arg1, arg2, ..., table_idx]
+    let attrs = &ctx.op(op).attributes;
     let table = match attrs.get("table") {
         Some(_) => attr_u32(attrs, Symbol::new("table"))?,
         None => 0,
-- 
2.43.0


From 57380b673faef725bc6b206fa9bbc35522ab0744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:00 +0000
Subject: [PATCH 05/19] fix: lower every unsigned integer comparison to wasm

Nat::<=, Nat::> and Nat::>= become arith.cmpi with ule, ugt and uge, which
arith_to_wasm left behind; only i32 ult was lowered.
---
 crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
index a344721..e2f91bf 100644
--- a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
+++ b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
@@ -254,6 +254,13 @@ impl RewritePattern for ArithCmpPattern {
                 ("i32", "sge") => wasm_dialect::i32_ge_s(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 ("i64", "sge") => wasm_dialect::i64_ge_s(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 ("i32", "ult") => wasm_dialect::i32_lt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ult") => wasm_dialect::i64_lt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "ule") => wasm_dialect::i32_le_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ule") => wasm_dialect::i64_le_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "ugt") => wasm_dialect::i32_gt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ugt") => wasm_dialect::i64_gt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "uge") => wasm_dialect::i32_ge_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "uge") => wasm_dialect::i64_ge_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 _ => return false,
             };
             rewriter.replace_op(new_op);
-- 
2.43.0


From a4364f68286c24273465a3d13a388216186fd003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:09 +0000
Subject: [PATCH 06/19] fix: do not push a stray null for nil constants in wasm

wasm.nop of nil type pushed ref.null none that set_result_local never stores,
so a nil constant inside an if left a value on the stack and the module was
rejected by WebAssembly validators.
---
 crates/trunk-ir-wasm-backend/src/emit.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit.rs b/crates/trunk-ir-wasm-backend/src/emit.rs
index 1b7001e..d45233e 100644
--- a/crates/trunk-ir-wasm-backend/src/emit.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit.rs
@@ -958,12 +958,9 @@ fn emit_op_nested(
                 }));
                 set_result_local(ctx, op, emit_ctx, function)?;
             } else if is_nil_type(ctx, result_ty) {
-                debug!("wasm.nop: emitting ref.null none for nil type");
-                function.instruction(&Instruction::RefNull(HeapType::Abstract {
-                    shared: false,
-                    ty: AbstractHeapType::None,
-                }));
-                set_result_local(ctx, op, emit_ctx, function)?;
+                // A nil local already holds its default, ref.null none; pushing one
+                // here would stay on the stack, since nil results are never stored.
+                debug!("wasm.nop: nothing to emit for nil type");
             } else {
                 debug!("wasm.nop: skipping (unknown primitive type)");
             }
-- 
2.43.0


From aee5123a7afd58a754f357a9b009c5f63ac88e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:09 +0000
Subject: [PATCH 07/19] fix: keep the result of a wasm.if whose then branch
 leaves the function

Only the then branch decided whether wasm.if has a result; when it ended in a
return or a tail call the value of the else branch was dropped and later uses
read a zero local.
---
 .../src/emit/handlers/control_flow_handlers.rs      | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs
index fbdb6bc..cc3c31d 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs
@@ -73,14 +73,15 @@ pub(crate) fn handle_if(
     let operands = ctx.op_operands(op);
     let result_ty = ctx.op_result_types(op).first().copied();
 
-    // Check if we can actually get a result value from the then region
+    // Check if a branch provides a result value; the other one may leave the function
     let regions = &ctx.op(op).regions;
-    let then_region_result = regions.first().and_then(|r| region_result_value(ctx, *r));
-    let then_has_result_value = then_region_result.is_some();
+    let has_result_value = regions
+        .iter()
+        .any(|r| region_result_value(ctx, *r).is_some());
 
     debug!(
-        "wasm.if: then_has_result_value={}, result_ty={:?}",
-        then_has_result_value,
+        "wasm.if: has_result_value={}, result_ty={:?}",
+        has_result_value,
         result_ty.map(|ty| {
             let data = ctx.types.get(ty);
             format!("{}.{}", data.dialect, data.name)
@@ -90,7 +91,7 @@ pub(crate) fn handle_if(
     // Determine if we should use a result type
     // Use IR result type directly - type variables are resolved at AST level
     let has_result =
-        then_has_result_value && matches!(result_ty, Some(ty) if !helpers::is_nil_type(ctx, ty));
+        has_result_value && matches!(result_ty, Some(ty) if !helpers::is_nil_type(ctx, ty));
 
     let block_type = compute_block_type(ctx, has_result, result_ty, module_info)?;
 
-- 
2.43.0


From cf23e61d969a3a5fd7beb08db5577425c09edf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:57 +0000
Subject: [PATCH 08/19] fix: f32 constants were read as f32 bits from an f64
 payload

FloatBits holds the bits of an f64 whatever the type of the constant
(parser, printer and the attribute macros agree on that); the Cranelift and
WebAssembly lowering of arith.const took its low 32 bits as an f32, so
arith.const {value = 1.5} : core.f32 became 0.0.
---
 crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs | 2 +-
 crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs b/crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs
index 7826103..f2bbb72 100644
--- a/crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs
+++ b/crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs
@@ -149,7 +149,7 @@ impl RewritePattern for ArithConstPattern {
                 let Attribute::FloatBits(v) = value else {
                     return false;
                 };
-                clif::f32const(ctx, loc, result_ty, f32::from_bits(v as u32)).op_ref()
+                clif::f32const(ctx, loc, result_ty, f64::from_bits(v) as f32).op_ref()
             }
             "f64" => {
                 let Attribute::FloatBits(v) = value else {
diff --git a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
index e2f91bf..bb328a6 100644
--- a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
+++ b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
@@ -92,7 +92,7 @@ impl RewritePattern for ArithConstPattern {
                     warn!("arith.const: expected FloatBits for f32, got {:?}", value);
                     return false;
                 };
-                wasm_dialect::f32_const(ctx, loc, result_ty, f32::from_bits(v as u32)).op_ref()
+                wasm_dialect::f32_const(ctx, loc, result_ty, f64::from_bits(v) as f32).op_ref()
             }
             "f64" => {
                 let Attribute::FloatBits(v) = value else {
-- 
2.43.0


From 04f313e1d5f02c6b76be12e76309a87617c2161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:11 +0000
Subject: [PATCH 09/19] fix: variant_is used as a value failed Cranelift
 verification

---
 .../src/passes/adt_to_clif.rs                 | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs b/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs
index 157e1c9..021c638 100644
--- a/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs
+++ b/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs
@@ -203,8 +203,21 @@ impl RewritePattern for VariantIsPattern {
 
         let loc = ctx.op(op).location;
         let i32_ty = intern_i32_type(ctx);
-        let i1_ty = intern_i1_type(ctx);
         let ref_val = variant_is.r#ref(ctx);
+        let Some(result_ty) = ctx.op_result_types(op).first().copied() else {
+            return false;
+        };
+        let result_ty = rewriter
+            .type_converter()
+            .convert_type_or_identity(ctx, result_ty);
+        // Cranelift's icmp returns i8: widen it when the converted boolean is wider.
+        let i1_ty = intern_i1_type(ctx);
+        let cmp_ty = if result_ty == i1_ty {
+            i1_ty
+        } else {
+            ctx.types
+                .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i8")).build())
+        };
 
         // Load tag from payload_ptr + 0
         let tag_load = clif::load(ctx, loc, ref_val, i32_ty, 0);
@@ -217,13 +230,19 @@ impl RewritePattern for VariantIsPattern {
             loc,
             tag_val,
             expected.result(ctx),
-            i1_ty,
+            cmp_ty,
             Symbol::new("eq"),
         );
 
         rewriter.insert_op(tag_load.op_ref());
         rewriter.insert_op(expected.op_ref());
-        rewriter.replace_op(cmp_op.op_ref());
+        if result_ty == cmp_ty {
+            rewriter.replace_op(cmp_op.op_ref());
+        } else {
+            rewriter.insert_op(cmp_op.op_ref());
+            let extended = clif::uextend(ctx, loc, cmp_op.result(ctx), result_ty);
+            rewriter.replace_op(extended.op_ref());
+        }
         true
     }
 }
-- 
2.43.0


From c57c3ee49698a66106d00f09544c6f5e42f958b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:30 +0000
Subject: [PATCH 10/19] fix: tail and indirect calls rejected fresh objects and
 null as arguments

---
 .../tribute-passes/src/native/ownership_summary.rs  | 13 ++++++++++---
 crates/tribute-passes/src/native/rc_insertion.rs    |  2 +-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/tribute-passes/src/native/ownership_summary.rs b/crates/tribute-passes/src/native/ownership_summary.rs
index 1eadb0a..9d2f61b 100644
--- a/crates/tribute-passes/src/native/ownership_summary.rs
+++ b/crates/tribute-passes/src/native/ownership_summary.rs
@@ -673,7 +673,7 @@ fn collect_validated_call_contracts(
                     (true, false) => clif::ReturnCall::matches(ctx, op),
                     (true, true) => clif::ReturnCallIndirect::matches(ctx, op),
                 };
-                // Direct operands may be ABI-equivalent `core.ptr` values after conversion;
+                // Operands may be ABI-equivalent `core.ptr` values after conversion. For direct calls
                 // the already-validated callee entry contract is the exact parameter type proof.
                 let actions_match_types = if !expected.is_tail && !expected.is_indirect {
                     expected
@@ -697,14 +697,14 @@ fn collect_validated_call_contracts(
                         .zip(&expected.actions)
                         .all(|(&argument, action)| match (expected.is_tail, action) {
                             (true, RcOwnership::Plain) => !is_anyref_value(ctx, argument),
-                            (true, RcOwnership::Transfer) => is_anyref_value(ctx, argument),
+                            (true, RcOwnership::Transfer) => is_reference_value(ctx, argument),
                             (false, RcOwnership::Plain) => !is_anyref_value(ctx, argument),
                             (
                                 false,
                                 RcOwnership::Borrowed
                                 | RcOwnership::Retained
                                 | RcOwnership::Acquire,
-                            ) => is_anyref_value(ctx, argument),
+                            ) => is_reference_value(ctx, argument),
                             _ => false,
                         })
                 };
@@ -772,6 +772,13 @@ fn is_anyref_value(ctx: &IrContext, value: ValueRef) -> bool {
     ty.dialect == Symbol::new("tribute_rt") && ty.name == Symbol::new("anyref")
 }
 
+/// A managed reference, or the `core.ptr` that a freshly allocated object or null converts to.
+fn is_reference_value(ctx: &IrContext, value: ValueRef) -> bool {
+    let ty = ctx.types.get(ctx.value_ty(value));
+    is_anyref_value(ctx, value)
+        || (ty.dialect == Symbol::new("core") && ty.name == Symbol::new("ptr"))
+}
+
 fn lowers_to_anyref(ctx: &mut IrContext, value: ValueRef, type_converter: &TypeConverter) -> bool {
     let original = ctx.value_ty(value);
     let converted = type_converter.convert_type_or_identity(ctx, original);
diff --git a/crates/tribute-passes/src/native/rc_insertion.rs b/crates/tribute-passes/src/native/rc_insertion.rs
index b98854b..16749c4 100644
--- a/crates/tribute-passes/src/native/rc_insertion.rs
+++ b/crates/tribute-passes/src/native/rc_insertion.rs
@@ -775,7 +775,7 @@ fn insert_rc_in_function(
 ) {
     let mut ptr_values = collect_ptr_values(ctx, body);
 
-    if ptr_values.is_empty() {
+    if ptr_values.is_empty() && call_contracts.is_empty() {
         return;
     }
 
-- 
2.43.0


From a49a231ff630bd057edc94f6219bda45cafd0484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:30 +0000
Subject: [PATCH 11/19] fix: references handed to a block argument were
 released before their use

---
 .../tribute-passes/src/native/rc_insertion.rs | 49 +++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/crates/tribute-passes/src/native/rc_insertion.rs b/crates/tribute-passes/src/native/rc_insertion.rs
index 16749c4..0fcfb32 100644
--- a/crates/tribute-passes/src/native/rc_insertion.rs
+++ b/crates/tribute-passes/src/native/rc_insertion.rs
@@ -112,6 +112,18 @@ fn is_static_ptr(ctx: &IrContext, value: ValueRef) -> bool {
     false
 }
 
+/// Check that a value is defined and used in one block only, and never stored.
+fn is_confined_to_block(ctx: &IrContext, value: ValueRef, block: BlockRef) -> bool {
+    let ValueDef::OpResult(def_op, _) = ctx.value_def(value) else {
+        return false;
+    };
+    ctx.op(def_op).parent_block == Some(block)
+        && ctx.uses(value).iter().all(|use_ref| {
+            ctx.op(use_ref.user).parent_block == Some(block)
+                && !(clif::Store::matches(ctx, use_ref.user) && use_ref.operand_index == 0)
+        })
+}
+
 /// Check if a value is an intermediate allocation pointer.
 fn is_alloc_intermediate(ctx: &IrContext, value: ValueRef) -> bool {
     let ValueDef::OpResult(def_op, _) = ctx.value_def(value) else {
@@ -1333,6 +1345,43 @@ fn insert_rc_in_block(
         }
     }
 
+    // 3. A jump hands one reference to each managed block argument it feeds. The operand's own
+    //    reference is moved only when it is owned here and the value does not live past the jump.
+    if let Some(&last_op) = ops.last()
+        && clif::Jump::matches(ctx, last_op)
+        && let Some(&dest) = ctx.op(last_op).successors.first()
+    {
+        let mut handed_over: Vec<(ValueRef, usize)> = Vec::new();
+        for (&operand, &param) in ctx.op_operands(last_op).iter().zip(ctx.block_args(dest)) {
+            let owned = ptr_alias_map.get(&operand).copied().unwrap_or(operand);
+            let is_managed = ptr_values.contains(&owned);
+            if !(is_managed || is_anyref_value(ctx, param)) || is_static_ptr(ctx, owned) {
+                continue;
+            }
+            match handed_over.iter_mut().find(|(value, _)| *value == owned) {
+                Some((_, count)) => *count += 1,
+                None => handed_over.push((owned, 1)),
+            }
+        }
+        for (owned, count) in handed_over {
+            let moved = if ptr_values.contains(&owned) {
+                !live_out.contains(&owned)
+                    && !borrow_info.parameters.contains(&owned)
+                    && !borrow_info.temporaries.contains(&owned)
+            } else {
+                // An untracked `core.ptr`, such as a freshly allocated object.
+                is_confined_to_block(ctx, owned, block)
+            };
+            for _ in 0..count - usize::from(moved) {
+                let retain = tribute_rt::retain(ctx, ctx.op(last_op).location, owned, ptr_ty);
+                plan.before
+                    .entry(ops.len() - 1)
+                    .or_default()
+                    .push(retain.op_ref());
+            }
+        }
+    }
+
     let defs_in_block = liveness.def_set.get(&block).cloned().unwrap_or_default();
 
     // --- Release insertions ---
-- 
2.43.0


From 3cff4f4a3c0582870e15b651f0c5a74e715a28ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:38 +0000
Subject: [PATCH 12/19] fix: struct-typed views of managed objects outlived the
 object

---
 .../tribute-passes/src/native/rc_insertion.rs | 50 ++++++++++++++++---
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/crates/tribute-passes/src/native/rc_insertion.rs b/crates/tribute-passes/src/native/rc_insertion.rs
index 0fcfb32..549384a 100644
--- a/crates/tribute-passes/src/native/rc_insertion.rs
+++ b/crates/tribute-passes/src/native/rc_insertion.rs
@@ -112,14 +112,31 @@ fn is_static_ptr(ctx: &IrContext, value: ValueRef) -> bool {
     false
 }
 
-/// Check that a value is defined and used in one block only, and never stored.
-fn is_confined_to_block(ctx: &IrContext, value: ValueRef, block: BlockRef) -> bool {
-    let ValueDef::OpResult(def_op, _) = ctx.value_def(value) else {
-        return false;
+/// Check if a value is a pointer that RC insertion does not track.
+fn is_untracked_pointer(ctx: &IrContext, value: ValueRef) -> bool {
+    let ty = ctx.types.get(ctx.value_ty(value));
+    let is_number = if ty.dialect == Symbol::new("core") {
+        matches!(
+            ty.name.to_string().as_str(),
+            "i1" | "i8" | "i16" | "i32" | "i64" | "f32" | "f64" | "nil"
+        )
+    } else {
+        ty.dialect == Symbol::new("tribute_rt")
     };
-    ctx.op(def_op).parent_block == Some(block)
+    !is_number && !is_static_ptr(ctx, value)
+}
+
+/// Check if a value is defined in a block.
+fn is_defined_in_block(ctx: &IrContext, value: ValueRef, block: BlockRef) -> bool {
+    matches!(ctx.value_def(value), ValueDef::OpResult(op, _) if ctx.op(op).parent_block == Some(block))
+}
+
+/// Check that a value is defined and used in one block only, and never stored or aliased.
+fn is_confined_to_block(ctx: &IrContext, value: ValueRef, block: BlockRef) -> bool {
+    is_defined_in_block(ctx, value, block)
         && ctx.uses(value).iter().all(|use_ref| {
             ctx.op(use_ref.user).parent_block == Some(block)
+                && !core::UnrealizedConversionCast::matches(ctx, use_ref.user)
                 && !(clif::Store::matches(ctx, use_ref.user) && use_ref.operand_index == 0)
         })
 }
@@ -1263,7 +1280,8 @@ fn insert_rc_in_block(
         if contract.is_tail {
             let mut transfers: HashMap<ValueRef, (ValueRef, usize)> = HashMap::new();
             for (&argument, action) in args.iter().zip(&contract.actions) {
-                if *action != RcOwnership::Transfer {
+                // A typed view of a managed value keeps it alive in the callee as well.
+                if *action != RcOwnership::Transfer && !ptr_alias_map.contains_key(&argument) {
                     continue;
                 }
                 let owned = ptr_alias_map.get(&argument).copied().unwrap_or(argument);
@@ -1316,7 +1334,7 @@ fn insert_rc_in_block(
         if let Ok(_store_op) = clif::Store::from_op(ctx, op) {
             let operands = ctx.op_operands(op).to_vec();
             if let Some(&stored_val) = operands.first()
-                && is_anyref_value(ctx, stored_val)
+                && (is_anyref_value(ctx, stored_val) || ptr_alias_map.contains_key(&stored_val))
                 && !is_static_ptr(ctx, stored_val)
             {
                 let op_loc = ctx.op(op).location;
@@ -1328,6 +1346,24 @@ fn insert_rc_in_block(
             }
         }
 
+        // An untracked pointer that becomes a managed value keeps its own reference, unless it is
+        // a fresh allocation that nothing else refers to.
+        if core::UnrealizedConversionCast::matches(ctx, op)
+            && let Some(&input) = ctx.op_operands(op).first()
+            && ptr_values.contains(&ctx.op_result(op, 0))
+            && is_untracked_pointer(ctx, input)
+            && !(infer_alloc_size(ctx, input) > 0
+                && ctx.uses(input).len() == 1
+                && is_defined_in_block(ctx, input, block))
+        {
+            let managed = ctx.op_result(op, 0);
+            let retain_op = tribute_rt::retain(ctx, ctx.op(op).location, managed, ptr_ty);
+            plan.after
+                .entry(op_idx)
+                .or_default()
+                .push(retain_op.op_ref());
+        }
+
         if clif::Load::matches(ctx, op) {
             let result_ty = ctx.op_result_types(op).first().copied();
             if result_ty.is_some_and(|ty| is_anyref_type(ctx, ty)) {
-- 
2.43.0


From df6fd135488626e85024aa1a3481b3d32309ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:11 +0000
Subject: [PATCH 13/19] verif hook: record the external names of emitted
 functions under cfg(verif_hooks)

---
 .../trunk-ir-cranelift-backend/src/translate.rs  | 11 +++++++++++
 .../src/verif_hooks.rs                           | 16 +++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/crates/trunk-ir-cranelift-backend/src/translate.rs b/crates/trunk-ir-cranelift-backend/src/translate.rs
index a9626e4..1bee066 100644
--- a/crates/trunk-ir-cranelift-backend/src/translate.rs
+++ b/crates/trunk-ir-cranelift-backend/src/translate.rs
@@ -589,6 +589,17 @@ fn emit_module_impl(
             translator.builder.finalize();
         }
 
+        #[allow(unexpected_cfgs)]
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::record_names(
+            func_id.as_u32(),
+            cl_func
+                .params
+                .user_named_funcs()
+                .values()
+                .map(|n| (n.namespace, n.index)),
+        );
+
         // Compile the function via Cranelift
         let mut cr_ctx = Context::for_function(cl_func);
 
diff --git a/crates/trunk-ir-cranelift-backend/src/verif_hooks.rs b/crates/trunk-ir-cranelift-backend/src/verif_hooks.rs
index 69e9da8..91345a2 100644
--- a/crates/trunk-ir-cranelift-backend/src/verif_hooks.rs
+++ b/crates/trunk-ir-cranelift-backend/src/verif_hooks.rs
@@ -1,11 +1,15 @@
 //! Observation hook for external verification, compiled only with `--cfg verif_hooks`:
-//! remembers which Cranelift id each symbol of the last emitted module received.
+//! remembers which Cranelift id each symbol of the last emitted module received, and which
+//! id each external name of a function stands for.
 use std::cell::RefCell;
 
 type Ids = Vec<(String, u32)>;
+/// Function id, and `(namespace, index)` of each of its external names.
+type Names = Vec<(u32, Vec<(u32, u32)>)>;
 
 thread_local! {
     static LAST: RefCell<(Ids, Ids)> = const { RefCell::new((Vec::new(), Vec::new())) };
+    static NAMES: RefCell<Names> = const { RefCell::new(Vec::new()) };
 }
 
 pub(crate) fn record(
@@ -13,9 +17,19 @@ pub(crate) fn record(
     data: impl Iterator<Item = (String, u32)>,
 ) {
     LAST.with(|l| *l.borrow_mut() = (functions.collect(), data.collect()));
+    NAMES.with(|n| n.borrow_mut().clear());
+}
+
+pub(crate) fn record_names(function: u32, names: impl Iterator<Item = (u32, u32)>) {
+    NAMES.with(|n| n.borrow_mut().push((function, names.collect())));
 }
 
 /// `(functions, data)` of the last module emitted on this thread.
 pub fn take() -> (Ids, Ids) {
     LAST.with(|l| std::mem::take(&mut *l.borrow_mut()))
 }
+
+/// The external names of each function of the last module emitted on this thread.
+pub fn take_names() -> Names {
+    NAMES.with(|n| std::mem::take(&mut *n.borrow_mut()))
+}
-- 
2.43.0


From 5f2be0fe01479ca9ce69a4314ee641b56f698cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:11 +0000
Subject: [PATCH 14/19] fix: indexed byte access sign-extended the byte and did
 not check the index

__bytes_get_or_panic is documented to panic outside the length; it loaded past
the end of the data instead, and bytes from 0x80 on came back negative.
---
 .../src/native/intrinsic_to_native.rs         | 135 ++++++++++++++----
 1 file changed, 104 insertions(+), 31 deletions(-)

diff --git a/crates/tribute-passes/src/native/intrinsic_to_native.rs b/crates/tribute-passes/src/native/intrinsic_to_native.rs
index 85f98b3..67df846 100644
--- a/crates/tribute-passes/src/native/intrinsic_to_native.rs
+++ b/crates/tribute-passes/src/native/intrinsic_to_native.rs
@@ -10,16 +10,16 @@ use std::collections::HashSet;
 use std::rc::Rc;
 
 use trunk_ir::Symbol;
-use trunk_ir::context::IrContext;
-use trunk_ir::dialect::func;
-use trunk_ir::dialect::mem;
+use trunk_ir::context::{BlockData, IrContext, RegionData};
+use trunk_ir::dialect::{arith, func, mem, scf};
 use trunk_ir::ops::DialectOp;
-use trunk_ir::refs::OpRef;
+use trunk_ir::refs::{OpRef, RegionRef};
 use trunk_ir::rewrite::{
     ConversionError, ConversionTarget, LegalityDecision, Module, PatternApplicator,
     PatternRewriter, RewritePattern, TypeConverter,
 };
-use trunk_ir::types::TypeDataBuilder;
+use trunk_ir::smallvec::smallvec;
+use trunk_ir::types::{Attribute, Location, TypeDataBuilder};
 
 /// Lower bytes intrinsic calls to native mem operations.
 ///
@@ -73,11 +73,21 @@ pub fn lower(ctx: &mut IrContext, module: Module) -> Result<(), ConversionError>
 ///   offset 0: ptr (*const u8) - 8 bytes
 ///   offset 8: len (u64)       - 8 bytes
 ///
+/// Both the index (Nat = i32) and the byte are unsigned, so they are
+/// zero-extended: `arith.extend` is signed and is followed by a mask.
+///
 /// Emits:
-///   %data_ptr = mem.load %bytes, offset=0 : core.ptr
-///   %addr = arith.addi %data_ptr, %index : core.ptr
-///   %byte = mem.load %addr, offset=0 : core.i8
-///   %result = arith.extend %byte : result_ty (Nat/i32)
+///   %len = mem.load %bytes, offset=8 : core.i64
+///   %index64 = arith.and (arith.extend %index), 0xffff_ffff : core.i64
+///   %in_bounds = arith.cmpi %index64, %len {predicate = @ult} : core.i1
+///   %result = scf.if %in_bounds : result_ty {
+///     %data_ptr = mem.load %bytes, offset=0 : core.ptr
+///     %addr = arith.addi %data_ptr, %index64 : core.ptr
+///     %byte = mem.load %addr, offset=0 : core.i8
+///     scf.yield (arith.and (arith.extend %byte), 0xff)
+///   } {
+///     func.unreachable
+///   }
 struct BytesGetOrPanicPattern;
 
 impl RewritePattern for BytesGetOrPanicPattern {
@@ -100,43 +110,106 @@ impl RewritePattern for BytesGetOrPanicPattern {
         let bytes = operands[0];
         let index = operands[1];
 
-        let ptr_ty = ctx
-            .types
-            .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("ptr")).build());
-        let i8_ty = ctx
-            .types
-            .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i8")).build());
+        let mut core_ty = |name| {
+            ctx.types
+                .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new(name)).build())
+        };
+        let ptr_ty = core_ty("ptr");
+        let i64_ty = core_ty("i64");
+        let i8_ty = core_ty("i8");
+        let bool_ty = core_ty("i1");
 
-        // Load data pointer from TributeBytes (offset 0)
-        let data_ptr = mem::load(ctx, loc, bytes, ptr_ty, 0);
-        rewriter.insert_op(data_ptr.op_ref());
+        // Load length from TributeBytes (offset 8)
+        let len = mem::load(ctx, loc, bytes, i64_ty, 8);
+        rewriter.insert_op(len.op_ref());
 
-        // Extend index (Nat = i32) to pointer width (i64)
-        let index_ext = trunk_ir::dialect::arith::extend(ctx, loc, index, ptr_ty);
+        // Zero-extend index (Nat = i32) to i64
+        let index_ext = arith::extend(ctx, loc, index, i64_ty);
         rewriter.insert_op(index_ext.op_ref());
-
-        // Compute address: data_ptr + index
-        let addr = trunk_ir::dialect::arith::addi(
+        let index_mask = arith::r#const(ctx, loc, i64_ty, Attribute::Int(0xffff_ffff));
+        rewriter.insert_op(index_mask.op_ref());
+        let index64 = arith::and(
             ctx,
             loc,
-            data_ptr.result(ctx),
             index_ext.result(ctx),
-            ptr_ty,
+            index_mask.result(ctx),
+            i64_ty,
         );
-        rewriter.insert_op(addr.op_ref());
+        rewriter.insert_op(index64.op_ref());
 
-        // Load byte (i8) from computed address
+        let in_bounds = arith::cmpi(
+            ctx,
+            loc,
+            index64.result(ctx),
+            len.result(ctx),
+            bool_ty,
+            Symbol::new("ult"),
+        );
+        rewriter.insert_op(in_bounds.op_ref());
+
+        // In bounds: load the byte at data_ptr + index and zero-extend it
+        let data_ptr = mem::load(ctx, loc, bytes, ptr_ty, 0);
+        let addr = arith::addi(ctx, loc, data_ptr.result(ctx), index64.result(ctx), ptr_ty);
         let byte_val = mem::load(ctx, loc, addr.result(ctx), i8_ty, 0);
-        rewriter.insert_op(byte_val.op_ref());
+        let byte_ext = arith::extend(ctx, loc, byte_val.result(ctx), result_ty);
+        let byte_mask = arith::r#const(ctx, loc, result_ty, Attribute::Int(0xff));
+        let byte = arith::and(
+            ctx,
+            loc,
+            byte_ext.result(ctx),
+            byte_mask.result(ctx),
+            result_ty,
+        );
+        let yield_op = scf::r#yield(ctx, loc, [byte.result(ctx)]);
+        let then_region = single_block_region(
+            ctx,
+            loc,
+            &[
+                data_ptr.op_ref(),
+                addr.op_ref(),
+                byte_val.op_ref(),
+                byte_ext.op_ref(),
+                byte_mask.op_ref(),
+                byte.op_ref(),
+                yield_op.op_ref(),
+            ],
+        );
 
-        // Zero-extend i8 → result type (Nat = i32)
-        let extended = trunk_ir::dialect::arith::extend(ctx, loc, byte_val.result(ctx), result_ty);
-        rewriter.replace_op(extended.op_ref());
+        // Out of bounds: panic
+        let panic = func::unreachable(ctx, loc);
+        let else_region = single_block_region(ctx, loc, &[panic.op_ref()]);
+
+        let checked = scf::r#if(
+            ctx,
+            loc,
+            in_bounds.result(ctx),
+            result_ty,
+            then_region,
+            else_region,
+        );
+        rewriter.replace_op(checked.op_ref());
 
         true
     }
 }
 
+fn single_block_region(ctx: &mut IrContext, location: Location, ops: &[OpRef]) -> RegionRef {
+    let block = ctx.create_block(BlockData {
+        location,
+        args: vec![],
+        ops: Default::default(),
+        parent_region: None,
+    });
+    for &op in ops {
+        ctx.push_op(block, op);
+    }
+    ctx.create_region(RegionData {
+        location,
+        blocks: smallvec![block],
+        parent_op: None,
+    })
+}
+
 /// Pattern that removes `func.func` declarations for bytes intrinsics.
 struct BytesIntrinsicFuncDeclPattern {
     intrinsic_names: Rc<HashSet<Symbol>>,
-- 
2.43.0


From 25c900f697043ab08642065944c02eb19ad139ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:17 +0000
Subject: [PATCH 15/19] fix: closure lowering dropped the attributes of
 functions with function-typed parameters

---
 crates/tribute-passes/src/closure_lower.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tribute-passes/src/closure_lower.rs b/crates/tribute-passes/src/closure_lower.rs
index d74f85f..2d014b1 100644
--- a/crates/tribute-passes/src/closure_lower.rs
+++ b/crates/tribute-passes/src/closure_lower.rs
@@ -132,7 +132,11 @@ impl RewritePattern for UpdateFuncSignatureArena {
             }
         }
         ctx.detach_region(body);
+        // Keep the function's other attributes (`abi`, calling convention, ...).
+        let mut attributes = ctx.op(op).attributes.clone();
         let new_op = func::func(ctx, loc, func_name, new_func_ty, body).op_ref();
+        attributes.extend(ctx.op(new_op).attributes.clone());
+        ctx.op_mut(new_op).attributes = attributes;
         rewriter.replace_op(new_op);
         true
     }
-- 
2.43.0


From 52010d27cf4ea6f2e4dbac1d4f7e99b580cc40ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:01 +0000
Subject: [PATCH 16/19] fix: wasm emission tied abstract reference types to one
 struct type

Collecting GC types recorded the type of every operand and result of a struct
operation under that operation's struct index, abstract types such as
wasm.anyref included. From then on every anyref parameter, local or field of
the module was emitted as a reference to that one struct, and the module was
rejected by WebAssembly validation (or its casts trapped).
---
 .../src/emit/gc_types_collection.rs           | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
index c3aee1c..8b4c465 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
@@ -80,7 +80,19 @@ fn try_get_builder(builders: &mut Vec<GcTypeBuilder>, idx: u32) -> Option<&mut G
 }
 
 /// Register a type in the type_idx_by_type map
-fn register_type(type_idx_by_type: &mut HashMap<TypeRef, u32>, idx: u32, ty: TypeRef) {
+///
+/// Abstract reference types (`wasm.anyref` and the like) stand for references
+/// to any GC object. An operation that happens to produce or consume one must
+/// not make every reference of that type a reference to its own struct type.
+fn register_type(
+    ctx: &IrContext,
+    type_idx_by_type: &mut HashMap<TypeRef, u32>,
+    idx: u32,
+    ty: TypeRef,
+) {
+    if ctx.types.get(ty).dialect == Symbol::new("wasm") {
+        return;
+    }
     type_idx_by_type.entry(ty).or_insert(idx);
 }
 
@@ -394,7 +406,7 @@ pub(crate) fn collect_gc_types(
                 }
 
                 if let Some(result_ty) = result_type {
-                    register_type(&mut type_idx_by_type, type_idx, result_ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, result_ty);
                 }
                 for (field_idx, &value) in operands.iter().enumerate() {
                     let ty = helpers::value_type(ctx, value);
@@ -426,7 +438,7 @@ pub(crate) fn collect_gc_types(
                 let operands = ctx.op_operands(op).to_vec();
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 // Record field type from result type
                 // Note: type variables should be resolved to concrete types before emit
@@ -456,7 +468,7 @@ pub(crate) fn collect_gc_types(
                 }
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 if let Some(&second_operand) = operands.get(1) {
                     let ty = helpers::value_type(ctx, second_operand);
@@ -476,7 +488,7 @@ pub(crate) fn collect_gc_types(
             if let Some(builder) = try_get_builder(&mut builders, type_idx) {
                 builder.kind = GcKind::Array;
                 if let Some(&result_ty) = result_types.first() {
-                    register_type(&mut type_idx_by_type, type_idx, result_ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, result_ty);
                 }
                 let operands = ctx.op_operands(op).to_vec();
                 if let Some(&second_operand) = operands.get(1) {
@@ -498,7 +510,7 @@ pub(crate) fn collect_gc_types(
                 builder.kind = GcKind::Array;
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 // Record element type from result type
                 // Note: type variables should be resolved to concrete types before emit
@@ -516,7 +528,7 @@ pub(crate) fn collect_gc_types(
                 builder.kind = GcKind::Array;
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 if let Some(&third_operand) = operands.get(2) {
                     let ty = helpers::value_type(ctx, third_operand);
@@ -546,7 +558,7 @@ pub(crate) fn collect_gc_types(
                 continue;
             };
             if let Some(&result_ty) = result_types.first() {
-                register_type(&mut type_idx_by_type, type_idx, result_ty);
+                register_type(ctx, &mut type_idx_by_type, type_idx, result_ty);
             }
             if let Some(builder) = try_get_builder(&mut builders, type_idx)
                 && builder.kind == GcKind::Unknown
-- 
2.43.0


From 1b03527dfd82b112329b355df1f784986902dc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:08 +0000
Subject: [PATCH 17/19] fix: wasm emission refused structs with a Bool field
 set from an i32

A field declared core.i1 and initialised from a value already lowered to
core.i32 was recorded with two types, and emission stopped with a field type
mismatch although both are held in an i32.
---
 .../src/emit/gc_types_collection.rs                    | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
index 8b4c465..ef95142 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
@@ -13,7 +13,7 @@ use trunk_ir::Symbol;
 use trunk_ir::dialect::wasm as wasm_dialect;
 use trunk_ir::ops::DialectOp;
 use trunk_ir::refs::{OpRef, RegionRef, TypeRef};
-use trunk_ir::types::TypeData;
+use trunk_ir::types::{TypeData, TypeDataBuilder};
 use wasm_encoder::{FieldType, StorageType, ValType};
 
 use crate::gc_types::{
@@ -118,6 +118,14 @@ fn normalize_type_for_gc(ctx: &mut IrContext, ty: TypeRef) -> TypeRef {
         return intern_wasm_structref(ctx);
     }
 
+    // Truth values are held in an i32, so a field recorded from a lowered i32
+    // value and one recorded from a `core.i1` value have the same type.
+    if helpers::is_type(ctx, ty, "core", "i1") {
+        return ctx
+            .types
+            .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i32")).build());
+    }
+
     // Note: tribute_rt types (int, nat, bool, float, any, intref) should be
     // converted to core/wasm types by normalize_primitive_types pass before emit.
     ty
-- 
2.43.0


From 80d49a624778eba043a049d4314ca85578223950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:28 +0000
Subject: [PATCH 18/19] fix: wasm indirect calls trapped when given a freshly
 built object or box

The signature of an indirect call is derived from the types of its operands.
Casting a struct to an untyped reference left the struct type on the operand,
and boxing a number gave it the i31 reference type, so the call was emitted
with a signature other than the one its callee is declared with and trapped.
The upcast now stays explicit, and boxes have the type of an untyped reference.
---
 .../tribute-passes/src/wasm/tribute_rt_to_wasm.rs  | 14 +++++++-------
 crates/tribute-passes/src/wasm/type_converter.rs   | 11 ++++++++++-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/crates/tribute-passes/src/wasm/tribute_rt_to_wasm.rs b/crates/tribute-passes/src/wasm/tribute_rt_to_wasm.rs
index 4f6f974..693f9b8 100644
--- a/crates/tribute-passes/src/wasm/tribute_rt_to_wasm.rs
+++ b/crates/tribute-passes/src/wasm/tribute_rt_to_wasm.rs
@@ -113,10 +113,10 @@ impl RewritePattern for BoxIntPattern {
         let location = ctx.op(op).location;
         let value = box_op.value(ctx);
 
-        let i31ref_ty = wasm_dialect::i31ref(ctx).as_type_ref();
+        let anyref_ty = wasm_dialect::anyref(ctx).as_type_ref();
 
-        // wasm.ref_i31: i32 -> i31ref
-        let new_op = wasm_dialect::ref_i31(ctx, location, value, i31ref_ty);
+        // wasm.ref_i31: i32 -> i31ref, kept at the declared type of the box
+        let new_op = wasm_dialect::ref_i31(ctx, location, value, anyref_ty);
 
         rewriter.replace_op(new_op.op_ref());
         true
@@ -175,9 +175,9 @@ impl RewritePattern for BoxNatPattern {
 
         let location = ctx.op(op).location;
         let value = box_op.value(ctx);
-        let i31ref_ty = wasm_dialect::i31ref(ctx).as_type_ref();
+        let anyref_ty = wasm_dialect::anyref(ctx).as_type_ref();
 
-        let new_op = wasm_dialect::ref_i31(ctx, location, value, i31ref_ty);
+        let new_op = wasm_dialect::ref_i31(ctx, location, value, anyref_ty);
         rewriter.replace_op(new_op.op_ref());
         true
     }
@@ -308,9 +308,9 @@ impl RewritePattern for BoxBoolPattern {
 
         let location = ctx.op(op).location;
         let value = box_op.value(ctx);
-        let i31ref_ty = wasm_dialect::i31ref(ctx).as_type_ref();
+        let anyref_ty = wasm_dialect::anyref(ctx).as_type_ref();
 
-        let new_op = wasm_dialect::ref_i31(ctx, location, value, i31ref_ty);
+        let new_op = wasm_dialect::ref_i31(ctx, location, value, anyref_ty);
         rewriter.replace_op(new_op.op_ref());
         true
     }
diff --git a/crates/tribute-passes/src/wasm/type_converter.rs b/crates/tribute-passes/src/wasm/type_converter.rs
index ef891e4..c5333bf 100644
--- a/crates/tribute-passes/src/wasm/type_converter.rs
+++ b/crates/tribute-passes/src/wasm/type_converter.rs
@@ -528,7 +528,16 @@ pub fn wasm_type_converter(ctx: &mut IrContext) -> TypeConverter {
             // But anyref -> structref is a downcast and still needs ref_cast.
             let to_is_anyref = is_type(ctx, to_ty, Symbol::new("wasm"), Symbol::new("anyref"));
             let from_is_anyref = is_type(ctx, from_ty, Symbol::new("wasm"), Symbol::new("anyref"));
-            if to_is_anyref || (to_is_structref && !from_is_anyref) {
+            if to_is_anyref {
+                // Keep the upcast explicit: indirect calls derive their signature
+                // from operand types, which must stay anyref.
+                let cast_op = wasm_dialect::ref_cast(ctx, location, value, to_ty, to_ty, None);
+                return Some(MaterializeResult {
+                    value: cast_op.result(ctx),
+                    ops: vec![cast_op.op_ref()],
+                });
+            }
+            if to_is_structref && !from_is_anyref {
                 return Some(MaterializeResult { value, ops: vec![] });
             }
 
-- 
2.43.0


From 465439144a4a0a2ef83e6ee37d0cf28904ecd8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:29 +0000
Subject: [PATCH 19/19] fix: tell apart abilities whose type arguments are
 different nominal types

The identifier of an ability hashes its type arguments without the name of
structs, enums and type references, so State(Foo) and State(Bar) had the
same identifier and an operation of one reached the handler of the other.
---
 crates/tribute-ir/src/dialect/ability.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/tribute-ir/src/dialect/ability.rs b/crates/tribute-ir/src/dialect/ability.rs
index aecff48..386518a 100644
--- a/crates/tribute-ir/src/dialect/ability.rs
+++ b/crates/tribute-ir/src/dialect/ability.rs
@@ -237,6 +237,8 @@ fn hash_type(ctx: &IrContext, ty: TypeRef) -> u32 {
     let mut hasher = rustc_hash::FxHasher::default();
     data.dialect.hash(&mut hasher);
     data.name.hash(&mut hasher);
+    // Nominal types (structs, enums, type references) differ only in their name.
+    data.attrs.get_symbol("name").hash(&mut hasher);
     data.params.len().hash(&mut hasher);
 
     for &param in data.params.iter() {
-- 
2.43.0

