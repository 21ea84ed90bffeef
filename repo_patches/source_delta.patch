From df9e6012006fdc4a807fbcc591e7d8db73825f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 01/31] fix: link the inferred type of an unannotated top-level
 definition to its uses

---
 ticc/src/compiler/typeck.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/ticc/src/compiler/typeck.rs b/ticc/src/compiler/typeck.rs
index d205950..4705bf1 100644
--- a/ticc/src/compiler/typeck.rs
+++ b/ticc/src/compiler/typeck.rs
@@ -47,12 +47,7 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
             let expected_ty = if let Some(name) = i.name() {
                 let span = name.token().span();
                 let def = item.defs.iter().find(|d| d.span == span).unwrap();
-                match &def.kind {
-                    ir::DefKind::Value { type_vars: _, ty } => {
-                        checker.unifier.instantiate(ty, &[])
-                    }
-                    _ => unreachable!(),
-                }
+                checker.lookup_name_opaque(def.symbol)
             } else {
                 checker.allocate(Ty::Error)
             };
@@ -69,15 +64,42 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
         let tys = tys.iter().map(|&ty| checker.unifier.to_ir(ty)).collect();
         item.type_insts.insert(node, tys);
     }
+    let has_errors = checker.diagnostics.iter().any(|d| d.severity == Severity::Error);
+    // other items can only see the final type, so it must not leave anything
+    // to infer: each of them could pick something different
+    let fallback = if has_errors { ir::Type::Error } else { ir::Type::Int };
     for def in &mut item.defs {
         if let ir::DefKind::Value { ty, .. } = &mut def.kind {
             if let Some(&NameTy::Infer(inf)) = checker.symbol_types.get(&def.symbol) {
                 *ty = checker.unifier.to_ir(inf);
+                if def.vis != ir::Visibility::Local {
+                    replace_infer(ty, &fallback);
+                }
             }
         }
     }
 }
 
+fn replace_infer(ty: &mut ir::Type, with: &ir::Type) {
+    match ty {
+        ir::Type::Int |
+        ir::Type::Bool |
+        ir::Type::String |
+        ir::Type::Error => {}
+        ir::Type::Infer => *ty = with.clone(),
+        ir::Type::Named(_, args) => {
+            for arg in args {
+                replace_infer(arg, with);
+            }
+        }
+        ir::Type::Fn(a, b) |
+        ir::Type::Folded(a, b) => {
+            replace_infer(a, with);
+            replace_infer(b, with);
+        }
+    }
+}
+
 #[derive(Debug)]
 enum NameTy<'a> {
     Infer(TyIdx),
-- 
2.43.0


From b9a250c2dea99f54186a18b0db514bb209534438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 02/31] fix: let later items see the inferred type of an
 unannotated definition

---
 ticc/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticc/src/lib.rs b/ticc/src/lib.rs
index 2610018..4fee902 100644
--- a/ticc/src/lib.rs
+++ b/ticc/src/lib.rs
@@ -127,6 +127,8 @@ impl CompilationUnit {
             compiler::kindck::kind_check(&mut item, &defs);
             compiler::typeck::type_check(&mut item, &defs);
             compiler::matchck::check_matches(&mut item, &defs);
+            // definitions may have had their types inferred
+            defs.add_item(&item);
             self.items.push(item);
             scope.add_item(&self.src, self.items.last().unwrap(), false);
         }
-- 
2.43.0


From 88d6df74aca10ae1ace19bc776482f5f00e46f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 03/31] fix: support constructors with more than nine fields in
 evaluated values

---
 ticc-eval/src/tagged.rs | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/ticc-eval/src/tagged.rs b/ticc-eval/src/tagged.rs
index aea4cc3..6534a64 100644
--- a/ticc-eval/src/tagged.rs
+++ b/ticc-eval/src/tagged.rs
@@ -1,47 +1,33 @@
-use std::{convert::TryInto, rc::Rc};
+use std::rc::Rc;
 use ticc_core::ir;
 use crate::Value;
 
 #[derive(Clone)]
 pub struct Tagged<F> {
-    alloc: Rc<TaggedAlloc<[Value<F>]>>,
-}
-
-struct TaggedAlloc<T: ?Sized> {
     tag: ir::Name,
-    values: T,
+    values: Rc<[Value<F>]>,
 }
 
 impl<F> Tagged<F> {
     pub(crate) fn from_array<const N: usize>(tag: ir::Name, arr: [Value<F>; N]) -> Tagged<F> {
-        let alloc = Rc::new(TaggedAlloc {
+        Tagged {
             tag,
-            values: arr,
-        });
-        Tagged { alloc }
+            values: Rc::new(arr),
+        }
     }
 
     pub(crate) fn from_vec(tag: ir::Name, values: Vec<Value<F>>) -> Tagged<F> {
-        match values.len() {
-            0 => Tagged::from_array::<0>(tag, []),
-            1 => Tagged::from_array::<1>(tag, values.try_into().unwrap()),
-            2 => Tagged::from_array::<2>(tag, values.try_into().unwrap()),
-            3 => Tagged::from_array::<3>(tag, values.try_into().unwrap()),
-            4 => Tagged::from_array::<4>(tag, values.try_into().unwrap()),
-            5 => Tagged::from_array::<5>(tag, values.try_into().unwrap()),
-            6 => Tagged::from_array::<6>(tag, values.try_into().unwrap()),
-            7 => Tagged::from_array::<7>(tag, values.try_into().unwrap()),
-            8 => Tagged::from_array::<8>(tag, values.try_into().unwrap()),
-            9 => Tagged::from_array::<9>(tag, values.try_into().unwrap()),
-            other => panic!("unsupported tagged value size: {}", other),
+        Tagged {
+            tag,
+            values: values.into(),
         }
     }
 
     pub fn tag(&self) -> ir::Name {
-        self.alloc.tag
+        self.tag
     }
 
     pub fn fields(&self) -> &[Value<F>] {
-        &self.alloc.values
+        &self.values
     }
 }
-- 
2.43.0


From 0481c3656c681c65b3b90844803f2b283886e3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 04/31] fix: make sure bytecode heap has space for large
 objects before allocating them

---
 ticc-eval/src/bytecode.rs | 26 ++++++++++++++++++++++++++
 ticc-eval/src/heap.rs     |  2 +-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/ticc-eval/src/bytecode.rs b/ticc-eval/src/bytecode.rs
index 00b61e1..453f843 100644
--- a/ticc-eval/src/bytecode.rs
+++ b/ticc-eval/src/bytecode.rs
@@ -260,6 +260,7 @@ impl Runtime {
                     }
                 }
                 Op::Construct { tag, fields } => {
+                    self.reserve(fields as usize * 8);
                     let mut obj = self.heap.alloc_object(tag, fields);
                     for i in (0..fields).rev() {
                         let value = self.stack.pop();
@@ -316,6 +317,7 @@ impl Runtime {
                     self.stack.push(Value::Int(u64::from(result)))
                 }
                 Op::StringConcat => {
+                    self.reserve(self.string_len(0) + self.string_len(1));
                     let ptr2 = self.stack.pop_ptr();
                     let (tag2, bytes2) = self.heap.obj_with_bytes(ptr2);
                     let len2 = tag2 & TAG_MASK;
@@ -351,6 +353,7 @@ impl Runtime {
                     self.maybe_gc();
                 }
                 Op::StringSubstring => {
+                    self.reserve(self.string_len(0));
                     let s = self.stack.pop_ptr();
                     let (tag, bytes) = self.heap.obj_with_bytes(s);
                     let len = tag & TAG_MASK;
@@ -374,6 +377,29 @@ impl Runtime {
         }
     }
 
+    fn string_len(&self, depth: usize) -> usize {
+        let Value::Ptr(ptr) = self.stack.pick(depth) else {
+            unreachable!();
+        };
+        (self.heap.obj_with_bytes(ptr).0 & TAG_MASK) as usize
+    }
+
+    /// Make sure that there is enough space to allocate an object with up to
+    /// `bytes` bytes of data. Operands must still be on the stack, because this
+    /// might move them.
+    fn reserve(&mut self, bytes: usize) {
+        // TODO: calculate size properly
+        let need_bytes = bytes + 256;
+        if self.heap.free_space() < bytes + 64 {
+            self.heap.collect_and_grow(self.stack.ptrs()
+                .chain(self.consts.iter_mut())
+                .chain(std::iter::once(&mut self.bools.t))
+                .chain(std::iter::once(&mut self.bools.f)),
+                need_bytes as u32,
+            );
+        }
+    }
+
     fn maybe_gc(&mut self) {
         if self.heap.allocated() > self.heap.capacity() / 2 {
             self.gc();
diff --git a/ticc-eval/src/heap.rs b/ticc-eval/src/heap.rs
index 49424e1..2d3e720 100644
--- a/ticc-eval/src/heap.rs
+++ b/ticc-eval/src/heap.rs
@@ -103,7 +103,7 @@ impl Heap {
             .max((ensure_free + retained_bytes) as usize);
         if min_capacity > self.bytes.raw.len() {
             self.bytes.raw.ensure_size(min_capacity);
-            self.move_dst.resize(min_capacity / (Header::SIZE as usize), Addr(0));
+            self.move_dst.resize(self.bytes.raw.len() / (Header::SIZE as usize), Addr(0));
         }
         let mut new_bump = self.bytes.raw.len();
         for addr in retained.into_iter().rev() {
-- 
2.43.0


From 6ede7d56535df9c50f9f2dfdb8d9c04b8a6989cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 05/31] fix: print modulo as % in emitted ir

---
 ticc-core/src/pretty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc-core/src/pretty.rs b/ticc-core/src/pretty.rs
index 217f59f..b57b6ca 100644
--- a/ticc-core/src/pretty.rs
+++ b/ticc-core/src/pretty.rs
@@ -161,7 +161,7 @@ impl Format<'_> {
                     ir::Op::Subtract => "-",
                     ir::Op::Multiply => "*",
                     ir::Op::Divide => "/",
-                    ir::Op::Modulo => "*",
+                    ir::Op::Modulo => "%",
                     ir::Op::Less => "<",
                     ir::Op::LessEq => "<=",
                     ir::Op::Greater => ">",
-- 
2.43.0


From 21be877735cb064da8f547309376616599f09574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 06/31] fix: run enough steps for the worst case inputs of
 int.gcd

---
 ticc/src/std/int.tic | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/std/int.tic b/ticc/src/std/int.tic
index c025fc3..12e0b80 100644
--- a/ticc/src/std/int.tic
+++ b/ticc/src/std/int.tic
@@ -60,7 +60,7 @@ export let gcd : int -> int -> int =
                 GcdState b (a % b)
         end;
     \a -> \b ->
-        match i.iterate 65 stepState (GcdState a b) with
+        match i.iterate 94 stepState (GcdState a b) with
         | GcdState x _ -> x
         end;
 
-- 
2.43.0


From a0d50152605c8932e2b12bfa62e0e4cd61d344a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 07/31] fix: offer types and constructors when completing names
 of another module

---
 ticc/src/api/completion.rs   | 13 +++++++------
 ticc/src/compiler/resolve.rs |  8 ++++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/ticc/src/api/completion.rs b/ticc/src/api/completion.rs
index 362d70a..a150071 100644
--- a/ticc/src/api/completion.rs
+++ b/ticc/src/api/completion.rs
@@ -79,13 +79,14 @@ fn add_keys_from<T>(completions: &mut Vec<Completion>, map: &HashMap<&str, T>) {
 
 fn add_exports(completions: &mut Vec<Completion>, unit: &CompleteUnit, for_usage: resolve::NameUsage) {
     for (name, def) in &unit.props.exports {
-        let kind = match def.kind {
-            ir::DefKind::Value {.. } => resolve::NameUsage::Value,
-            ir::DefKind::Ctor { .. } => resolve::NameUsage::Ctor,
-            ir::DefKind::Type { .. } => resolve::NameUsage::Type,
-            ir::DefKind::Module { .. } => resolve::NameUsage::Module,
+        let matches = match def.kind {
+            ir::DefKind::Value {.. } => for_usage == resolve::NameUsage::Value,
+            // constructors can be used both as values and in patterns
+            ir::DefKind::Ctor { .. } => for_usage == resolve::NameUsage::Value || for_usage == resolve::NameUsage::Ctor,
+            ir::DefKind::Type { .. } => for_usage == resolve::NameUsage::Type,
+            ir::DefKind::Module { .. } => for_usage == resolve::NameUsage::Module,
         };
-        if kind == for_usage {
+        if matches {
             completions.push(Completion { name: name.name.clone() })
         }
     }
diff --git a/ticc/src/compiler/resolve.rs b/ticc/src/compiler/resolve.rs
index 2f59acf..8bb64bc 100644
--- a/ticc/src/compiler/resolve.rs
+++ b/ticc/src/compiler/resolve.rs
@@ -321,7 +321,7 @@ fn resolve_type(sink: &mut impl ResolveSink, ty: node::Type<'_>, scope: &Scope<'
                 (Some(namespace), Some(name)) => {
                     sink.on_name(namespace, NameUsage::Module, scope, Namespace::None);
                     if let Some(module) = scope.lookup_module(namespace.token().text()) {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::Module(module.clone()));
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::Module(module.clone()));
                         // TODO: sink.record_ref for the module usage
                         match module.props.find_export(crate::Namespace::Type, name.token().text()) {
                             Ok(def) => {
@@ -346,7 +346,7 @@ fn resolve_type(sink: &mut impl ResolveSink, ty: node::Type<'_>, scope: &Scope<'
                             }
                         }
                     } else {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::UnresolvedModule);
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::UnresolvedModule);
                         sink.record_error(RawDiagnostic {
                             span: namespace.token().span(),
                             severity: Severity::Error,
@@ -411,7 +411,7 @@ fn resolve_type_with_vars<'a>(sink: &mut impl ResolveSink, module: ModuleKey, ty
                 (Some(namespace), Some(name)) => {
                     sink.on_name(namespace, NameUsage::Module, scope, Namespace::None);
                     if let Some(module) = scope.lookup_module(namespace.token().text()) {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::Module(module.clone()));
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::Module(module.clone()));
                         // TODO: sink.record_ref for the module usage
                         match module.props.find_export(crate::Namespace::Type, name.token().text()) {
                             Ok(def) => {
@@ -436,7 +436,7 @@ fn resolve_type_with_vars<'a>(sink: &mut impl ResolveSink, module: ModuleKey, ty
                             }
                         }
                     } else {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::UnresolvedModule);
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::UnresolvedModule);
                         sink.record_error(RawDiagnostic {
                             span: namespace.token().span(),
                             severity: Severity::Error,
-- 
2.43.0


From bd715c09238ee3d126bde5bfa89e5f4714dc2e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 08/31] fix: reject local definitions whose type variables
 escape into outer types

---
 ticc/src/compiler/typeck.rs | 53 +++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/ticc/src/compiler/typeck.rs b/ticc/src/compiler/typeck.rs
index 4705bf1..1396adf 100644
--- a/ticc/src/compiler/typeck.rs
+++ b/ticc/src/compiler/typeck.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use internal_iterator::InternalIterator;
 use crate::{RawDiagnostic, Severity, Span};
 use crate::compiler::{DefSet, ir, syntax::node};
 use crate::compiler::syntax::{AstNode, NodeId, TokenKind};
@@ -13,6 +14,7 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
         symbol_types: HashMap::new(),
         diagnostics: &mut item.diagnostics,
         insts: HashMap::new(),
+        local_vars: Vec::new(),
     };
     let mut symbol_vars = HashMap::new();
     for r in item.refs.iter().copied().chain(item.defs.iter().map(|d| d.to_ref())) {
@@ -60,6 +62,24 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
     for (&node, &ty) in &checker.expr_types {
         item.types.insert(node, checker.unifier.to_ir(ty));
     }
+    let types = &item.types;
+    for local in &checker.local_vars {
+        let escapes = syntax.tree.root()
+            .descendants()
+            .filter_map(node::Expr::cast)
+            .filter(|e| {
+                let span = e.syntax().span();
+                span.start() < local.value.start() || local.value.end() < span.end()
+            })
+            .any(|e| types.get(&e.syntax().id()).map_or(false, |ty| mentions(ty, local.vars)));
+        if escapes {
+            checker.diagnostics.push(RawDiagnostic {
+                message: err_fmt!("value uses variables whose type depends on its type variables"),
+                severity: Severity::Error,
+                span: local.name,
+            });
+        }
+    }
     for (&node, tys) in &checker.insts {
         let tys = tys.iter().map(|&ty| checker.unifier.to_ir(ty)).collect();
         item.type_insts.insert(node, tys);
@@ -80,6 +100,19 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
     }
 }
 
+fn mentions(ty: &ir::Type, vars: &[ir::Symbol]) -> bool {
+    match ty {
+        ir::Type::Int |
+        ir::Type::Bool |
+        ir::Type::String |
+        ir::Type::Error |
+        ir::Type::Infer => false,
+        ir::Type::Named(s, args) => vars.contains(s) || args.iter().any(|ty| mentions(ty, vars)),
+        ir::Type::Fn(a, b) |
+        ir::Type::Folded(a, b) => mentions(a, vars) || mentions(b, vars),
+    }
+}
+
 fn replace_infer(ty: &mut ir::Type, with: &ir::Type) {
     match ty {
         ir::Type::Int |
@@ -338,6 +371,14 @@ struct TypeChecker<'a> {
     symbol_types: HashMap<ir::Symbol, NameTy<'a>>,
     diagnostics: &'a mut Vec<RawDiagnostic>,
     insts: HashMap<NodeId, Vec<TyIdx>>,
+    local_vars: Vec<LocalVars<'a>>,
+}
+
+/// Type variables of an annotated local definition, only usable in its value.
+struct LocalVars<'a> {
+    vars: &'a [ir::Symbol],
+    name: Span,
+    value: Span,
 }
 
 impl<'a> TypeChecker<'a> {
@@ -501,6 +542,18 @@ impl<'a> TypeChecker<'a> {
                 } else {
                     self.allocate(Ty::Error)
                 };
+                if let (Some(name), Some(value)) = (expr.name(), expr.value()) {
+                    let sym = self.symbols.get(&name.syntax().id());
+                    if let Some(&NameTy::Inst(_, vars)) = sym.and_then(|s| self.symbol_types.get(s)) {
+                        if vars.len() > 0 {
+                            self.local_vars.push(LocalVars {
+                                vars,
+                                name: name.token().span(),
+                                value: value.syntax().span(),
+                            });
+                        }
+                    }
+                }
                 if let Some(expr) = expr.value() {
                     self.check_expr(expr, bound_ty);
                 }
-- 
2.43.0


From 79c11aae9de957caf2cc1aecd5fea8fe14945502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 09/31] fix: count an imported constructor as a use of its own
 type

---
 ticc/src/lint/unused.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ticc/src/lint/unused.rs b/ticc/src/lint/unused.rs
index 3a50eac..fc1d193 100644
--- a/ticc/src/lint/unused.rs
+++ b/ticc/src/lint/unused.rs
@@ -10,10 +10,6 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
         for r in &item.refs {
             used.insert(r.symbol);
         }
-        let type_def = item.defs
-            .iter()
-            .find(|d| matches!(d.kind, DefKind::Type { is_var: false, ..}))
-            .map(|d| d.symbol);
         for d in &item.defs {
             if let DefKind::Type { is_var: true, .. } = d.kind {
                 used.insert(d.symbol);
@@ -21,10 +17,8 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
             if d.vis == Visibility::Export {
                 used.insert(d.symbol);
             }
-            if let DefKind::Ctor { .. } = d.kind {
-                if let Some(type_sym) = type_def {
-                    deps.insert(d.symbol, type_sym);
-                }
+            if let DefKind::Ctor { type_symbol, .. } = d.kind {
+                deps.insert(d.symbol, type_symbol);
             }
         }
     }
-- 
2.43.0


From 303dbc7057fb6eda55a2db130ea0574936a1e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 10/31] fix: find names exposed by an import that does not name
 the module

---
 ticc/src/api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/api.rs b/ticc/src/api.rs
index cd3bd06..5dcfe9c 100644
--- a/ticc/src/api.rs
+++ b/ticc/src/api.rs
@@ -28,7 +28,7 @@ fn find_def_at(compilation: &CompilationUnit, pos: Pos) -> Option<&ir::Def> {
             continue;
         }
         for def in &item.defs {
-            if def.span.start() <= pos && pos <= def.span.end() {
+            if def.has_name && def.span.start() <= pos && pos <= def.span.end() {
                 return Some(&def);
             }
         }
-- 
2.43.0


From c97ec2f3d03fff6dc62685947298042e1d56b4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 11/31] fix: do not panic on constructors of a type with a
 missing name

---
 ticc/src/api.rs              |  3 +++
 ticc/src/compiler/resolve.rs | 33 ++++++++++++++++++++-------------
 ticc/src/lint/unused.rs      |  3 +++
 3 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/ticc/src/api.rs b/ticc/src/api.rs
index 5dcfe9c..c9b4687 100644
--- a/ticc/src/api.rs
+++ b/ticc/src/api.rs
@@ -122,6 +122,9 @@ impl<'a> TypePrinter<'a> {
             // TODO: figure out names for defs from other modules
             return "???";
         };
+        if !def.has_name {
+            return "???";
+        }
         let name = &self.compilation.src[def.span.source_range()];
         self.name_cache.insert(symbol, name);
         name
diff --git a/ticc/src/compiler/resolve.rs b/ticc/src/compiler/resolve.rs
index 8bb64bc..915cfe2 100644
--- a/ticc/src/compiler/resolve.rs
+++ b/ticc/src/compiler/resolve.rs
@@ -210,22 +210,29 @@ fn resolve_type_item(sink: &mut impl ResolveSink, module: ModuleKey, item: node:
         let sym = resolve_type_case(sink, module, case, &scope, symbol, &param_symbols, &mut ctor_names, ctor_vis);
         ctors.extend(sym);
     }
+    let kind = ir::DefKind::Type {
+        param_count: param_symbols.len(),
+        is_var: false,
+        ctors: ir::Ctors::List(ctors),
+    };
+    let vis = if item.export_token().is_some() {
+        ir::Visibility::Export
+    } else {
+        ir::Visibility::Module
+    };
     if let Some(name) = item.name() {
-        sink.record_def(ir::Def::new(
+        sink.record_def(ir::Def::new(module, symbol, kind, vis, name));
+    } else {
+        // constructors refer to the type even when its name is missing
+        sink.record_def(ir::Def {
             module,
             symbol,
-            ir::DefKind::Type {
-                param_count: param_symbols.len(),
-                is_var: false,
-                ctors: ir::Ctors::List(ctors),
-            },
-            if item.export_token().is_some() {
-                ir::Visibility::Export
-            } else {
-                ir::Visibility::Module
-            },
-            name,
-        ));
+            kind,
+            vis: ir::Visibility::Module,
+            span: item.syntax().span(),
+            node: item.syntax().id(),
+            has_name: false,
+        });
     }
 }
 
diff --git a/ticc/src/lint/unused.rs b/ticc/src/lint/unused.rs
index fc1d193..2fd5d9f 100644
--- a/ticc/src/lint/unused.rs
+++ b/ticc/src/lint/unused.rs
@@ -31,6 +31,9 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
             if matches!(d.kind, DefKind::Module { .. }) {
                 continue;
             }
+            if !d.has_name {
+                continue;
+            }
             let name = &compilation.src[d.span.source_range()];
             if !used.contains(&d.symbol) && name.chars().next() != Some('_') {
                 lints.push(RawDiagnostic {
-- 
2.43.0


From 3b1e76a4844147e60b9cc0db7c67677111479913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 12/31] fix: type check against types that passed kind checking

---
 ticc/src/compiler/kindck.rs | 3 ++-
 ticc/src/lib.rs             | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ticc/src/compiler/kindck.rs b/ticc/src/compiler/kindck.rs
index 01710f8..ae621c8 100644
--- a/ticc/src/compiler/kindck.rs
+++ b/ticc/src/compiler/kindck.rs
@@ -9,7 +9,8 @@ pub(crate) fn kind_check(item: &mut ir::Item, defs: &DefSet) {
             ir::DefKind::Value { ty, .. } => {
                 check_ty(defs, ty)
             }
-            ir::DefKind::Ctor { fields, .. } => {
+            ir::DefKind::Ctor { fields, fn_ty, .. } => {
+                check_ty(defs, fn_ty);
                 for field in fields {
                     if let ir::Field::Type(ty) = field {
                         check_ty(defs, ty);
diff --git a/ticc/src/lib.rs b/ticc/src/lib.rs
index 4fee902..e0f5728 100644
--- a/ticc/src/lib.rs
+++ b/ticc/src/lib.rs
@@ -125,6 +125,8 @@ impl CompilationUnit {
             defs.add_item(&item);
             compiler::numck::check_numbers(&mut item);
             compiler::kindck::kind_check(&mut item, &defs);
+            // type checking must not see the ill-kinded types that got cleaned
+            defs.add_item(&item);
             compiler::typeck::type_check(&mut item, &defs);
             compiler::matchck::check_matches(&mut item, &defs);
             // definitions may have had their types inferred
-- 
2.43.0


From 0d7fefcc6d43cea145a70d847bec1fa095a1b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 13/31] fix: do not panic when looking for info of unchecked
 expressions

---
 ticc/src/api/info.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticc/src/api/info.rs b/ticc/src/api/info.rs
index 8f598d1..bda3b01 100644
--- a/ticc/src/api/info.rs
+++ b/ticc/src/api/info.rs
@@ -48,7 +48,8 @@ fn def_info(compilation: &CompilationUnit, pos: Pos) -> Option<Info> {
 
 fn expr_info(compilation: &CompilationUnit, pos: Pos) -> Option<Info> {
     let (item, expr) = find_expr_at_pos(compilation, pos)?;
-    let ty = &item.types[&expr.syntax().id()];
+    // parts of invalid code might be left unchecked
+    let ty = item.types.get(&expr.syntax().id())?;
     let mut type_printer = super::TypePrinter::new(compilation);
     let mut doc = String::new();
     type_printer.print_type(&ty, &mut doc);
-- 
2.43.0


From 1140662babaa6ace8a19e0b2ea9daa75fa6a6c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 14/31] fix: make answers about a position independent of
 earlier queries

---
 ticc/src/api/info.rs       | 2 +-
 ticc/src/api/navigation.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ticc/src/api/info.rs b/ticc/src/api/info.rs
index bda3b01..fd7e350 100644
--- a/ticc/src/api/info.rs
+++ b/ticc/src/api/info.rs
@@ -8,7 +8,7 @@ pub struct Info {
 }
 
 pub(crate) fn info_at(compilation: &mut CompilationUnit, pos: Pos) -> Option<Info> {
-    compilation.compile_up_to(pos.source_pos() + 1);
+    compilation.compile_to_end();
     def_info(compilation, pos).or_else(|| expr_info(compilation, pos))
 }
 
diff --git a/ticc/src/api/navigation.rs b/ticc/src/api/navigation.rs
index 198ea87..acbd7c5 100644
--- a/ticc/src/api/navigation.rs
+++ b/ticc/src/api/navigation.rs
@@ -2,7 +2,7 @@ use crate::{CompilationUnit, Pos, Span};
 use crate::compiler::ir;
 
 pub(crate) fn find_definition(compilation: &mut CompilationUnit, pos: Pos) -> Option<Span> {
-    compilation.compile_up_to(pos.source_pos() + 1);
+    compilation.compile_to_end();
     if let Some(r) = super::find_ref_at(compilation, pos) {
         super::find_def(compilation, r.symbol).map(|def| def.span)
     } else if let Some(def) = super::find_def_at(compilation, pos) {
@@ -16,7 +16,7 @@ pub(crate) fn find_definition(compilation: &mut CompilationUnit, pos: Pos) -> Op
 /// Returns `Some(vec![])` when there's a symbol at the given position, but
 /// there no references to that symbol in the code.
 pub(crate) fn find_references(compilation: &mut CompilationUnit, pos: Pos) -> Option<Vec<Span>> {
-    compilation.compile_up_to(pos.source_pos() + 1);
+    compilation.compile_to_end();
     let symbol = super::find_def_or_ref_at(compilation, pos)?.symbol;
     let (item, def) = compilation.items
         .iter()
-- 
2.43.0


From 429ac77e8645685d10a873a06e00f59dc61865a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 15/31] fix: keep track of pointers in objects with more than
 64 fields

---
 ticc-eval/src/bytecode.rs |  2 +-
 ticc-eval/src/heap.rs     | 76 ++++++++++++++++++++++++++++-----------
 ticc-eval/src/jit.rs      |  8 +++++
 3 files changed, 65 insertions(+), 21 deletions(-)

diff --git a/ticc-eval/src/bytecode.rs b/ticc-eval/src/bytecode.rs
index 453f843..da15246 100644
--- a/ticc-eval/src/bytecode.rs
+++ b/ticc-eval/src/bytecode.rs
@@ -260,7 +260,7 @@ impl Runtime {
                     }
                 }
                 Op::Construct { tag, fields } => {
-                    self.reserve(fields as usize * 8);
+                    self.reserve((fields as usize + fields as usize / 64) * 8);
                     let mut obj = self.heap.alloc_object(tag, fields);
                     for i in (0..fields).rev() {
                         let value = self.stack.pop();
diff --git a/ticc-eval/src/heap.rs b/ticc-eval/src/heap.rs
index 2d3e720..b0ed33a 100644
--- a/ticc-eval/src/heap.rs
+++ b/ticc-eval/src/heap.rs
@@ -34,11 +34,16 @@ impl Heap {
     }
 
     pub(crate) fn alloc_object(&mut self, tag: u64, fields: u32) -> ObjAlloc<'_> {
-        let (addr, header, bytes) = self.raw_alloc(tag, fields * 8);
+        let ptr_words = Header::ptr_words(fields);
+        let (addr, header, bytes) = self.raw_alloc(tag, (fields + ptr_words) * 8);
+        header.ptr_words = ptr_words as u16;
+        let (fields, more_ptrs) = bytes_to_words_mut(bytes).split_at_mut(fields as usize);
+        more_ptrs.fill(0);
         ObjAlloc {
             addr,
             header,
-            fields: bytes_to_words_mut(bytes),
+            fields,
+            more_ptrs,
         }
     }
 
@@ -53,6 +58,7 @@ impl Heap {
         *self.bytes.obj_header(addr) = Header {
             size: total_size as u32,
             mark: 0,
+            ptr_words: 0,
             ptrs: 0,
             tag,
         };
@@ -87,14 +93,16 @@ impl Heap {
             retained.push(current);
             retained_bytes += header.size;
             current.0 += u64::from(header.size);
-            if header.ptrs != 0 {
-                let ptrs = header.ptrs;
-                let fields = bytes_to_words(bytes);
-                pending.extend(fields.iter().copied());
-                for (i, field) in pending.drain(..).enumerate() {
-                    if ptrs & (1 << i) != 0 {
-                        self.bytes.obj_header(Addr(field)).mark = 1;
-                    }
+            if header.has_ptrs() {
+                let (fields, more_ptrs) = header.split_fields(bytes_to_words(bytes));
+                pending.extend(fields
+                    .iter()
+                    .copied()
+                    .enumerate()
+                    .filter(|&(i, _)| header.is_ptr(more_ptrs, i))
+                    .map(|(_, field)| field));
+                for field in pending.drain(..) {
+                    self.bytes.obj_header(Addr(field)).mark = 1;
                 }
             }
         }
@@ -113,10 +121,11 @@ impl Heap {
             new_bump = place_at;
             self.bytes.raw.copy_within((addr.0 as usize)..((addr.0 + u64::from(size)) as usize), place_at);
             self.move_dst[(addr.0 / u64::from(Header::SIZE)) as usize] = new_addr;
-            let (header, fields) = self.bytes.obj_fields_mut(new_addr);
-            if header.ptrs != 0 {
+            let (header, words) = self.bytes.obj_words_mut(new_addr);
+            if header.has_ptrs() {
+                let (fields, more_ptrs) = words.split_at_mut(words.len() - usize::from(header.ptr_words));
                 for (i, ptr) in fields.into_iter().enumerate() {
-                    if header.ptrs & (1 << i) != 0 {
+                    if header.is_ptr(more_ptrs, i) {
                         *ptr = self.move_dst[(*ptr / u64::from(Header::SIZE)) as usize].0;
                     }
                 }
@@ -129,13 +138,13 @@ impl Heap {
     }
 
     pub(crate) fn obj_with_fields(&self, addr: Addr) -> (u64, impl Iterator<Item = Value> + '_) {
-        let (header, fields) = self.bytes.obj_fields(addr);
-        let ptrs = header.ptrs;
+        let (header, words) = self.bytes.obj_words(addr);
+        let (fields, more_ptrs) = header.split_fields(words);
         let fields = fields
             .iter()
             .copied()
             .enumerate()
-            .map(move |(i, v)| if ptrs & (1 << i) != 0 {
+            .map(move |(i, v)| if header.is_ptr(more_ptrs, i) {
                 Value::Ptr(Addr(v))
             } else {
                 Value::Int(v)
@@ -184,7 +193,7 @@ impl HeapBytes {
         header
     }
 
-    fn obj_fields_mut(&mut self, addr: Addr) -> (&mut Header, &mut [u64]) {
+    fn obj_words_mut(&mut self, addr: Addr) -> (&mut Header, &mut [u64]) {
         let (header, bytes) = self.obj_parts_mut(addr);
         (header, bytes_to_words_mut(bytes))
     }
@@ -197,7 +206,7 @@ impl HeapBytes {
         (header, bytes)
     }
 
-    fn obj_fields(&self, addr: Addr) -> (&Header, &[u64]) {
+    fn obj_words(&self, addr: Addr) -> (&Header, &[u64]) {
         let (header, bytes) = self.obj_parts(addr);
         (header, bytes_to_words(bytes))
     }
@@ -223,12 +232,16 @@ pub(crate) struct ObjAlloc<'a> {
     pub(crate) addr: Addr,
     header: &'a mut Header,
     fields: &'a mut [u64],
+    more_ptrs: &'a mut [u64],
 }
 
 impl ObjAlloc<'_> {
     pub(crate) fn put_ptr(&mut self, idx: usize, addr: Addr) {
         self.fields[idx] = addr.0;
-        self.header.ptrs |= 1 << idx;
+        match idx / 64 {
+            0 => self.header.ptrs |= 1 << idx,
+            word => self.more_ptrs[word - 1] |= 1 << (idx % 64),
+        }
     }
 
     pub(crate) fn put_int(&mut self, idx: usize, value: u64) {
@@ -244,7 +257,10 @@ pub(crate) struct BytesAlloc<'a> {
 #[repr(C)]
 struct Header {
     size: u32,
-    mark: u32,
+    mark: u16,
+    // words at the end of the object, they tell which of the fields that do
+    // not fit in ptrs are pointers
+    ptr_words: u16,
     ptrs: u64,
     tag: u64,
 }
@@ -256,6 +272,26 @@ impl Header {
 
     // does not have to be true, just a note to know what the size is
     const _ASSERT_SIZE: () = assert!(Self::SIZE == 24);
+
+    fn ptr_words(fields: u32) -> u32 {
+        (fields.max(1) - 1) / 64
+    }
+
+    fn has_ptrs(&self) -> bool {
+        self.ptrs != 0 || self.ptr_words != 0
+    }
+
+    fn is_ptr(&self, more_ptrs: &[u64], idx: usize) -> bool {
+        let bits = match idx / 64 {
+            0 => self.ptrs,
+            word => more_ptrs[word - 1],
+        };
+        bits & (1 << (idx % 64)) != 0
+    }
+
+    fn split_fields<'a>(&self, words: &'a [u64]) -> (&'a [u64], &'a [u64]) {
+        words.split_at(words.len() - usize::from(self.ptr_words))
+    }
 }
 
 #[derive(Default)]
diff --git a/ticc-eval/src/jit.rs b/ticc-eval/src/jit.rs
index 99ab9ec..502589a 100644
--- a/ticc-eval/src/jit.rs
+++ b/ticc-eval/src/jit.rs
@@ -506,6 +506,10 @@ fn assemble(ops: &[compile::Op], heap: &mut Heap) -> Result<Assembled, iced_x86:
                     asm.mov(tmp2, qword_ptr(tmp1 + 8))?;
                     // push fields to stack
                     for field in 0..(*upvalues) {
+                        if field > 0 && field % 64 == 0 {
+                            // next word of the bitset is stored after fields
+                            asm.mov(tmp2, qword_ptr(tmp1 + ((*upvalues + field / 64 - 1) * 8 + 24)))?;
+                        }
                         asm.mov(tmp3, tmp2)?;
                         asm.and(tmp3, 1)?;
                         asm.shr(tmp2, 1)?;
@@ -557,6 +561,10 @@ fn assemble(ops: &[compile::Op], heap: &mut Heap) -> Result<Assembled, iced_x86:
                     asm.jne(next_branch)?;
                     if br.bindings > 0 {
                         for idx in 0..br.bindings {
+                            if idx > 0 && idx % 64 == 0 {
+                                // next word of the bitset is stored after fields
+                                asm.mov(tmp2, qword_ptr(tmp1 + ((br.bindings + idx / 64 - 1) as i32 * 8 + 24)))?;
+                            }
                             asm.mov(tmp3, tmp2)?;
                             asm.and(tmp3, 1)?;
                             asm.shr(tmp2, 1)?;
-- 
2.43.0


From e95a84e4e538834b4b4101ae3f807d0bdd0d5505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 16/31] fix: do not crash on requests about files that are not
 open

---
 ticc-lsp/src/handlers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index 9a70bfd..3381b01 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -10,7 +10,7 @@ fn semantic_tokens(
     params: lsp_types::SemanticTokensParams,
 ) -> Option<lsp_types::SemanticTokensResult> {
     let key = FileKey::from(params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let tokens = crate::semantic_tokens::get_semantic_tokens(&mut compilation.unit);
     Some(lsp_types::SemanticTokensResult::Tokens(lsp_types::SemanticTokens {
         result_id: None,
@@ -23,7 +23,7 @@ fn go_to_definition(
     params: lsp_types::GotoDefinitionParams,
 ) -> Option<lsp_types::GotoDefinitionResponse> {
     let key = FileKey::from(params.text_document_position_params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position_params.position;
     if let Some(range) = crate::go_to_definition::find_definition(&mut compilation.unit, pos) {
         Some(lsp_types::GotoDefinitionResponse::Scalar(lsp_types::Location {
@@ -40,7 +40,7 @@ fn find_references(
     params: lsp_types::ReferenceParams,
 ) -> Option<Vec<lsp_types::Location>> {
     let key = FileKey::from(params.text_document_position.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position.position;
     let references = crate::find_references::find_references(&mut compilation.unit, pos)?;
     let mut references = references
@@ -66,7 +66,7 @@ fn hover(
     params: lsp_types::HoverParams,
 ) -> Option<lsp_types::Hover> {
     let key = FileKey::from(params.text_document_position_params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position_params.position;
     crate::hover::hover(&mut compilation.unit, pos)
 }
@@ -76,7 +76,7 @@ fn completions(
     params: lsp_types::CompletionParams,
 ) -> Option<lsp_types::CompletionResponse> {
     let key = FileKey::from(params.text_document_position.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position.position;
     crate::completions::completions(&mut compilation.unit, pos)
 }
-- 
2.43.0


From 2b727ab9697d57fd89e91908d8382d3aaa035ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 17/31] fix: respond to requests that the server does not
 handle

---
 ticc-lsp/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index ff5136f..0939903 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -167,6 +167,12 @@ impl Handlers {
             }
         }
         eprintln!("unhandled request: {:?}", request.method);
+        let response = lsp_server::Response::new_err(
+            request.id,
+            lsp_server::ErrorCode::MethodNotFound as i32,
+            format!("unknown method {}", request.method),
+        );
+        server.sender.send(Message::Response(response)).unwrap();
         Ok(())
     }
 
-- 
2.43.0


From 2d45baee170a66af7fe915be31ee60c4247d9dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 18/31] fix: use the last of multiple content changes

---
 ticc-lsp/src/handlers.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index 3381b01..f60230a 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -95,8 +95,11 @@ fn on_change(
     params: lsp_types::DidChangeTextDocumentParams,
 ) {
     let key = FileKey::from(params.text_document.uri);
-    server.files.set(key.clone(), &params.content_changes[0].text);
-    on_file_update(server, key);
+    // changes are full texts, applied in order
+    if let Some(change) = params.content_changes.last() {
+        server.files.set(key.clone(), &change.text);
+        on_file_update(server, key);
+    }
 }
 
 fn on_close(
-- 
2.43.0


From 2393b6d7f162af9729e33429e3be0508df3de605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 19/31] fix: do not report a missing module as an import cycle
 when it is imported again

---
 ticc-lsp/src/main.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 0939903..89a624b 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -412,6 +412,20 @@ impl ModuleResolver for CompilationModuleResolver {
         };
 
         let source = self.files.get(&key);
+        let source_text = match source.content {
+            Ok(text) => text,
+            Err(e) => {
+                // remember that the module was needed in case it appears later
+                self.dependencies.lock().unwrap().insert(key, Dependency {
+                    unit: None,
+                    source_version: source.version,
+                });
+                return Err(match e {
+                    std::io::ErrorKind::NotFound => ticc::ImportError::DoesNotExist,
+                    other => ticc::ImportError::Io(other.into()),
+                });
+            }
+        };
 
         match self.dependencies.lock().unwrap().entry(key.clone()) {
             Entry::Occupied(e) => match e.get().unit.clone() {
@@ -430,12 +444,6 @@ impl ModuleResolver for CompilationModuleResolver {
             }
         }
 
-        let source_text = match source.content {
-            Ok(text) => text,
-            Err(std::io::ErrorKind::NotFound) => return Err(ticc::ImportError::DoesNotExist),
-            Err(other) => return Err(ticc::ImportError::Io(other.into())),
-        };
-
         let subresolver = Arc::new(CompilationModuleResolver {
             current_key: key.clone(),
             dependencies: self.dependencies.clone(),
-- 
2.43.0


From 99bc7172f6e6c052034b15955cfe19b8e43174f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 20/31] fix: report import cycles through the opened file

---
 ticc-lsp/src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 89a624b..bab9304 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -375,7 +375,14 @@ impl Compilation {
             let source_text = source.content.ok().unwrap_or_default();
 
             self.source_version = source.version;
-            self.dependencies.lock().unwrap().clear();
+            let mut dependencies = self.dependencies.lock().unwrap();
+            dependencies.clear();
+            // the root takes part in import cycles too
+            dependencies.insert(self.key.clone(), Dependency {
+                unit: None,
+                source_version: source.version,
+            });
+            drop(dependencies);
             self.unit = CompilationUnit::new(
                 &source_text,
                 ticc::Options::default(),
-- 
2.43.0


From 779c4566bbe52be879d89da57cd0ee028205e1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 21/31] fix: recognise a module no matter how the path to it is
 spelled

---
 ticc/src/main.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ticc/src/main.rs b/ticc/src/main.rs
index f23bb65..eaee5ad 100644
--- a/ticc/src/main.rs
+++ b/ticc/src/main.rs
@@ -226,6 +226,7 @@ impl FileModuleResolver {
             props: Default::default(),
         });
         let child = Arc::new(ChildResolver {
+            id: file_id(&path),
             path,
             root: resolver.clone(),
             parent: None,
@@ -234,8 +235,14 @@ impl FileModuleResolver {
     }
 }
 
+/// Identifies a file no matter how the path to it is spelled.
+fn file_id(path: &Path) -> PathBuf {
+    std::fs::canonicalize(path).unwrap_or_else(|_| path.to_owned())
+}
+
 struct ChildResolver {
     path: PathBuf,
+    id: PathBuf,
     root: Arc<FileModuleResolver>,
     parent: Option<Arc<ChildResolver>>,
 }
@@ -254,9 +261,10 @@ impl ChildResolver {
 impl ModuleResolver for ChildResolver {
     fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ticc::ImportError> {
         let path = self.relative_lookup(name);
+        let id = file_id(&path);
         let mut resolver = &*self;
         loop {
-            if resolver.path == path {
+            if resolver.id == id {
                 return Err(ticc::ImportError::ImportCycle);
             }
             match &resolver.parent {
@@ -267,7 +275,7 @@ impl ModuleResolver for ChildResolver {
 
         {
             let root = self.root.props.lock().unwrap();
-            if let Some(unit) = root.cache.get(&path).cloned() {
+            if let Some(unit) = root.cache.get(&id).cloned() {
                 return Ok(unit);
             }
         }
@@ -279,6 +287,7 @@ impl ModuleResolver for ChildResolver {
 
         let child_resolver = Arc::new(ChildResolver {
             path: path.clone(),
+            id: id.clone(),
             root: self.root.clone(),
             parent: Some(self.clone()),
         });
@@ -293,7 +302,7 @@ impl ModuleResolver for ChildResolver {
 
         {
             let mut root = self.root.props.lock().unwrap();
-            root.cache.insert(path.clone(), unit.clone());
+            root.cache.insert(id, unit.clone());
         }
 
         if diagnostics.iter().any(|d| d.severity == Severity::Error) {
-- 
2.43.0


From e9aab47a2c2dc87b66b24fa73c1fe69a4f425fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 22/31] fix: clamp positions past the end of a line to the end
 of that line

---
 ticc-lsp/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc-lsp/src/utils.rs b/ticc-lsp/src/utils.rs
index 87d146d..e1d2671 100644
--- a/ticc-lsp/src/utils.rs
+++ b/ticc-lsp/src/utils.rs
@@ -101,7 +101,7 @@ impl ToTicc for Position {
     type TiccRepr = Pos;
 
     fn to_ticc(self, translator: &mut LocationTranslator<'_>) -> Self::TiccRepr {
-        while !translator.complete && translator.line_starts.len() <= self.line as usize {
+        while !translator.complete && translator.line_starts.len() <= self.line as usize + 1 {
             translator.find_next_line_position();
         }
         let current = translator.line_starts.get(self.line as usize).copied();
-- 
2.43.0


From 746055c81694b07bc16eec257c9b7553539d72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 23/31] verif hooks: bytecode runtime and IR access (cfg
 tic_verif)

---
 ticc-eval/src/bytecode.rs | 124 ++++++++++++++++++++++++++++++++++++++
 ticc-eval/src/lib.rs      |   2 +
 ticc-eval/src/verif.rs    |  54 +++++++++++++++++
 ticc/src/lib.rs           |  12 ++++
 4 files changed, 192 insertions(+)
 create mode 100644 ticc-eval/src/verif.rs

diff --git a/ticc-eval/src/bytecode.rs b/ticc-eval/src/bytecode.rs
index da15246..8004a4d 100644
--- a/ticc-eval/src/bytecode.rs
+++ b/ticc-eval/src/bytecode.rs
@@ -141,6 +141,8 @@ impl Runtime {
     fn run(&mut self) -> Result<(), Trap> {
         let mut ip = CodeAddr(0);
         loop {
+            #[cfg(tic_verif)]
+            self.verif_step();
             let mut dst = CodeAddr(ip.0 + 1);
             // println!("executing op at {}: {:?}", ip.0, self.ops[ip.0]);
             match self.ops[ip.0] {
@@ -388,6 +390,8 @@ impl Runtime {
     /// `bytes` bytes of data. Operands must still be on the stack, because this
     /// might move them.
     fn reserve(&mut self, bytes: usize) {
+        #[cfg(tic_verif)]
+        let before = self.verif_before_reserve(bytes);
         // TODO: calculate size properly
         let need_bytes = bytes + 256;
         if self.heap.free_space() < bytes + 64 {
@@ -398,6 +402,8 @@ impl Runtime {
                 need_bytes as u32,
             );
         }
+        #[cfg(tic_verif)]
+        self.verif_after(before);
     }
 
     fn maybe_gc(&mut self) {
@@ -407,11 +413,15 @@ impl Runtime {
     }
 
     fn gc(&mut self) {
+        #[cfg(tic_verif)]
+        let before = self.verif_before();
         self.heap.collect(self.stack.ptrs()
             .chain(self.consts.iter_mut())
             .chain(std::iter::once(&mut self.bools.t))
             .chain(std::iter::once(&mut self.bools.f)),
         );
+        #[cfg(tic_verif)]
+        self.verif_after(before);
     }
 }
 
@@ -563,3 +573,117 @@ impl CtorTags {
         })
     }
 }
+
+#[cfg(tic_verif)]
+type Graph = (Vec<Addr>, Vec<u64>);
+
+#[cfg(tic_verif)]
+impl Runtime {
+    /// Called between instructions.
+    fn verif_step(&mut self) {
+        let stack = self.stack.0.len() as u64;
+        let (collect, grow) = crate::verif::with(|control, seen| {
+            seen.steps += 1;
+            seen.max_stack = seen.max_stack.max(stack);
+            let collect = control.every > 0 && seen.steps % control.every == 0;
+            seen.forced += u64::from(collect);
+            (collect, control.grow > 0 && seen.forced % control.grow == 0)
+        });
+        if collect && grow {
+            self.reserve(self.heap.free_space());
+        } else if collect {
+            self.gc();
+        }
+    }
+
+    fn verif_before_reserve(&mut self, bytes: usize) -> Option<Graph> {
+        let collect = crate::verif::with(|control, seen| {
+            seen.forced += u64::from(control.on_reserve);
+            control.on_reserve
+        });
+        if collect {
+            self.gc();
+        }
+        if self.heap.free_space() < bytes.saturating_add(1024) {
+            self.verif_before()
+        } else {
+            None
+        }
+    }
+
+    fn verif_before(&mut self) -> Option<Graph> {
+        if crate::verif::with(|control, _| control.check) {
+            Some(self.verif_graph())
+        } else {
+            None
+        }
+    }
+
+    fn verif_after(&mut self, before: Option<Graph>) {
+        let allocated = self.heap.allocated() as u64;
+        let capacity = self.heap.capacity() as u64;
+        let poison = crate::verif::with(|control, seen| {
+            seen.max_retained = seen.max_retained.max(allocated);
+            seen.max_capacity = seen.max_capacity.max(capacity);
+            control.poison
+        });
+        if poison {
+            let free = self.heap.free_space();
+            unsafe {
+                std::ptr::write_bytes(self.heap.base().cast::<u8>(), 0xDD, free);
+            }
+        }
+        let Some(before) = before else {
+            return;
+        };
+        let after = self.verif_graph();
+        crate::verif::with(|_, seen| {
+            seen.collections += 1;
+            seen.checked_objects += after.0.len() as u64;
+            seen.moved_objects += std::iter::zip(&before.0, &after.0).filter(|(a, b)| a != b).count() as u64;
+            seen.max_reachable = seen.max_reachable.max(after.0.len() as u64);
+            if before.1 != after.1 && seen.failure.is_none() {
+                let at = std::iter::zip(&before.1, &after.1).take_while(|(a, b)| a == b).count();
+                seen.failure = Some(format!(
+                    "collection {} changed what is reachable: {} words before, {} after, first difference at {}: {:x?} became {:x?}",
+                    seen.collections, before.1.len(), after.1.len(), at, before.1.get(at), after.1.get(at),
+                ));
+            }
+        });
+    }
+
+    /// All of the reachable objects in the order they are found, and their
+    /// contents, with pointers replaced by positions in that order.
+    fn verif_graph(&mut self) -> Graph {
+        let mut order = Vec::new();
+        let mut index = HashMap::new();
+        let mut words = Vec::new();
+        let mut visit = |value: Value, order: &mut Vec<Addr>, words: &mut Vec<u64>| match value {
+            Value::Int(x) => words.extend([0, x]),
+            Value::Ptr(ptr) => {
+                let next = order.len() as u64;
+                let id = *index.entry(ptr).or_insert(next);
+                if id == next {
+                    order.push(ptr);
+                }
+                words.extend([1, id]);
+            }
+        };
+        for i in 0..self.stack.0.len() {
+            visit(self.stack.0[i], &mut order, &mut words);
+        }
+        for &ptr in self.consts.iter().chain([&self.bools.t, &self.bools.f]) {
+            visit(Value::Ptr(ptr), &mut order, &mut words);
+        }
+        let mut done = 0;
+        while done < order.len() {
+            let (tag, fields) = self.heap.obj_with_fields(order[done]);
+            words.extend([2, tag]);
+            for field in fields {
+                visit(field, &mut order, &mut words);
+            }
+            done += 1;
+        }
+        (order, words)
+    }
+}
diff --git a/ticc-eval/src/lib.rs b/ticc-eval/src/lib.rs
index 503aefd..c455f6b 100644
--- a/ticc-eval/src/lib.rs
+++ b/ticc-eval/src/lib.rs
@@ -5,6 +5,8 @@ pub mod jit;
 pub mod lambda;
 mod tagged;
 pub mod treewalk;
+#[cfg(tic_verif)]
+pub mod verif;
 
 use std::fmt;
 use ticc_core::ir::ByteString;
diff --git a/ticc-eval/src/verif.rs b/ticc-eval/src/verif.rs
new file mode 100644
index 0000000..7cbf471
--- /dev/null
+++ b/ticc-eval/src/verif.rs
@@ -0,0 +1,54 @@
+//! Instrumentation of the bytecode runtime for external monitors, compiled
+//! only with `--cfg tic_verif`.
+
+use std::cell::RefCell;
+
+#[derive(Debug, Default, Clone)]
+pub struct Control {
+    /// Force a collection between two instructions every `every` instructions.
+    pub every: u64,
+    /// Force a collection whenever space is reserved for an object.
+    pub on_reserve: bool,
+    /// Grow the heap on every `grow`-th forced collection, so that all of the
+    /// objects get moved.
+    pub grow: u64,
+    /// Compare everything that is reachable before and after each collection.
+    pub check: bool,
+    /// Fill free space after each collection.
+    pub poison: bool,
+}
+
+#[derive(Debug, Default, Clone)]
+pub struct Observed {
+    pub steps: u64,
+    pub collections: u64,
+    pub forced: u64,
+    pub checked_objects: u64,
+    pub moved_objects: u64,
+    pub max_reachable: u64,
+    pub max_retained: u64,
+    pub max_capacity: u64,
+    pub max_stack: u64,
+    pub failure: Option<String>,
+}
+
+thread_local! {
+    static STATE: RefCell<Option<(Control, Observed)>> = const { RefCell::new(None) };
+}
+
+/// Watch evaluations on this thread.
+pub fn start(control: Control) {
+    STATE.with(|s| *s.borrow_mut() = Some((control, Observed::default())));
+}
+
+/// Stop watching evaluations on this thread.
+pub fn stop() -> Option<Observed> {
+    STATE.with(|s| s.borrow_mut().take()).map(|(_, observed)| observed)
+}
+
+pub(crate) fn with<T: Default>(f: impl FnOnce(&Control, &mut Observed) -> T) -> T {
+    STATE.with(|s| match &mut *s.borrow_mut() {
+        Some((control, observed)) => f(control, observed),
+        None => T::default(),
+    })
+}
diff --git a/ticc/src/lib.rs b/ticc/src/lib.rs
index e0f5728..0f089f7 100644
--- a/ticc/src/lib.rs
+++ b/ticc/src/lib.rs
@@ -20,6 +20,18 @@ pub use crate::api::info::Info;
 pub use crate::api::completion::Completion;
 pub use crate::codegen::Options;
 
+#[cfg(tic_verif)]
+pub mod verif {
+    //! Access to the intermediate representation for external monitors.
+
+    use ticc_core::ir;
+
+    /// Compile a unit the same way it is done for evaluation.
+    pub fn with_core<T>(unit: &mut crate::CompilationUnit, f: impl FnOnce(ir::Program<'_>) -> T) -> T {
+        f(crate::codegen::emit_core(unit))
+    }
+}
+
 pub struct CompilationUnit {
     key: ModuleKey,
     src: Arc<str>,
-- 
2.43.0


From 5d601f4d73a50a32e39e882b28b20a052e35ee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:36 +0000
Subject: [PATCH 24/31] verif hooks: read strings as bytes

---
 ticc-eval/src/bytecode.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ticc-eval/src/bytecode.rs b/ticc-eval/src/bytecode.rs
index 8004a4d..44a0aec 100644
--- a/ticc-eval/src/bytecode.rs
+++ b/ticc-eval/src/bytecode.rs
@@ -677,10 +677,14 @@ impl Runtime {
         }
         let mut done = 0;
         while done < order.len() {
-            let (tag, fields) = self.heap.obj_with_fields(order[done]);
+            let (tag, bytes) = self.heap.obj_with_bytes(order[done]);
             words.extend([2, tag]);
-            for field in fields {
-                visit(field, &mut order, &mut words);
+            if tag & !TAG_MASK == STRING_TAG {
+                words.extend(bytes.iter().map(|&b| u64::from(b)));
+            } else {
+                for field in self.heap.obj_with_fields(order[done]).1 {
+                    visit(field, &mut order, &mut words);
+                }
             }
             done += 1;
         }
-- 
2.43.0


From d16b0202f9c12af0ca53bee936a13bf85e43ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:02 +0000
Subject: [PATCH 25/31] fix: words of heap objects were written through a
 pointer for reading

---
 ticc-eval/src/heap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc-eval/src/heap.rs b/ticc-eval/src/heap.rs
index b0ed33a..01e33c1 100644
--- a/ticc-eval/src/heap.rs
+++ b/ticc-eval/src/heap.rs
@@ -220,7 +220,7 @@ fn bytes_to_words(bytes: &[u8]) -> &[u64] {
 
 fn bytes_to_words_mut(bytes: &mut [u8]) -> &mut [u64] {
     unsafe {
-        std::slice::from_raw_parts_mut(bytes.as_ptr() as *mut u64, bytes.len() / 8)
+        std::slice::from_raw_parts_mut(bytes.as_mut_ptr() as *mut u64, bytes.len() / 8)
     }
 }
 
-- 
2.43.0


From 3902cd6458e34240c51ae208b4de2f238961dfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 26/31] fix: jit took the capacity of its stack in words for
 bytes

---
 ticc-eval/src/jit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc-eval/src/jit.rs b/ticc-eval/src/jit.rs
index 502589a..fdb62c8 100644
--- a/ticc-eval/src/jit.rs
+++ b/ticc-eval/src/jit.rs
@@ -42,7 +42,7 @@ fn exec_in_heap(ops: &[compile::Op], heap: &mut Heap, pick: usize) -> Result<Vec
         consts: assebmled.consts.as_mut_ptr().cast::<u64>(),
         trap: u64::MAX,
         stack_check: initial_stack_ptr,
-        stack_capacity: stack.capacity() as u64 / 8,
+        stack_capacity: stack.capacity() as u64,
         heap_base: heap.base(),
         heap,
         num_consts: assebmled.consts.len(),
-- 
2.43.0


From f43943a26faf88ce220524b1cf7d70cc17bf9bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 27/31] fix: jit sign extended integer literals from 2^31 to
 2^32-1

---
 ticc-eval/src/jit.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ticc-eval/src/jit.rs b/ticc-eval/src/jit.rs
index fdb62c8..e0b850e 100644
--- a/ticc-eval/src/jit.rs
+++ b/ticc-eval/src/jit.rs
@@ -274,9 +274,10 @@ fn assemble(ops: &[compile::Op], heap: &mut Heap) -> Result<Assembled, iced_x86:
             compile::Op::PushInt(x) => {
                 asm.add(stack_ptr, 16)?;
                 asm.mov(qword_ptr(stack_ptr - 8), INT_STACK_TAG)?;
+                // immediate operand is sign extended
                 if let Ok(x) = (*x).try_into() {
-                    let x: u32 = x;
-                    asm.mov(qword_ptr(stack_ptr), x as i32)?;
+                    let x: i32 = x;
+                    asm.mov(qword_ptr(stack_ptr), x)?;
                 } else {
                     asm.mov(tmp1, *x)?;
                     asm.mov(qword_ptr(stack_ptr), tmp1)?;
-- 
2.43.0


From 65741a5280ddccaf848510bbe884ca3bd1038cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 28/31] fix: jit heap had no space for objects larger than the
 free half

---
 ticc-eval/src/jit.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/ticc-eval/src/jit.rs b/ticc-eval/src/jit.rs
index e0b850e..75be1cc 100644
--- a/ticc-eval/src/jit.rs
+++ b/ticc-eval/src/jit.rs
@@ -140,6 +140,12 @@ impl ExecState {
         }
     }
 
+    fn string_len(&self, nth: usize) -> usize {
+        let heap = unsafe { &*self.heap };
+        let (tag, _) = heap.obj_with_bytes(self.pick_ptr(nth));
+        (tag & TAG_MASK) as usize
+    }
+
     fn pop(&mut self) {
         self.stack_ptr -= 16;
     }
@@ -162,14 +168,23 @@ impl ExecState {
         }
     }
 
+    /// Make sure that there is space for an object with `bytes` bytes of data.
+    /// Operands must still be on the stack, because this might move them.
+    fn reserve(&mut self, bytes: usize) {
+        let heap = unsafe { &mut *self.heap };
+        if heap.free_space() < bytes + 64 {
+            self.gc(bytes as u32 + 256);
+        }
+    }
+
     fn maybe_gc(&mut self) {
         let heap = unsafe { &mut *self.heap };
         if heap.allocated() > heap.capacity() / 2 {
-            self.gc();
+            self.gc(0);
         }
     }
 
-    fn gc(&mut self) {
+    fn gc(&mut self, ensure_free: u32) {
         unsafe {
             let stack_size = ((self.stack_ptr + 8 - self.stack_start) / 16) as usize;
             let stack_ptr = self.stack_start as *mut u64;
@@ -187,10 +202,11 @@ impl ExecState {
             fn make_addr(x: &mut u64) -> &mut Addr {
                 unsafe { std::mem::transmute(x) }
             }
-            heap.collect(stack_ptrs
+            heap.collect_and_grow(stack_ptrs
                 .chain(consts.iter_mut())
                 .chain(std::iter::once(make_addr(&mut self.true_addr)))
                 .chain(std::iter::once(make_addr(&mut self.false_addr))),
+                ensure_free,
             );
             self.heap_base = heap.base();
         }
@@ -686,6 +702,7 @@ fn assemble(ops: &[compile::Op], heap: &mut Heap) -> Result<Assembled, iced_x86:
 }
 
 extern "C" fn alloc_obj(state: &mut ExecState, tag: u64, fields: u64) {
+    state.reserve(fields as usize * 8 + fields as usize / 64 * 8);
     let heap = unsafe { &mut *state.heap };
     let mut obj = heap.alloc_object(tag, fields as u32);
     if fields > 0 {
@@ -736,6 +753,7 @@ fn intrinsic_address(i: extern "C" fn(&mut ExecState)) -> u64 {
 }
 
 extern "C" fn string_concat(state: &mut ExecState) {
+    state.reserve(state.string_len(1) + state.string_len(0));
     let heap = unsafe { &mut *state.heap };
     let ptr1 = state.pick_ptr(1);
     let ptr2 = state.pick_ptr(0);
@@ -777,6 +795,7 @@ extern "C" fn string_char_at(state: &mut ExecState) {
 }
 
 extern "C" fn string_from_char(state: &mut ExecState) {
+    state.reserve(1);
     let heap = unsafe { &mut *state.heap };
     let x = state.pick_int(0);
     state.pop();
@@ -788,10 +807,11 @@ extern "C" fn string_from_char(state: &mut ExecState) {
 }
 
 extern "C" fn int_to_string(state: &mut ExecState) {
-    let heap = unsafe { &mut *state.heap };
     let x = state.pick_int(0);
-    state.pop();
     let s = x.to_string();
+    state.reserve(s.len());
+    let heap = unsafe { &mut *state.heap };
+    state.pop();
     let obj = heap.alloc_bytes(s.len() as u64 | STRING_TAG, s.len() as u32);
     obj.bytes[..s.len()].copy_from_slice(s.as_bytes());
     state.push_ptr(obj.addr);
@@ -800,6 +820,7 @@ extern "C" fn int_to_string(state: &mut ExecState) {
 }
 
 extern "C" fn string_substring(state: &mut ExecState) {
+    state.reserve(state.string_len(0).min(state.pick_int(1) as usize));
     let heap = unsafe { &mut *state.heap };
     let s = state.pick_ptr(0);
     state.pop();
-- 
2.43.0


From 478403033acf9c49a6538da6a04889f1b77aea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:12 +0000
Subject: [PATCH 29/31] fix: a failed write named the input instead of the
 output file

---
 ticc/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ticc/src/main.rs b/ticc/src/main.rs
index eaee5ad..827264e 100644
--- a/ticc/src/main.rs
+++ b/ticc/src/main.rs
@@ -96,7 +96,7 @@ fn main() {
             println!("{}", ir);
         } else {
             std::fs::write(&output_file, ir.as_bytes()).unwrap_or_else(|e| {
-                eprintln!("error: cannot write {}", path.display());
+                eprintln!("error: cannot write {}", output_file.display());
                 eprintln!("    {}", e);
                 std::process::exit(1);
             });
@@ -113,7 +113,7 @@ fn main() {
             println!("{}", result);
         } else {
             std::fs::write(&output_file, result.as_bytes()).unwrap_or_else(|e| {
-                eprintln!("error: cannot write {}", path.display());
+                eprintln!("error: cannot write {}", output_file.display());
                 eprintln!("    {}", e);
                 std::process::exit(1);
             });
@@ -149,7 +149,7 @@ fn main() {
             println!("{}", String::from_utf8_lossy(&result));
         } else {
             std::fs::write(&output_file, result).unwrap_or_else(|e| {
-                eprintln!("error: cannot write {}", path.display());
+                eprintln!("error: cannot write {}", output_file.display());
                 eprintln!("    {}", e);
                 std::process::exit(1);
             });
-- 
2.43.0


From 905bc11cd7ff6d7771ef6140ae52c894f2550f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:44 +0000
Subject: [PATCH 30/31] fix: missing constructors of other modules were called
 WTF

---
 ticc/src/api.rs        | 16 ++++++++++++++++
 ticc/src/api/errors.rs | 10 +---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/ticc/src/api.rs b/ticc/src/api.rs
index c9b4687..9301f49 100644
--- a/ticc/src/api.rs
+++ b/ticc/src/api.rs
@@ -52,6 +52,22 @@ fn find_def(compilation: &CompilationUnit, symbol: ir::Symbol) -> Option<&ir::De
     None
 }
 
+/// Name of a definition that might be in another module.
+fn find_name(compilation: &CompilationUnit, symbol: ir::Symbol) -> Option<&str> {
+    if let Some(def) = find_def(compilation, symbol) {
+        return Some(&compilation.src[def.span.source_range()]);
+    }
+    compilation.items
+        .iter()
+        .flat_map(|item| &item.defs)
+        .find_map(|def| match &def.kind {
+            ir::DefKind::Module { unit } if unit.props.types.contains_key(&symbol) => {
+                find_name(&unit.props.unit, symbol)
+            }
+            _ => None,
+        })
+}
+
 struct TypePrinter<'a> {
     compilation: &'a CompilationUnit,
     name_cache: HashMap<ir::Symbol, &'a str>,
diff --git a/ticc/src/api/errors.rs b/ticc/src/api/errors.rs
index cc56e2c..5d0c3e3 100644
--- a/ticc/src/api/errors.rs
+++ b/ticc/src/api/errors.rs
@@ -50,15 +50,7 @@ fn format_message(
                 type_printer.print_type(ty, &mut message);
             }
             RawSegment::Symbol(sym) => {
-                let def = match super::find_def(compilation, *sym) {
-                    Some(d) => d,
-                    None => {
-                        message.push_str("WTF");
-                        continue;
-                    }
-                };
-                let name = &compilation.src[def.span.source_range()];
-                message.push_str(name);
+                message.push_str(super::find_name(compilation, *sym).unwrap_or("???"));
             }
         }
     }
-- 
2.43.0


From 4fa4dd70053a8c266b75c0a5b585df1a3d3e4c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:39 +0000
Subject: [PATCH 31/31] fix: with several exported mains the first one was run
 instead of the last

---
 ticc/src/interpreter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ticc/src/interpreter.rs b/ticc/src/interpreter.rs
index 5952639..241780a 100644
--- a/ticc/src/interpreter.rs
+++ b/ticc/src/interpreter.rs
@@ -63,6 +63,7 @@ fn do_eval_main<F>(compilation: &mut CompilationUnit, runner: ExecFn<F>, input:
                 },
                 _ => return Err(InterpretError::InvalidMain),
             }
+            break;
         }
     }
     let main = match main {
-- 
2.43.0

