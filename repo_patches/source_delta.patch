From de93748859486af478dc5671f9d1bc4434a5e0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 01/31] fix: reject methods needing more than 15 arguments of a
 class

The counts word of an invocation has four bits per class of argument, larger
counts overflowed into the neighbouring class. Objects embedded in structs
(also through nested structs and arrays) count as object arguments.
---
 idlc_mir/src/mir.rs                       | 89 +++++++++++++++++++----
 idlc_mir_passes/src/interface_verifier.rs | 88 +++++++++++++++++++++-
 2 files changed, 161 insertions(+), 16 deletions(-)

diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index c72aa59..276546a 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -28,7 +28,7 @@ use idlc_ast::Ast;
 pub use idlc_ast::Ident;
 use idlc_ast_passes::idl_store::IDLStore;
 
-use std::collections::{HashMap, VecDeque};
+use std::collections::VecDeque;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 
@@ -128,6 +128,15 @@ impl StructField {
 
         size * usize::from(count.get())
     }
+
+    pub fn alignment(&self) -> usize {
+        match &self.val.0 {
+            Type::Primitive(p) => p.size(),
+            Type::Struct(s) => s.as_ref().alignment(),
+            Type::Interface(_) => Primitive::Uint64.size(),
+            _ => unreachable!(),
+        }
+    }
 }
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -186,27 +195,24 @@ impl StructInner {
         self.fields.iter().fold(0, |acc, e| acc + e.size())
     }
 
+    #[inline]
+    pub fn alignment(&self) -> usize {
+        self.fields.iter().fold(1, |acc, e| acc.max(e.alignment()))
+    }
+
     pub fn objects(&self) -> Vec<(Vec<&Ident>, Option<&str>)> {
         let mut queue = VecDeque::new();
-        let mut parents = HashMap::new();
         let mut objects = Vec::new();
-        queue.push_back(self);
+        queue.push_back((Vec::new(), self));
 
-        while let Some(node) = queue.pop_front() {
+        while let Some((parents, node)) = queue.pop_front() {
             for field in &node.fields {
                 let (ty, _) = &field.val;
+                let mut path: Vec<&Ident> = parents.clone();
+                path.push(&field.ident);
                 if let Type::Struct(s) = ty {
-                    parents.insert(s.as_ref(), (node, Some(&field.ident)));
-                    queue.push_back(s.as_ref());
+                    queue.push_back((path, s.as_ref()));
                 } else if let Type::Interface(interface) = ty {
-                    // Reconstruct path information.
-                    let mut path = vec![&field.ident];
-                    let mut current = node;
-                    while let Some((parent, Some(parent_ident))) = parents.get(current) {
-                        path.push(*parent_ident);
-                        current = parent;
-                    }
-                    path.reverse();
                     objects.push((path, interface.as_deref()));
                 }
             }
@@ -215,6 +221,59 @@ impl StructInner {
         objects
     }
 
+    /// Number of object handles stored in the struct.
+    pub fn object_count(&self) -> usize {
+        self.fields.iter().fold(0usize, |acc, field| {
+            let (ty, count) = &field.val;
+            let objects = match ty {
+                Type::Struct(s) => s.as_ref().object_count(),
+                Type::Interface(_) => 1,
+                _ => 0,
+            };
+
+            acc.saturating_add(objects.saturating_mul(usize::from(count.get())))
+        })
+    }
+
+    /// Paths to every single object handle stored in the struct, in the order
+    /// in which they're conveyed as arguments.
+    ///
+    /// Unlike [`StructInner::objects`] each element of an array field has its
+    /// own entry, elements are spelled `field[index]`.
+    pub fn object_slots(&self) -> Vec<(Vec<Ident>, Option<&str>)> {
+        let mut queue = VecDeque::new();
+        let mut slots = Vec::new();
+        queue.push_back((Vec::new(), self));
+
+        while let Some((parents, node)) = queue.pop_front() {
+            for field in &node.fields {
+                let (ty, count) = &field.val;
+                if match ty {
+                    Type::Struct(s) => !s.as_ref().contains_interfaces(),
+                    Type::Interface(_) => false,
+                    _ => true,
+                } {
+                    continue;
+                }
+                for i in 0..count.get() {
+                    let mut path: Vec<Ident> = parents.clone();
+                    path.push(if count.get() == 1 {
+                        field.ident.clone()
+                    } else {
+                        Ident::new(format!("{}[{i}]", field.ident), field.ident.span)
+                    });
+                    if let Type::Struct(s) = ty {
+                        queue.push_back((path, s.as_ref()));
+                    } else if let Type::Interface(interface) = ty {
+                        slots.push((path, interface.as_deref()));
+                    }
+                }
+            }
+        }
+
+        slots
+    }
+
     pub fn is_primitive_struct(&self) -> bool {
         self.objects().is_empty()
     }
@@ -405,7 +464,7 @@ impl Ord for Param {
                     } else if !self.is_array() && other.is_array() {
                         std::cmp::Ordering::Less
                     } else {
-                        std::cmp::Ordering::Greater
+                        std::cmp::Ordering::Equal
                     }
                 }
                 (Type::Interface(_), _) => std::cmp::Ordering::Greater,
diff --git a/idlc_mir_passes/src/interface_verifier.rs b/idlc_mir_passes/src/interface_verifier.rs
index 5f44669..363c335 100644
--- a/idlc_mir_passes/src/interface_verifier.rs
+++ b/idlc_mir_passes/src/interface_verifier.rs
@@ -68,7 +68,10 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                                 args_array_in = true;
                                             };
                                             if let Type::Struct(_) | Type::Primitive(_) = t {
-                                                if let Type::Struct(Struct::Big(s)) = t {
+                                                if let Type::Struct(
+                                                    Struct::Big(s) | Struct::Small(s),
+                                                ) = t
+                                                {
                                                     if s.contains_interfaces() {
                                                         idlc_errors::unrecoverable!(
                                                             "Struct with Object inside cannot be used as an array",
@@ -144,6 +147,15 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                     src.ident, f.ident,
                                 );
                             }
+
+                            for (kind, count) in ArgumentCounts::new(f).by_kind() {
+                                if count > MAX_ARGS_PER_KIND {
+                                    idlc_errors::unrecoverable!(
+                                        "Interface `{}`, method `{}` needs {count} {kind} arguments, at most {MAX_ARGS_PER_KIND} can be invoked",
+                                        src.ident, f.ident,
+                                    );
+                                }
+                            }
                         }
                     }
                 }
@@ -152,6 +164,80 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
     }
 }
 
+/// The number of arguments of each kind are packed in 4 bits for an invocation.
+const MAX_ARGS_PER_KIND: usize = 0xf;
+
+#[derive(Debug, Default)]
+struct ArgumentCounts {
+    input_buffers: usize,
+    output_buffers: usize,
+    input_objects: usize,
+    output_objects: usize,
+}
+
+impl ArgumentCounts {
+    fn new(function: &idlc_mir::Function) -> Self {
+        let mut me = Self::default();
+        let mut has_bundled_input = false;
+        let mut has_bundled_output = false;
+
+        for param in &function.params {
+            let (buffers, objects, has_bundled) = if param.is_input() {
+                (
+                    &mut me.input_buffers,
+                    &mut me.input_objects,
+                    &mut has_bundled_input,
+                )
+            } else {
+                (
+                    &mut me.output_buffers,
+                    &mut me.output_objects,
+                    &mut has_bundled_output,
+                )
+            };
+            let count = match param {
+                idlc_mir::Param::In {
+                    r#type: ParamTypeIn::Array(_, cnt),
+                    ident: _,
+                }
+                | idlc_mir::Param::Out {
+                    r#type: ParamTypeOut::Array(_, cnt),
+                    ident: _,
+                } => cnt.map_or(1, |cnt| usize::from(cnt.get())),
+                _ => 1,
+            };
+
+            match param.r#type() {
+                Type::Interface(_) => *objects += count,
+                _ if param.is_array() => *buffers += 1,
+                Type::UntypedBuffer => *buffers += 1,
+                Type::Primitive(_) => *has_bundled = true,
+                Type::Struct(Struct::Small(s)) => {
+                    *has_bundled = true;
+                    *objects += s.object_count();
+                }
+                Type::Struct(Struct::Big(s)) => {
+                    *buffers += 1;
+                    *objects += s.object_count();
+                }
+            }
+        }
+        me.input_buffers += usize::from(has_bundled_input);
+        me.output_buffers += usize::from(has_bundled_output);
+
+        me
+    }
+
+    fn by_kind(&self) -> [(&'static str, usize); 4] {
+        [
+            ("input buffer", self.input_buffers),
+            ("output buffer", self.output_buffers),
+            ("input object", self.input_objects),
+            ("output object", self.output_objects),
+        ]
+    }
+}
+
 struct CollisionDetector<'a> {
     src: &'a idlc_mir::Interface,
     inner: HashSet<&'a idlc_ast::Ident>,
-- 
2.43.0


From b2840e075658af923c4e87b17b3a47883b55c302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 02/31] fix: generated C++ proxies only derive from the direct
 base

Listing all the ancestors made the base classes ambiguous for inheritance
chains deeper than two.
---
 idlc_codegen_cpp/src/interface/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index 419ffca..b836887 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -19,7 +19,6 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
 
     // need to have all of the base-class functions, error-codes and const values
     interface.iter().skip(1).for_each(|iface| {
-        base_iface.push_str(&format!("I{} ", &iface.ident.to_string()));
         iface.nodes.iter().for_each(|node| match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
@@ -108,8 +107,8 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
         }
     }
 
-    if !base_iface.is_empty() {
-        base_iface = format!(": public {base_iface}");
+    if let Some(base) = &interface.base {
+        base_iface = format!(": public I{} ", base.ident);
     }
 
     format!(
-- 
2.43.0


From 29369067d7354ad4fe41b9fa7dcc3d82336cdc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 03/31] fix: lay out invocation arguments as BI, BO, IO, OO in
 C, C++ and Rust

Arguments were placed in parameter order in some methods: objects embedded in
bundled structs were transmitted inside of the bundle instead of as arguments,
nested paths and arrays of objects in structs were dropped, bundles with a
misaligned member had padding, and outputs of failed calls were adopted.
---
 idlc_codegen/src/counts.rs                    | 113 +++++++++++++++++-
 idlc_codegen/src/serialization.rs             |  66 ++++++++++
 .../src/interface/functions/implementation.rs | 109 ++++++++---------
 .../src/interface/functions/invoke.rs         | 111 +++++++++++------
 .../src/interface/functions/serialization.rs  |  47 ++------
 .../src/interface/functions/signature.rs      |  26 +++-
 .../src/interface/functions/implementation.rs |  66 +++++-----
 .../src/interface/functions/invoke.rs         |  23 ++--
 .../src/interface/functions/serialization.rs  |  45 +++----
 .../src/interface/functions/signature.rs      |  26 +++-
 .../src/interface/functions/implementation.rs |  74 ++++++++----
 .../src/interface/functions/invoke.rs         |  84 ++++++++-----
 .../src/interface/functions/serialization.rs  |  27 ++++-
 .../src/interface/functions/signature.rs      |   2 +-
 14 files changed, 549 insertions(+), 270 deletions(-)

diff --git a/idlc_codegen/src/counts.rs b/idlc_codegen/src/counts.rs
index 75a25b4..7303c81 100644
--- a/idlc_codegen/src/counts.rs
+++ b/idlc_codegen/src/counts.rs
@@ -9,8 +9,8 @@ pub struct Counter {
     pub input_objects: u8,
     pub output_objects: u8,
     pub output_buffers: u8,
-    pub total_bundled_input: u8,
-    pub total_bundled_output: u8,
+    pub total_bundled_input: usize,
+    pub total_bundled_output: usize,
 
     has_bundled_input: bool,
     has_bundled_output: bool,
@@ -34,15 +34,16 @@ impl super::functions::ParameterVisitor for Counter {
     }
 
     #[inline]
-    fn visit_input_small_struct(&mut self, _: &Ident, _: &StructInner) {
+    fn visit_input_small_struct(&mut self, _: &Ident, s: &StructInner) {
         self.has_bundled_input = true;
         self.total_bundled_input += 1;
+        self.input_objects += u8::try_from(s.object_slots().len()).unwrap();
     }
 
     #[inline]
     fn visit_input_big_struct(&mut self, _: &Ident, s: &StructInner) {
         self.input_buffers += 1;
-        self.input_objects += u8::try_from(s.objects().len()).unwrap();
+        self.input_objects += u8::try_from(s.object_slots().len()).unwrap();
     }
 
     #[inline]
@@ -71,15 +72,16 @@ impl super::functions::ParameterVisitor for Counter {
         self.total_bundled_output += 1;
     }
     #[inline]
-    fn visit_output_small_struct(&mut self, _: &Ident, _: &StructInner) {
+    fn visit_output_small_struct(&mut self, _: &Ident, s: &StructInner) {
         self.has_bundled_output = true;
         self.total_bundled_output += 1;
+        self.output_objects += u8::try_from(s.object_slots().len()).unwrap();
     }
 
     #[inline]
     fn visit_output_big_struct(&mut self, _: &Ident, s: &StructInner) {
         self.output_buffers += 1;
-        self.output_objects += u8::try_from(s.objects().len()).unwrap();
+        self.output_objects += u8::try_from(s.object_slots().len()).unwrap();
     }
 
     #[inline]
@@ -111,3 +113,102 @@ impl Counter {
         (self.input_buffers + self.input_objects + self.output_buffers + self.output_objects) as u32
     }
 }
+
+/// Hands out positions in the argument array of an invocation.
+///
+/// All the input buffers come first, followed by all the output buffers, then
+/// all the input objects and finally all the output objects.
+#[derive(Debug, Clone, Copy, Default)]
+pub struct ArgIndices {
+    input_buffer: usize,
+    output_buffer: usize,
+    input_object: usize,
+    output_object: usize,
+}
+
+impl ArgIndices {
+    #[must_use]
+    pub fn new(function: &idlc_mir::Function) -> Self {
+        let counts = Counter::new(function);
+        let output_buffer = usize::from(counts.input_buffers);
+        let input_object = output_buffer + usize::from(counts.output_buffers);
+        let output_object = input_object + usize::from(counts.input_objects);
+
+        Self {
+            input_buffer: 0,
+            output_buffer,
+            input_object,
+            output_object,
+        }
+    }
+
+    #[inline]
+    fn advance(idx: &mut usize) -> usize {
+        *idx += 1;
+        *idx - 1
+    }
+
+    #[inline]
+    pub fn input_buffer(&mut self) -> usize {
+        Self::advance(&mut self.input_buffer)
+    }
+
+    #[inline]
+    pub fn output_buffer(&mut self) -> usize {
+        Self::advance(&mut self.output_buffer)
+    }
+
+    #[inline]
+    pub fn input_object(&mut self) -> usize {
+        Self::advance(&mut self.input_object)
+    }
+
+    #[inline]
+    pub fn output_object(&mut self) -> usize {
+        Self::advance(&mut self.output_object)
+    }
+}
+
+/// Argument initializers of an invocation, grouped by the kind of argument.
+#[derive(Debug, Clone, Default)]
+pub struct Args {
+    pub input_buffers: Vec<String>,
+    pub output_buffers: Vec<String>,
+    pub input_objects: Vec<String>,
+    pub output_objects: Vec<String>,
+
+    first: ArgIndices,
+}
+
+impl Args {
+    #[must_use]
+    pub fn new(function: &idlc_mir::Function) -> Self {
+        Self {
+            first: ArgIndices::new(function),
+            ..Default::default()
+        }
+    }
+
+    /// Argument initializers in the order in which they're placed in the
+    /// argument array.
+    pub fn iter(&self) -> impl Iterator<Item = &str> {
+        self.input_buffers
+            .iter()
+            .chain(&self.output_buffers)
+            .chain(&self.input_objects)
+            .chain(&self.output_objects)
+            .map(String::as_str)
+    }
+
+    /// Position in the argument array of the output buffer pushed next.
+    #[must_use]
+    pub fn next_output_buffer(&self) -> usize {
+        self.first.output_buffer + self.output_buffers.len()
+    }
+
+    /// Position in the argument array of the output object pushed next.
+    #[must_use]
+    pub fn next_output_object(&self) -> usize {
+        self.first.output_object + self.output_objects.len()
+    }
+}
diff --git a/idlc_codegen/src/serialization.rs b/idlc_codegen/src/serialization.rs
index f1a0adb..ca03d43 100644
--- a/idlc_codegen/src/serialization.rs
+++ b/idlc_codegen/src/serialization.rs
@@ -13,6 +13,20 @@ impl Type {
             Self::SmallStruct(s) => s.size(),
         }
     }
+
+    pub fn alignment(&self) -> usize {
+        match self {
+            Self::Primitive(p) => p.size(),
+            Self::SmallStruct(s) => s.alignment(),
+        }
+    }
+
+    pub fn contains_interfaces(&self) -> bool {
+        match self {
+            Self::Primitive(_) => false,
+            Self::SmallStruct(s) => s.contains_interfaces(),
+        }
+    }
 }
 impl PartialOrd<Self> for Type {
     #[inline]
@@ -106,6 +120,28 @@ impl PackedPrimitives {
         me
     }
 
+    /// A bundle has no padding between its members. This is `true` if some
+    /// member isn't naturally aligned because of that.
+    fn is_misaligned(pairs: &[Pair]) -> bool {
+        let mut offset = 0;
+        pairs.iter().any(|pair| {
+            let start = offset;
+            offset += pair.ty.size();
+
+            start % pair.ty.alignment() != 0
+        })
+    }
+
+    #[must_use]
+    pub fn is_input_misaligned(&self) -> bool {
+        Self::is_misaligned(&self.inputs)
+    }
+
+    #[must_use]
+    pub fn is_output_misaligned(&self) -> bool {
+        Self::is_misaligned(&self.outputs)
+    }
+
     #[must_use]
     pub fn inputs_by_idents(&self) -> impl ExactSizeIterator<Item = (&idlc_mir::Ident, &Type)> {
         self.inputs.iter().map(|pair| (&pair.ident, &pair.ty))
@@ -116,6 +152,36 @@ impl PackedPrimitives {
         self.inputs.iter().map(|pair| (pair.nth_param, &pair.ty))
     }
 
+    /// Objects embedded in the bundled inputs as the struct's identifier, path
+    /// to the object inside the struct and the type of the object.
+    pub fn input_objects(
+        &self,
+    ) -> impl Iterator<Item = (&idlc_mir::Ident, String, Option<&str>)> {
+        Self::objects(&self.inputs)
+    }
+
+    /// Same as [`PackedPrimitives::input_objects`] for the bundled outputs.
+    pub fn output_objects(
+        &self,
+    ) -> impl Iterator<Item = (&idlc_mir::Ident, String, Option<&str>)> {
+        Self::objects(&self.outputs)
+    }
+
+    fn objects(
+        pairs: &[Pair],
+    ) -> impl Iterator<Item = (&idlc_mir::Ident, String, Option<&str>)> {
+        pairs.iter().flat_map(|pair| {
+            let slots = match &pair.ty {
+                Type::Primitive(_) => vec![],
+                Type::SmallStruct(s) => s.object_slots(),
+            };
+            slots.into_iter().map(|(path, ty)| {
+                let path: Vec<String> = path.iter().map(ToString::to_string).collect();
+                (&pair.ident, path.join("."), ty)
+            })
+        })
+    }
+
     #[must_use]
     pub fn input_types(&self) -> impl ExactSizeIterator<Item = &Type> {
         self.inputs.iter().map(|pair| &pair.ty)
diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index 35eb654..5a303be 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -1,6 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+use idlc_codegen::counts::Args;
 use idlc_mir::Ident;
 
 use crate::interface::variable_names::invoke::{ARGS, OBJECTBUF, OBJECTBUFIN, OP};
@@ -11,31 +12,31 @@ use super::serialization::TransportBuffer;
 
 #[derive(Debug, Clone, Default)]
 pub struct Implementation {
-    pub args: Vec<String>,
+    pub args: Args,
     pub initializations: Vec<String>,
     pub pre_call: Vec<String>,
     pub post_call: Vec<String>,
-
-    idx: usize,
 }
 
 impl Implementation {
     pub fn new(function: &idlc_mir::Function) -> Self {
-        let mut me = Self {
-            args: vec![],
-            initializations: vec![],
-            pre_call: vec![],
-            post_call: vec![],
-            idx: 0,
-        };
+        let mut me = Self::with_args(function);
 
         idlc_codegen::functions::visit_params_with_bundling(function, &mut me);
 
         me
     }
 
+    /// Empty implementation which is yet to visit the parameters of `function`.
+    pub fn with_args(function: &idlc_mir::Function) -> Self {
+        Self {
+            args: Args::new(function),
+            ..Default::default()
+        }
+    }
+
     pub fn args(&self) -> String {
-        self.args.concat()
+        self.args.iter().collect()
     }
 
     pub fn initializations(&self) -> String {
@@ -51,34 +52,22 @@ impl Implementation {
     }
 }
 
-impl Implementation {
-    #[inline]
-    pub fn idx(&mut self) -> usize {
-        let idx = self.idx;
-        self.idx += 1;
-
-        idx
-    }
-}
-
 impl idlc_codegen::functions::ParameterVisitor for Implementation {
     fn visit_input_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
-        let _idx = self.idx();
         let name = format!("{}_ptr", ident);
         let ty = change_primitive(ty);
 
-        self.args.push(format!(
+        self.args.input_buffers.push(format!(
             r#"
         {{.bi = ({OBJECTBUFIN}) {{ {name}, {ident}_len * sizeof({ty}) }} }},"#
         ));
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        let _idx = self.idx();
         let name = format!("{}_ptr", ident);
         let ty = ty.ident.to_string();
 
-        self.args.push(format!(
+        self.args.input_buffers.push(format!(
             r#"
         {{.bi = ({OBJECTBUFIN}) {{ {name}, {ident}_len * sizeof({ty}) }} }},"#
         ));
@@ -86,8 +75,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_input_object_array(&mut self, ident: &Ident, _ty: Option<&str>, cnt: idlc_mir::Count) {
         for i in 0..cnt.into() {
-            let _idx = self.idx();
-            self.args.push(format!(
+            self.args.input_objects.push(format!(
                 r#"
         {{.o = (*{ident}_ptr)[{i}] }},"#
             ));
@@ -95,10 +83,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
-        let _idx = self.idx();
         let name = format!("{}_val", ident);
         let ty = change_primitive(ty);
-        self.args.push(format!(
+        self.args.input_buffers.push(format!(
             r#"
         {{.b = ({OBJECTBUF}) {{ &{name}, sizeof({ty}) }} }},"#
         ));
@@ -115,22 +102,28 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         else {
             unreachable!()
         };
-        let _idx = self.idx();
-        let bi_embedded = packer.bi_embedded();
         self.initializations.push(format!(
             r#"{definition} i;
-{0}{1}"#,
-            bi_embedded,
+{0}"#,
             packer.bi_assignments(),
         ));
-        self.args.push(format!(
+        for (ident, path, ty) in packed_primitives.input_objects() {
+            self.initializations.push(format!(
+                r#"
+    i.m_{ident}.{path} = Object_NULL;"#
+            ));
+            self.visit_input_object(
+                &Ident::new(format!("{ident}_ptr->{path}"), ident.span),
+                ty,
+            );
+        }
+        self.args.input_buffers.push(format!(
             r#"
         {{.b = ({OBJECTBUF}) {{ &i, {size} }} }},"#
         ));
     }
 
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        let _idx = self.idx();
         let name = format!("{}_ptr", ident);
         let ty_ident = ty.ident.to_string();
         if ty.contains_interfaces() {
@@ -138,11 +131,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 r#"{ty_ident} {ident}_cpy = *{name};
     "#
             ));
-            self.args.push(format!(
+            self.args.input_buffers.push(format!(
                 r#"
             {{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},"#
             ));
-            let objects = ty.objects();
+            let objects = ty.object_slots();
             for object in objects {
                 let path = object
                     .0
@@ -163,7 +156,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 );
             }
         } else {
-            self.args.push(format!(
+            self.args.input_buffers.push(format!(
                 r#"
             {{.bi = ({OBJECTBUFIN}) {{ {name}, sizeof({ty_ident}) }} }},"#
             ));
@@ -175,36 +168,35 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let _idx = self.idx();
-        self.args.push(format!(
+        self.args.input_objects.push(format!(
             r#"
         {{.o = {ident} }},"#
         ));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
-        let idx = self.idx();
+        let idx = self.args.next_output_buffer();
         let name = format!("{}_ptr", ident);
         let ty = change_primitive(ty);
         self.post_call.push(format!(
             r#"
     *{ident}_lenout = {ARGS}[{idx}].b.size / sizeof({ty});"#
         ));
-        self.args.push(format!(
+        self.args.output_buffers.push(format!(
             r#"
         {{.b = ({OBJECTBUF}) {{ {name}, {ident}_len * sizeof({ty}) }} }},"#
         ));
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        let idx = self.idx();
+        let idx = self.args.next_output_buffer();
         let name = format!("{}_ptr", ident);
         let ty = ty.ident.to_string();
         self.post_call.push(format!(
             r#"
     *{ident}_lenout = {ARGS}[{idx}].b.size / sizeof({ty});"#
         ));
-        self.args.push(format!(
+        self.args.output_buffers.push(format!(
             r#"
         {{.b = ({OBJECTBUF}) {{ {name}, {ident}_len * sizeof({ty}) }} }},"#
         ));
@@ -217,24 +209,23 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         cnt: idlc_mir::Count,
     ) {
         for i in 0..cnt.into() {
-            let idx = self.idx();
-            self.args.push(
+            let idx = self.args.next_output_object();
+            self.args.output_objects.push(
                 r#"
         {.o = (Object) { NULL, NULL } },"#
                     .to_string(),
             );
             self.post_call.push(format!(
                 r#"
-    (*{ident}_ptr)[{i}] = a[{idx}].o;"#,
+    (*{ident}_ptr)[{i}] = (result == Object_OK) ? a[{idx}].o : Object_NULL;"#,
             ));
         }
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
-        let _idx = self.idx();
         let name = format!("{}_ptr", ident);
         let ty = change_primitive(ty);
-        self.args.push(format!(
+        self.args.output_buffers.push(format!(
             r#"
         {{.b = ({OBJECTBUF}) {{ {name}, sizeof({ty}) }} }},"#
         ));
@@ -253,7 +244,6 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         else {
             unreachable!()
         };
-        let _idx = self.idx();
 
         self.initializations.push(format!(
             r#"
@@ -261,21 +251,26 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 "#
         ));
         self.post_call.push(packer.post_bo_assignments());
-        self.args.push(format!(
+        self.args.output_buffers.push(format!(
             r#"
         {{.b = ({OBJECTBUF}) {{  &o, {size} }} }},"#
         ));
+        for (ident, path, ty) in packed_primitives.output_objects() {
+            self.visit_output_object(
+                &Ident::new(format!("{ident}_ptr->{path}"), ident.span),
+                ty,
+            );
+        }
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        let _idx = self.idx();
         let name = format!("{}_ptr", ident);
         let ty_ident = ty.ident.to_string();
-        self.args.push(format!(
+        self.args.output_buffers.push(format!(
             r#"
         {{.b = ({OBJECTBUF}) {{  {name}, sizeof({ty_ident}) }} }},"#
         ));
-        let objects = ty.objects();
+        let objects = ty.object_slots();
         for object in objects {
             let path = object
                 .0
@@ -302,16 +297,16 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let idx = self.idx();
+        let idx = self.args.next_output_object();
         let mut name = format!("{ident}");
         if !ident.contains("->") {
             name = format!("*{name}");
         }
         self.post_call.push(format!(
             r#"
-    {name} = {ARGS}[{idx}].o;"#
+    {name} = (result == Object_OK) ? {ARGS}[{idx}].o : Object_NULL;"#
         ));
-        self.args.push(
+        self.args.output_objects.push(
             r#"
         {.o = Object_NULL },"#
                 .to_string(),
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index 5db313c..b65dffd 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -1,6 +1,8 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+use idlc_codegen::{counts::ArgIndices, serialization::Type};
+
 use crate::{
     interface::variable_names::invoke::{ARGS, BI, BO, CONST, OP},
     types::change_primitive,
@@ -16,23 +18,26 @@ pub struct Invoke {
 
     is_no_typed_objects: bool,
 
-    idx: usize,
+    pub idx: ArgIndices,
 }
 
 impl Invoke {
     pub fn new(function: &idlc_mir::Function, is_no_typed_objects: bool) -> Self {
-        let mut me = Self {
-            args: vec![],
-            pre: vec![],
-            post: vec![],
-            is_no_typed_objects,
-            idx: 0,
-        };
+        let mut me = Self::with_indices(function);
+        me.is_no_typed_objects = is_no_typed_objects;
 
         idlc_codegen::functions::visit_params_with_bundling(function, &mut me);
         me
     }
 
+    /// Empty invoke which is yet to visit the parameters of `function`.
+    pub fn with_indices(function: &idlc_mir::Function) -> Self {
+        Self {
+            idx: ArgIndices::new(function),
+            ..Default::default()
+        }
+    }
+
     pub fn args(&self) -> String {
         let mut acc = String::new();
         for arg in &self.args {
@@ -54,19 +59,9 @@ impl Invoke {
     }
 }
 
-impl Invoke {
-    #[inline]
-    pub fn idx(&mut self) -> usize {
-        let idx = self.idx;
-        self.idx += 1;
-
-        idx
-    }
-}
-
 impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_input_primitive_buffer(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
-        let idx = self.idx();
+        let idx = self.idx.input_buffer();
         let sz = ty.size();
         let ty: &str = change_primitive(ty);
         let name = format!("*{}_ptr", ident);
@@ -78,7 +73,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_untyped_buffer(&mut self, ident: &idlc_mir::Ident) {
-        let idx = self.idx();
+        let idx = self.idx.input_buffer();
         let ty = "void".to_string();
         let name = format!("*{}_ptr", ident);
         self.pre.push(format!(
@@ -89,7 +84,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
-        let idx = self.idx();
+        let idx = self.idx.input_buffer();
         let ty: &str = ty.ident.as_ref();
         let name = format!("*{}_ptr", ident);
         self.pre.push(format!(
@@ -112,7 +107,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
         let mut objs = String::new();
         for _ in 0..cnt.into() {
-            let idx = self.idx();
+            let idx = self.idx.input_object();
             objs.push_str(&format!(r"a[{idx}].o,"));
         }
         self.pre.push(format!(
@@ -122,7 +117,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_primitive(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
-        let idx = self.idx();
+        let idx = self.idx.input_buffer();
         let sz = ty.size();
         let ty: &str = change_primitive(ty);
         let name = format!("*{}_ptr", ident);
@@ -144,16 +139,34 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         else {
             unreachable!()
         };
-        let idx = self.idx();
+        let idx = self.idx.input_buffer();
         self.args.push(format!("{ARGS}[{idx}].b.size != {size}"));
         self.pre.push(format!(
             r#" \
                 {CONST} {definition} *i = (const struct {BI}*){ARGS}[{idx}].b.ptr;"#
         ));
+        for (ident, ty) in packed_primitives.inputs_by_idents() {
+            if let Type::SmallStruct(s) = ty {
+                if packed_primitives.is_input_misaligned() || ty.contains_interfaces() {
+                    self.pre.push(format!(
+                        r#" \
+                {ty} {ident}_ptr = i->m_{ident};"#,
+                        ty = s.ident
+                    ));
+                }
+            }
+        }
+        for (ident, path, _) in packed_primitives.input_objects() {
+            let idx = self.idx.input_object();
+            self.pre.push(format!(
+                r#" \
+                {ident}_ptr.{path} = {ARGS}[{idx}].o;"#
+            ));
+        }
     }
 
     fn visit_input_big_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
-        let idx = self.idx();
+        let idx = self.idx.input_buffer();
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
         let ty_ident = ty.ident.to_string();
@@ -163,7 +176,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 r#" \
                 {ty_ident} {name} = *({CONST} {ty_ident}*){ARGS}[{idx}].b.ptr;"#
             ));
-            let objects = ty.objects();
+            let objects = ty.object_slots();
             for object in objects {
                 let path = object
                     .0
@@ -171,7 +184,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                     .map(|ident| ident.to_string())
                     .collect::<Vec<String>>()
                     .join(".");
-                let idx = self.idx();
+                let idx = self.idx.input_object();
                 let field_ident = format!("{name}.{}", path);
                 self.pre.push(format!(
                     r#" \
@@ -190,7 +203,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_object(&mut self, ident: &idlc_mir::Ident, ty: Option<&str>) {
-        let idx = self.idx();
+        let idx = self.idx.input_object();
         let ty = if self.is_no_typed_objects {
             "Object".to_string()
         } else {
@@ -204,7 +217,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
-        let idx = self.idx();
+        let idx = self.idx.output_buffer();
         let sz = ty.size();
         let ty: &str = change_primitive(ty);
         let name = format!("*{}_ptr", ident);
@@ -220,7 +233,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_untyped_buffer(&mut self, ident: &idlc_mir::Ident) {
-        let idx = self.idx();
+        let idx = self.idx.output_buffer();
         let ty = "void".to_string();
         let name = format!("*{}_ptr", ident);
         self.pre.push(format!(
@@ -235,7 +248,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
-        let idx = self.idx();
+        let idx = self.idx.output_buffer();
         let ty: &str = ty.ident.as_ref();
         let name = format!("*{}_ptr", ident);
         self.pre.push(format!(
@@ -264,7 +277,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut objs = String::new();
         let mut obj_assign = String::new();
         for i in 0..cnt.into() {
-            let idx = self.idx();
+            let idx = self.idx.output_object();
             objs.push_str("Object_NULL, ");
             obj_assign.push_str(&format!(
                 r#"a[{idx}].o = {name}[{i}]; \
@@ -283,7 +296,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_big_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
-        let idx = self.idx();
+        let idx = self.idx.output_buffer();
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
         let ty_ident = ty.ident.to_string();
@@ -293,7 +306,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 r#" \
                 {ty_ident} *{name} = &(*({ty_ident}*){ARGS}[{idx}].b.ptr);"#
             ));
-            let objects = ty.objects();
+            let objects = ty.object_slots();
             for object in objects {
                 let path = object
                     .0
@@ -322,7 +335,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_primitive(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
-        let idx = self.idx();
+        let idx = self.idx.output_buffer();
         let sz = ty.size();
         let ty: &str = change_primitive(ty);
         let name = format!("*{}_ptr", ident);
@@ -344,16 +357,40 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         else {
             unreachable!()
         };
-        let idx = self.idx();
+        let idx = self.idx.output_buffer();
         self.args.push(format!("{ARGS}[{idx}].b.size != {size}"));
         self.pre.push(format!(
             r#" \
                 {definition} *o = (struct {BO}*){ARGS}[{idx}].b.ptr;"#
         ));
+        let mut copies = Vec::new();
+        for (ident, ty) in packed_primitives.outputs_by_idents() {
+            if packed_primitives.is_output_misaligned() || ty.contains_interfaces() {
+                let ty = match ty {
+                    &Type::Primitive(p) => change_primitive(p),
+                    Type::SmallStruct(s) => s.ident.as_ref(),
+                };
+                self.pre.push(format!(
+                    r#" \
+                {ty} {ident}_ptr = o->m_{ident};"#
+                ));
+                copies.push(format!(
+                    r#" \
+                o->m_{ident} = {ident}_ptr;"#
+                ));
+            }
+        }
+        for (ident, path, ty) in packed_primitives.output_objects() {
+            self.visit_output_object(
+                &idlc_mir::Ident::new(format!("{ident}_ptr.{path}"), ident.span),
+                ty,
+            );
+        }
+        self.post.append(&mut copies);
     }
 
     fn visit_output_object(&mut self, ident: &idlc_mir::Ident, ty: Option<&str>) {
-        let idx = self.idx();
+        let idx = self.idx.output_object();
         let mut name = format!("{ident}");
         let ty = if self.is_no_typed_objects {
             "Object".to_string()
diff --git a/idlc_codegen_c/src/interface/functions/serialization.rs b/idlc_codegen_c/src/interface/functions/serialization.rs
index 2cc462d..b7c4630 100644
--- a/idlc_codegen_c/src/interface/functions/serialization.rs
+++ b/idlc_codegen_c/src/interface/functions/serialization.rs
@@ -30,6 +30,7 @@ impl<'a> PackedPrimitives<'a> {
             self.0.inputs_by_idents(),
             self.0.packed_input_size(),
             BI,
+            self.0.is_input_misaligned(),
             is_invoke,
         )
     }
@@ -54,29 +55,12 @@ impl<'a> PackedPrimitives<'a> {
         assignments
     }
 
-    pub fn bi_embedded(&self) -> String {
-        let mut assignments = String::new();
-        self.0.inputs_by_idents().for_each(|(ident, ty)| match ty {
-            Type::Primitive(_) => {}
-            Type::SmallStruct(s) => {
-                if s.contains_interfaces() {
-                    let ty = s.ident.to_string();
-
-                    assignments += &format!(
-                        r#"
-    {ty} {ident}_cpy = *{ident}_ptr;"#
-                    );
-                }
-            }
-        });
-        assignments
-    }
-
     pub fn bo_definition(&self, is_invoke: bool) -> Option<TransportBuffer> {
         Self::generate_struct(
             self.0.outputs_by_idents(),
             self.0.packed_output_size(),
             BO,
+            self.0.is_output_misaligned(),
             is_invoke,
         )
     }
@@ -101,23 +85,6 @@ impl<'a> PackedPrimitives<'a> {
         assignments
     }
 
-    pub fn bo_embedded(&self) -> Vec<(idlc_mir::Ident, &idlc_mir::Ident, Option<&str>)> {
-        let mut embedded_objs: Vec<(idlc_mir::Ident, &idlc_mir::Ident, Option<&str>)> = vec![];
-        self.0.outputs_by_idents().for_each(|(ident, ty)| match ty {
-            Type::Primitive(_) => {}
-            Type::SmallStruct(s) => {
-                if s.contains_interfaces() {
-                    for field in &s.fields {
-                        if let idlc_mir::Type::Interface(i) = &field.val.0 {
-                            embedded_objs.push((ident.clone(), &field.ident, i.as_deref()));
-                        }
-                    }
-                }
-            }
-        });
-        embedded_objs
-    }
-
     pub fn struct_init(s: &idlc_mir::StructInner, initialization: &mut String) {
         initialization.push('{');
         for field in &s.fields {
@@ -154,6 +121,7 @@ impl<'a> PackedPrimitives<'a> {
         pairs: impl Iterator<Item = (&'a idlc_mir::Ident, &'a Type)>,
         size: usize,
         in_out: &str,
+        is_misaligned: bool,
         is_invoke: bool,
     ) -> Option<TransportBuffer> {
         if size == 0 {
@@ -188,14 +156,19 @@ impl<'a> PackedPrimitives<'a> {
             }
         }
         initialization.pop();
+        let packed = if is_misaligned {
+            "__attribute__((packed)) "
+        } else {
+            ""
+        };
         let definition = if is_invoke {
             format!(
-                r#"struct {in_out} {{ \{fields}
+                r#"struct {packed}{in_out} {{ \{fields}
                 }}"#
             )
         } else {
             format!(
-                r#"struct {in_out} {{{fields}
+                r#"struct {packed}{in_out} {{{fields}
     }}"#
             )
         };
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 5247ad5..2f1d241 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -14,8 +14,11 @@ pub struct Signature {
     bundled_outputs: Vec<String>,
     input_obj_arg: Vec<String>,
 
-    total_bundled_input: u8,
-    total_bundled_output: u8,
+    total_bundled_input: usize,
+    total_bundled_output: usize,
+
+    is_input_misaligned: bool,
+    is_output_misaligned: bool,
     is_no_typed_objects: bool,
 }
 
@@ -54,12 +57,16 @@ impl Signature {
             input_obj_arg: vec![],
             total_bundled_input: counts.total_bundled_input,
             total_bundled_output: counts.total_bundled_output,
+            is_input_misaligned: false,
+            is_output_misaligned: false,
             is_no_typed_objects,
         };
 
         let packed_primitives = idlc_codegen::serialization::PackedPrimitives::new(function);
         let packed_input = packed_primitives.input_idents();
         let packed_output = packed_primitives.output_idents();
+        me.is_input_misaligned = packed_primitives.is_input_misaligned();
+        me.is_output_misaligned = packed_primitives.is_output_misaligned();
         me.bundled_inputs = packed_input.map(|ident| ident.to_string()).collect();
         me.bundled_outputs = packed_output.map(|ident| ident.to_string()).collect();
 
@@ -170,7 +177,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("*{}_ptr", ident), format!("{CONST} {}", ty.ident)));
-        if self.total_bundled_input > 1
+        if self.total_bundled_input > 1 && (self.is_input_misaligned || ty.contains_interfaces()) {
+            self.outputs
+                .push((format!("&{}_ptr", ident), format!("{CONST} {}", ty.ident)));
+        } else if self.total_bundled_input > 1
             && self.bundled_inputs.contains(&ident.to_string())
             && self.bundled_inputs.len() > 1
         {
@@ -259,7 +269,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
         self.inputs
             .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
-        if self.total_bundled_output > 1
+        if self.total_bundled_output > 1 && self.is_output_misaligned {
+            self.outputs
+                .push((format!("&{}_ptr", ident), change_primitive(ty).to_string()));
+        } else if self.total_bundled_output > 1
             && self.bundled_outputs.contains(&ident.to_string())
             && self.bundled_outputs.len() > 1
         {
@@ -288,7 +301,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("*{}_ptr", ident), ty.ident.to_string()));
-        if self.total_bundled_output > 1
+        if self.total_bundled_output > 1 && (self.is_output_misaligned || ty.contains_interfaces()) {
+            self.outputs
+                .push((format!("&{}_ptr", ident), ty.ident.to_string()));
+        } else if self.total_bundled_output > 1
             && self.bundled_outputs.contains(&ident.to_string())
             && self.bundled_outputs.len() > 1
         {
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index c743003..b9bd8fa 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -6,12 +6,16 @@ use idlc_mir::Ident;
 
 use super::serialization::TransportBuffer;
 
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct Implementation(idlc_codegen_c::interface::functions::implementation::Implementation);
 
 impl Implementation {
     pub fn new(function: &idlc_mir::Function) -> Self {
-        let mut me = Self::default();
+        let mut me = Self(
+            idlc_codegen_c::interface::functions::implementation::Implementation::with_args(
+                function,
+            ),
+        );
         idlc_codegen::functions::visit_params_with_bundling(function, &mut me);
 
         me
@@ -29,8 +33,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_input_object_array(&mut self, ident: &Ident, _ty: Option<&str>, cnt: idlc_mir::Count) {
         for i in 0..cnt.into() {
-            let _idx = self.0.idx();
-            self.0.args.push(format!(
+            self.0.args.input_objects.push(format!(
                 r#"
         {{.o = ({ident}_ref)[{i}].get() }},"#
             ));
@@ -52,21 +55,27 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         else {
             unreachable!()
         };
-        let _idx = self.0.idx();
-        let bi_embedded = packer.bi_embedded();
         self.0.initializations.push(format!(
-            r#"{definition} i;{0}{1}"#,
-            bi_embedded,
+            r#"{definition} i;{0}"#,
             packer.bi_assignments(),
         ));
-        self.0.args.push(format!(
+        for (ident, path, ty) in packed_primitives.input_objects() {
+            self.0.initializations.push(format!(
+                r#"
+    i.m_{ident}.{path} = Object_NULL;"#
+            ));
+            self.visit_input_object(
+                &Ident::new(format!("{ident}_ref.{path}"), ident.span),
+                ty,
+            );
+        }
+        self.0.args.input_buffers.push(format!(
             r#"
         {{.b = ({OBJECTBUF}) {{ &i, {size} }} }},"#
         ));
     }
 
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        let _idx = self.0.idx();
         let name = format!("{}_ref", ident);
         let ty_ident = ty.ident.to_string();
         if ty.contains_interfaces() {
@@ -74,12 +83,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 r#"
     {ty_ident} {ident}_cpy = {name};"#
             ));
-            self.0.args.push(format!(
+            self.0.args.input_buffers.push(format!(
                 r#"{{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},
         "#
             ));
 
-            let objects = ty.objects();
+            let objects = ty.object_slots();
             for object in objects {
                 let path = object
                     .0
@@ -100,7 +109,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 );
             }
         } else {
-            self.0.args.push(format!(
+            self.0.args.input_buffers.push(format!(
                 r#"
         {{.bi = ({OBJECTBUFIN}) {{ &{name}, sizeof({ty_ident}) }} }},"#
             ));
@@ -112,15 +121,14 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let _idx = self.0.idx();
         let name = format!("{}", ident);
         if name.contains('.') {
-            self.0.args.push(format!(
+            self.0.args.input_objects.push(format!(
                 r#"
         {{.o = {name} }},"#
             ));
         } else {
-            self.0.args.push(format!(
+            self.0.args.input_objects.push(format!(
                 r#"
         {{.o = {name}.get() }},"#
             ));
@@ -141,9 +149,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         _ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
-        let idx = self.0.idx();
+        let idx = self.0.args.next_output_object();
         for _ in 0..cnt.into() {
-            self.0.args.push(
+            self.0.args.output_objects.push(
                 r#"
         {.o = (Object) { NULL, NULL } },"#
                     .to_string(),
@@ -155,10 +163,6 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     for(size_t arg_idx=0;arg_idx<{cnt};arg_idx++)
         ({ident}_ref)[arg_idx].consume(a[{idx}+arg_idx].o);"#,
         ));
-
-        for _ in 1..cnt.into() {
-            let _idx = self.0.idx();
-        }
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
@@ -178,29 +182,33 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         else {
             unreachable!()
         };
-        let _idx = self.0.idx();
 
         self.0.initializations.push(format!(
             r#"
     {definition} o = {{{initialization}}};"#
         ));
-        self.0.args.push(format!(
+        self.0.args.output_buffers.push(format!(
             r#"
         {{.b = ({OBJECTBUF}) {{  &o, {size} }} }},"#
         ));
         self.0.post_call.push(packer.post_bo_assignments());
+        for (ident, path, ty) in packed_primitives.output_objects() {
+            self.visit_output_object(
+                &Ident::new(format!("{ident}_ref.{path}"), ident.span),
+                ty,
+            );
+        }
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        let _idx = self.0.idx();
         let name = format!("{}_ref", ident);
         let ty_ident = ty.ident.to_string();
-        self.0.args.push(format!(
+        self.0.args.output_buffers.push(format!(
             r#"
         {{.b = ({OBJECTBUF}) {{  &{name}, sizeof({ty_ident}) }} }},"#
         ));
 
-        let objects = ty.objects();
+        let objects = ty.object_slots();
         for object in objects {
             let path = object
                 .0
@@ -227,8 +235,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let idx = self.0.idx();
-        self.0.args.push(
+        let idx = self.0.args.next_output_object();
+        self.0.args.output_objects.push(
             r#"
         {.o = (Object) { NULL, NULL } },"#
                 .to_string(),
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index e48a7b8..9c5e519 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -5,12 +5,13 @@ use idlc_codegen_c::interface::variable_names::invoke::{ARGS, OP};
 
 use idlc_mir::Ident;
 
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct Invoke(idlc_codegen_c::interface::functions::invoke::Invoke);
 
 impl Invoke {
     pub fn new(function: &idlc_mir::Function) -> Self {
-        let mut me = Self::default();
+        let mut me =
+            Self(idlc_codegen_c::interface::functions::invoke::Invoke::with_indices(function));
         idlc_codegen::functions::visit_params_with_bundling(function, &mut me);
 
         me
@@ -39,7 +40,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = ty.unwrap_or("ProxyBase").to_string();
         let mut obj_args = String::new();
         for _ in 0..cnt.into() {
-            let idx = self.0.idx();
+            let idx = self.0.idx.input_object();
             obj_args.push_str(&format!(r"a[{idx}].o,"));
         }
         self.0.pre.push(format!(
@@ -71,7 +72,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_object(&mut self, ident: &Ident, ty: Option<&str>) {
-        let idx = self.0.idx();
+        let idx = self.0.idx.input_object();
         let ty = ty.unwrap_or("ProxyBase").to_string();
         self.0.pre.push(format!(
             r#" \
@@ -105,11 +106,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut objs = String::new();
         let mut obj_assign = String::new();
         for i in 0..cnt.into() {
-            let idx = self.0.idx();
+            let idx = self.0.idx.output_object();
             objs.push_str("Object_NULL, ");
             obj_assign.push_str(&format!(
                 r#"
-                {ARGS}[{idx}].o=p_{ident}[{i}].extract();"#
+                if (r == Object_OK) {{ {ARGS}[{idx}].o=p_{ident}[{i}].extract(); }}"#
             ));
         }
         self.0.pre.push(format!(
@@ -135,7 +136,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
         // self.0.visit_output_big_struct(ident, ty);
-        let idx = self.0.idx();
+        let idx = self.0.idx.output_buffer();
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
         let ty_ident = ty.ident.to_string();
@@ -147,14 +148,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 {ty_ident} *{name} = &(*({ty_ident}*){ARGS}[{idx}].b.ptr);"#
             ));
 
-            let objects = ty.objects();
+            let objects = ty.object_slots();
             for object in objects {
                 let path = object
                     .0
                     .iter()
                     .map(|ident| ident.to_string())
                     .collect::<Vec<String>>()
-                    .join("->");
+                    .join(".");
                 self.0.visit_output_object(
                     &idlc_mir::Ident {
                         ident: format!("{name}->{}", path),
@@ -176,7 +177,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {
-        let idx = self.0.idx();
+        let idx = self.0.idx.output_object();
         let ty = ty.unwrap_or("ProxyBase").to_string();
         self.0.pre.push(format!(
             r#" \
@@ -184,7 +185,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ));
         self.0.post.push(format!(
             r#" \
-                {ARGS}[{idx}].o = p_{ident}.extract();"#
+                if (r == Object_OK) {{ {ARGS}[{idx}].o = p_{ident}.extract(); }}"#
         ));
     }
 }
diff --git a/idlc_codegen_cpp/src/interface/functions/serialization.rs b/idlc_codegen_cpp/src/interface/functions/serialization.rs
index c90d1e9..abde3ab 100644
--- a/idlc_codegen_cpp/src/interface/functions/serialization.rs
+++ b/idlc_codegen_cpp/src/interface/functions/serialization.rs
@@ -30,6 +30,7 @@ impl<'a> PackedPrimitives<'a> {
             self.0.inputs_by_idents(),
             self.0.packed_input_size(),
             BI,
+            self.0.is_input_misaligned(),
             is_invoke,
         )
     }
@@ -43,47 +44,23 @@ impl<'a> PackedPrimitives<'a> {
     i.m_{ident} = {ident}_val;"#
                 );
             }
-            Type::SmallStruct(s) => {
-                if s.contains_interfaces() {
-                    assignments += &format!(
-                        r#"
-    i.m_{ident} = {ident}_cpy;"#
-                    );
-                } else {
-                    assignments += &format!(
-                        r#"
+            Type::SmallStruct(_s) => {
+                assignments += &format!(
+                    r#"
     i.m_{ident} = {ident}_ref;"#
-                    );
-                }
+                );
             }
         });
 
         assignments
     }
 
-    #[allow(clippy::type_complexity)]
-    pub fn bi_embedded(&self) -> String {
-        let mut assignments = String::new();
-        self.0.inputs_by_idents().for_each(|(ident, ty)| match ty {
-            Type::Primitive(_) => {}
-            Type::SmallStruct(s) => {
-                if s.contains_interfaces() {
-                    let ty = s.ident.to_string();
-                    assignments += &format!(
-                        r#"
-    {ty} {ident}_cpy = {ident}_ref;"#
-                    );
-                }
-            }
-        });
-        assignments
-    }
-
     pub fn bo_definition(&self, is_invoke: bool) -> Option<TransportBuffer> {
         Self::generate_struct(
             self.0.outputs_by_idents(),
             self.0.packed_output_size(),
             BO,
+            self.0.is_output_misaligned(),
             is_invoke,
         )
     }
@@ -113,6 +90,7 @@ impl<'a> PackedPrimitives<'a> {
         pairs: impl Iterator<Item = (&'a idlc_mir::Ident, &'a Type)>,
         size: usize,
         in_out: &str,
+        is_misaligned: bool,
         is_invoke: bool,
     ) -> Option<TransportBuffer> {
         if size == 0 {
@@ -147,14 +125,19 @@ impl<'a> PackedPrimitives<'a> {
             }
         }
         initialization.pop();
+        let packed = if is_misaligned {
+            "__attribute__((packed)) "
+        } else {
+            ""
+        };
         let definition = if is_invoke {
             format!(
-                r#"struct {in_out} {{ \{fields}
+                r#"struct {packed}{in_out} {{ \{fields}
                 }}"#
             )
         } else {
             format!(
-                r#"struct {in_out} {{{fields}
+                r#"struct {packed}{in_out} {{{fields}
     }}"#
             )
         };
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index 6d83820..f5c97ac 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -15,8 +15,11 @@ pub struct Signature {
     input_obj_arg: Vec<String>,
     output_obj_arg: Vec<String>,
 
-    total_bundled_input: u8,
-    total_bundled_output: u8,
+    total_bundled_input: usize,
+    total_bundled_output: usize,
+
+    is_input_misaligned: bool,
+    is_output_misaligned: bool,
 }
 
 impl Signature {
@@ -30,11 +33,15 @@ impl Signature {
             output_obj_arg: vec![],
             total_bundled_input: counts.total_bundled_input,
             total_bundled_output: counts.total_bundled_output,
+            is_input_misaligned: false,
+            is_output_misaligned: false,
         };
 
         let packed_primitives = idlc_codegen::serialization::PackedPrimitives::new(function);
         let packed_input = packed_primitives.input_idents();
         let packed_output = packed_primitives.output_idents();
+        me.is_input_misaligned = packed_primitives.is_input_misaligned();
+        me.is_output_misaligned = packed_primitives.is_output_misaligned();
         me.bundled_inputs = packed_input.map(|ident| ident.to_string()).collect();
         me.bundled_outputs = packed_output.map(|ident| ident.to_string()).collect();
 
@@ -131,7 +138,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
-        if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
+        if self.total_bundled_input > 1 && (self.is_input_misaligned || ty.contains_interfaces()) {
+            self.outputs
+                .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
+        } else if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
             self.outputs
                 .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() {
@@ -212,7 +222,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
         self.inputs
             .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
-        if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
+        if self.total_bundled_output > 1 && self.is_output_misaligned {
+            self.outputs
+                .push((format!("&{}_ptr", ident), change_primitive(ty).to_string()));
+        } else if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs
                 .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
         } else {
@@ -235,7 +248,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
-        if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
+        if self.total_bundled_output > 1 && (self.is_output_misaligned || ty.contains_interfaces()) {
+            self.outputs
+                .push((format!("{}_ptr", ident), ty.ident.to_string()));
+        } else if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs
                 .push((format!("o->m_{}", ident), ty.ident.to_string()));
         } else {
diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index 5d486aa..25d2567 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -1,6 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+use idlc_codegen::counts::Args;
 use idlc_mir::Ident;
 
 use crate::interface::mink_primitives::{OK, PACK_COUNTS};
@@ -20,12 +21,15 @@ const OUTPUT_BUFFER: &str = crate::interface::mink_primitives::namespace!("BufOu
 pub struct Implementation {
     initializations: Vec<String>,
     post_call: Vec<String>,
-    args: Vec<String>,
+    args: Args,
 }
 
 impl Implementation {
     pub fn new(function: &idlc_mir::Function) -> Self {
-        let mut me = Self::default();
+        let mut me = Self {
+            args: Args::new(function),
+            ..Default::default()
+        };
 
         idlc_codegen::functions::visit_params_with_bundling(function, &mut me);
 
@@ -33,7 +37,7 @@ impl Implementation {
     }
 
     pub fn args(&self) -> String {
-        self.args.join(",")
+        self.args.iter().collect::<Vec<_>>().join(",")
     }
 
     pub fn initializations(&self) -> String {
@@ -45,7 +49,7 @@ impl Implementation {
     }
 
     fn add_output_object(&mut self) {
-        self.args.push(format!(
+        self.args.output_objects.push(format!(
             r#"{ARG} {{
                 o: std::mem::ManuallyDrop::new(None)
             }}"#
@@ -56,7 +60,7 @@ impl Implementation {
 impl Implementation {
     fn generate_input_buffer(&mut self, ident: &Ident) {
         let ident = EscapedIdent::new(ident);
-        self.args.push(format!(
+        self.args.input_buffers.push(format!(
             r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
                     ptr: {ident}.as_ptr().cast(),
@@ -70,9 +74,9 @@ impl Implementation {
         let ident = EscapedIdent::new(ident);
         self.post_call.push(format!(
             "*{ident}_lenout = unsafe {{ {ARGS}[{idx}].b.size }} / std::mem::size_of::<{ty}>();",
-            idx = self.args.len()
+            idx = self.args.next_output_buffer()
         ));
-        self.args.push(format!(
+        self.args.output_buffers.push(format!(
             r#"{ARG} {{
                 b: {OUTPUT_BUFFER} {{
                     ptr: {ident}.as_mut_ptr().cast(),
@@ -95,7 +99,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     fn visit_input_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         let ty: &str = change_primitive(ty);
         let ident = EscapedIdent::new(ident);
-        self.args.push(format!(
+        self.args.input_buffers.push(format!(
             r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
                     ptr: std::ptr::addr_of!({ident}).cast(),
@@ -120,7 +124,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             let mut bi = {BI_STRUCT}({idents});
             "#
         ));
-        self.args.push(format!(
+        self.args.input_buffers.push(format!(
             r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
                     ptr: std::ptr::addr_of!(bi).cast(),
@@ -129,15 +133,23 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             }}
             "#
         ));
+        for (ident, path, _) in packed_primitives.input_objects() {
+            let ident = EscapedIdent::new(ident);
+            self.args.input_objects.push(format!(
+                r#"{ARG} {{
+                o: unsafe {{ std::mem::transmute_copy(&{ident}.{path}) }}
+            }}"#
+            ));
+        }
     }
 
     fn visit_input_big_struct(&mut self, ident: &Ident, r#struct: &idlc_mir::StructInner) {
         let ty: &str = &namespaced_struct(r#struct);
         let escaped_ident = EscapedIdent::new(ident);
 
-        let objects = r#struct.objects();
+        let objects = r#struct.object_slots();
         if objects.is_empty() {
-            self.args.push(format!(
+            self.args.input_buffers.push(format!(
                 r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
                     ptr: ({escaped_ident} as *const {ty}).cast(),
@@ -151,7 +163,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 let {escaped_ident} = std::mem::ManuallyDrop::new(std::cell::UnsafeCell::new(unsafe {{ std::ptr::read({escaped_ident}) }}));
             "#
             ));
-            self.args.push(format!(
+            self.args.input_buffers.push(format!(
                 r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
                     ptr: {escaped_ident}.get().cast(),
@@ -161,7 +173,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             ));
             for (object, _) in objects {
                 let path = super::signature::idents_to_struct_path(&object);
-                self.args.push(format!(
+                self.args.input_objects.push(format!(
                     r#"{ARG} {{
                 o: std::mem::ManuallyDrop::new(unsafe {{
                     let ptr = &mut (*{escaped_ident}.get()){path};
@@ -182,7 +194,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
         let ident = EscapedIdent::new(ident);
-        self.args.push(format!(
+        self.args.input_objects.push(format!(
             r#"{ARG} {{
                 o: std::mem::ManuallyDrop::new({ident}.map(|o| unsafe {{ std::mem::transmute_copy(o) }} ))
             }}"#
@@ -214,7 +226,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         ));
         self.post_call
             .push(format!("let {ident} = unsafe {{ {ident}.assume_init() }};"));
-        self.args.push(format!(
+        self.args.output_buffers.push(format!(
             r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
                     ptr: std::ptr::addr_of_mut!({ident}).cast(),
@@ -242,7 +254,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.post_call.push(format!(
             "let {BO_STRUCT}({idents}) = unsafe {{ bo.assume_init() }};"
         ));
-        self.args.push(format!(
+        self.args.output_buffers.push(format!(
             r#"{ARG} {{
                 b: {OUTPUT_BUFFER} {{
                     ptr: std::ptr::addr_of_mut!(bo).cast(),
@@ -250,6 +262,24 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 }}
             }}"#
         ));
+        let structs = super::serialization::PackedPrimitives::structs_with_objects(
+            packed_primitives.outputs_by_idents(),
+        );
+        for (ident, s) in structs {
+            let ty = namespaced_struct(s);
+            let ident = EscapedIdent::new(ident);
+            self.post_call.push(format!(
+                "let mut {ident}: {ty} = unsafe {{ std::mem::zeroed() }};"
+            ));
+            for (object, _) in s.object_slots() {
+                let path = super::signature::idents_to_struct_path(&object);
+                let idx = self.args.next_output_object();
+                self.post_call.push(format!(
+                    "{ident}{path} = unsafe {{ std::mem::transmute(std::mem::ManuallyDrop::take(&mut {ARGS}[{idx}].o)) }};"
+                ));
+                self.add_output_object();
+            }
+        }
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, r#struct: &idlc_mir::StructInner) {
@@ -258,7 +288,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.initializations.push(format!(
             "let mut {ident} = std::mem::MaybeUninit::<{ty}>::uninit();\n"
         ));
-        self.args.push(format!(
+        self.args.output_buffers.push(format!(
             r#"{ARG} {{
                 b: {OUTPUT_BUFFER} {{
                     ptr: std::ptr::addr_of_mut!({escaped_ident}).cast(),
@@ -267,10 +297,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             }}"#
         ));
 
-        let objects = r#struct.objects();
+        let objects = r#struct.object_slots();
         for (object, _) in objects {
             let path = super::signature::idents_to_struct_path(&object);
-            let idx = self.args.len();
+            let idx = self.args.next_output_object();
             self.post_call.push(format!(
                 r#"unsafe {{ std::ptr::write(
                     std::ptr::addr_of_mut!((*{escaped_ident}.as_mut_ptr()){path}),
@@ -291,7 +321,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let idx = self.args.len();
+        let idx = self.args.next_output_object();
         let ident = EscapedIdent::new(ident);
         self.post_call.push(format!(
             "let {ident} = unsafe {{ std::mem::transmute(std::mem::ManuallyDrop::take(&mut {ARGS}[{idx}].o)) }};"
@@ -311,8 +341,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             "let mut {ident}: [std::mem::MaybeUninit<Option<{ty}>>; {cnt}] = unsafe {{ std::mem::MaybeUninit::uninit().assume_init() }};"
         ));
         for i in 0..cnt.get() {
-            let idx = self.args.len();
-            self.args.push(format!(
+            let idx = self.args.next_output_object();
+            self.args.output_objects.push(format!(
                 r#"{ARG} {{
                 o: std::mem::ManuallyDrop::new(None)
             }}"#
diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index 11ff7cf..8e1fce0 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -1,6 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+use idlc_codegen::counts::ArgIndices;
 use idlc_mir::{Ident, StructInner};
 
 use crate::interface::mink_primitives::GENERIC_ERROR;
@@ -18,12 +19,15 @@ pub struct Invoke {
     pre: Vec<String>,
     post: Vec<String>,
 
-    idx: usize,
+    idx: ArgIndices,
 }
 
 impl Invoke {
     pub fn new(function: &idlc_mir::Function) -> Self {
-        let mut me = Self::default();
+        let mut me = Self {
+            idx: ArgIndices::new(function),
+            ..Default::default()
+        };
 
         idlc_codegen::functions::visit_params_with_bundling(function, &mut me);
         me
@@ -39,16 +43,8 @@ impl Invoke {
 }
 
 impl Invoke {
-    #[inline]
-    fn idx(&mut self) -> usize {
-        let idx = self.idx;
-        self.idx += 1;
-
-        idx
-    }
-
     fn generate_for_input_buffer(&mut self, ident: EscapedIdent, ty: &str) {
-        let idx = self.idx();
+        let idx = self.idx.input_buffer();
         self.pre.push(format!(
         r#"let {ident} = if {ARGS}[{idx}].bi.size == 0 {{
             &[]
@@ -58,7 +54,7 @@ impl Invoke {
     }
 
     fn generate_for_output_buffer(&mut self, ident: EscapedIdent, ty: &str) {
-        let idx = self.idx();
+        let idx = self.idx.output_buffer();
         self.pre.push(format!(
             r#"let {ident}_orig = {ARGS}[{idx}].b.size;
             let {ident}_lenout = &mut *std::ptr::addr_of_mut!({ARGS}[{idx}].b.size);"#
@@ -90,7 +86,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_input_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         let ty: &str = change_primitive(ty);
         let ident = EscapedIdent::new(ident);
-        let idx = self.idx();
+        let idx = self.idx.input_buffer();
         self.pre.push(format!(
             r#"if {ARGS}[{idx}].bi.size != std::mem::size_of::<{ty}>() {{
             return std::mem::transmute({GENERIC_ERROR}::INVALID);
@@ -110,7 +106,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let Some(TransportBuffer { definition, size }) = packer.bi_definition() else {
             unreachable!()
         };
-        let idx = self.idx();
+        let idx = self.idx.input_buffer();
         let idents = super::signature::iter_to_string(packer.bi_definition_idents());
         self.pre.push(definition);
         self.pre.push(format!(
@@ -121,22 +117,40 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             "#,
         ));
         self.pre.push(format!(
-            "let {BI_STRUCT}({idents}) = std::ptr::read(args[0].bi.ptr.cast::<{BI_STRUCT}>());"
+            "let {BI_STRUCT}({idents}) = std::ptr::read({ARGS}[{idx}].bi.ptr.cast::<{BI_STRUCT}>());"
         ));
         self.pre.push(packer.post_bi_assignments());
+        let structs = super::serialization::PackedPrimitives::structs_with_objects(
+            packed_primitives.inputs_by_idents(),
+        );
+        for (ident, s) in structs {
+            let ty = namespaced_struct(s);
+            let ident = EscapedIdent::new(ident);
+            self.pre.push(format!(
+                "let mut {ident} = std::mem::ManuallyDrop::new(std::mem::zeroed::<{ty}>());"
+            ));
+            for (object, _) in s.object_slots() {
+                let path = super::signature::idents_to_struct_path(&object);
+                let idx = self.idx.input_object();
+                self.pre.push(format!(
+                    "std::ptr::write(&mut {ident}{path}, std::mem::transmute_copy(&{ARGS}[{idx}].o));"
+                ));
+            }
+            self.pre.push(format!("let {ident} = &*{ident};"))
+        }
     }
 
     fn visit_input_big_struct(&mut self, ident: &Ident, r#struct: &StructInner) {
         let ty: &str = &namespaced_struct(r#struct);
         let ident = EscapedIdent::new(ident);
-        let idx = self.idx();
+        let idx = self.idx.input_buffer();
         self.pre.push(format!(
             r#"if {ARGS}[{idx}].bi.size != std::mem::size_of::<{ty}>() {{
             return std::mem::transmute({GENERIC_ERROR}::INVALID);
         }}"#
         ));
 
-        let objects = r#struct.objects();
+        let objects = r#struct.object_slots();
         if objects.is_empty() {
             self.pre.push(format!(
                 "let {ident} = &*{ARGS}[{idx}].bi.ptr.cast::<{ty}>();"
@@ -147,7 +161,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             ));
             for (object, _) in objects {
                 let path = super::signature::idents_to_struct_path(&object);
-                let idx = self.idx();
+                let idx = self.idx.input_object();
                 self.pre.push(format!(
                     "std::ptr::write(&mut {ident}{path}, std::mem::transmute_copy(&{ARGS}[{idx}].o));"
                 ));
@@ -160,7 +174,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let idx = self.idx();
+        let idx = self.idx.input_object();
         let ident = EscapedIdent::new(ident);
         self.pre.push(format!(
             "let {ident} = std::mem::transmute({ARGS}[{idx}].o.as_ref());"
@@ -171,7 +185,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ident = EscapedIdent::new(ident);
         let mut definition = format!("let {ident} = &std::mem::ManuallyDrop::new([");
         for _ in 0..cnt.get() {
-            let idx = self.idx();
+            let idx = self.idx.input_object();
             definition += &format!("std::mem::transmute_copy(&{ARGS}[{idx}].o),",);
         }
         definition.push_str("]);");
@@ -189,14 +203,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_output_big_struct(&mut self, ident: &Ident, r#struct: &StructInner) {
         let ident = EscapedIdent::new(ident);
         let ty = &namespaced_struct(r#struct);
-        let idx = self.idx();
+        let idx = self.idx.output_buffer();
         self.pre.push(format!(
             r#"if {ARGS}[{idx}].b.size != std::mem::size_of::<{ty}>() {{
             return std::mem::transmute({GENERIC_ERROR}::SIZE_OUT);
         }}"#
         ));
 
-        let objects = r#struct.objects();
+        let objects = r#struct.object_slots();
         if objects.is_empty() {
             self.post
                 .push(format!("*{ARGS}[{idx}].b.ptr.cast::<{ty}>() = {ident};\n"));
@@ -206,7 +220,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 "let mut {ident} = std::mem::ManuallyDrop::new({ident});"
             ));
             for (object, _) in objects {
-                let idx = self.idx();
+                let idx = self.idx.output_object();
                 let path = super::signature::idents_to_struct_path(&object);
                 self.post.push(format!("{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}{path}.take()));"));
                 self.post.push(format!(
@@ -225,7 +239,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_output_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         let ty = change_primitive(ty);
         let ident = EscapedIdent::new(ident);
-        let idx = self.idx();
+        let idx = self.idx.output_buffer();
         self.pre.push(format!(
             r#"if {ARGS}[{idx}].b.size != std::mem::size_of::<{ty}>() {{
             return std::mem::transmute({GENERIC_ERROR}::SIZE_OUT);
@@ -244,7 +258,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             unreachable!()
         };
 
-        let idx = self.idx();
+        let idx = self.idx.output_buffer();
         self.pre.push(definition);
         self.pre.push(format!(
             r#"
@@ -253,7 +267,21 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             }}
             "#,
         ));
-        let idents = super::signature::iter_to_string(packer.bo_idents());
+        let structs = super::serialization::PackedPrimitives::structs_with_objects(
+            packed_primitives.outputs_by_idents(),
+        );
+        for (ident, s) in structs {
+            let ident = EscapedIdent::new(ident);
+            self.post.push(format!("let mut {ident} = {ident};"));
+            for (object, _) in s.object_slots() {
+                let path = super::signature::idents_to_struct_path(&object);
+                let idx = self.idx.output_object();
+                self.post.push(format!(
+                    "{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}{path}.take()));"
+                ));
+            }
+        }
+        let idents = super::signature::iter_to_string(packer.bo_assignment_idents());
         self.post.push(format!(
             r#"
             std::ptr::write({ARGS}[{idx}].b.ptr.cast::<{BO_STRUCT}>(), {BO_STRUCT}({idents}));
@@ -262,7 +290,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let idx = self.idx();
+        let idx = self.idx.output_object();
         let ident = EscapedIdent::new(ident);
         self.post.push(format!(
             "{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}));\n"
@@ -275,7 +303,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             "let {ident} = std::mem::ManuallyDrop::new({ident});"
         ));
         for i in 0..cnt.get() {
-            let idx = self.idx();
+            let idx = self.idx.output_object();
             self.post.push(format!(
             "{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute_copy(&{ident}[{i}]));"
         ));
diff --git a/idlc_codegen_rust/src/interface/functions/serialization.rs b/idlc_codegen_rust/src/interface/functions/serialization.rs
index b2028fc..35cf5eb 100644
--- a/idlc_codegen_rust/src/interface/functions/serialization.rs
+++ b/idlc_codegen_rust/src/interface/functions/serialization.rs
@@ -40,6 +40,7 @@ impl<'a> PackedPrimitives<'a> {
             let ident = EscapedIdent::new(ident);
             match ty {
                 Type::Primitive(_) => ident.to_string(),
+                Type::SmallStruct(s) if ty.contains_interfaces() => format!("[0; {}]", s.size()),
                 Type::SmallStruct(_) => format!("*{ident}"),
             }
         })
@@ -48,7 +49,7 @@ impl<'a> PackedPrimitives<'a> {
     pub fn post_bi_assignments(&self) -> String {
         let mut assignments = String::new();
         self.0.inputs_by_idents().for_each(|(ident, ty)| {
-            if matches!(ty, Type::SmallStruct(_)) {
+            if matches!(ty, Type::SmallStruct(_)) && !ty.contains_interfaces() {
                 let ident = EscapedIdent::new(ident);
                 assignments += &format!(r"let {ident} = &{ident};");
             }
@@ -67,6 +68,27 @@ impl<'a> PackedPrimitives<'a> {
             .map(|(ident, _)| EscapedIdent::new(ident).to_string())
     }
 
+    /// Values to construct a bundle of outputs from, objects are left blank.
+    pub fn bo_assignment_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
+        self.0.outputs_by_idents().map(|(ident, ty)| {
+            if ty.contains_interfaces() {
+                format!("[0; {}]", ty.size())
+            } else {
+                EscapedIdent::new(ident).to_string()
+            }
+        })
+    }
+
+    /// Bundled structs which contain objects, these are blank in the bundle.
+    pub fn structs_with_objects(
+        pairs: impl Iterator<Item = (&'a idlc_mir::Ident, &'a Type)>,
+    ) -> impl Iterator<Item = (&'a idlc_mir::Ident, &'a idlc_mir::StructInner)> {
+        pairs.filter_map(|(ident, ty)| match ty {
+            Type::SmallStruct(s) if ty.contains_interfaces() => Some((ident, s)),
+            _ => None,
+        })
+    }
+
     #[inline]
     fn generate_struct(
         types: impl Iterator<Item = &'a Type>,
@@ -79,6 +101,9 @@ impl<'a> PackedPrimitives<'a> {
 
         let fields = super::signature::iter_to_string(types.map(|ty| match ty {
             &Type::Primitive(p) => Cow::Borrowed(change_primitive(p)),
+            Type::SmallStruct(s) if ty.contains_interfaces() => {
+                Cow::Owned(format!("[u8; {}]", s.size()))
+            }
             Type::SmallStruct(s) => Cow::Owned(namespaced_struct(s)),
         }));
         let definition = format!(
diff --git a/idlc_codegen_rust/src/interface/functions/signature.rs b/idlc_codegen_rust/src/interface/functions/signature.rs
index f1c35d1..f356eb5 100644
--- a/idlc_codegen_rust/src/interface/functions/signature.rs
+++ b/idlc_codegen_rust/src/interface/functions/signature.rs
@@ -29,7 +29,7 @@ pub fn iter_to_string(iter: impl Iterator<Item = impl AsRef<str>>) -> String {
     acc
 }
 
-pub fn idents_to_struct_path(objects: &[&Ident]) -> String {
+pub fn idents_to_struct_path(objects: &[Ident]) -> String {
     objects
         .iter()
         .fold(String::new(), |acc, x| acc + "." + x.as_ref())
-- 
2.43.0


From d222ca1d8a4567f78a0e2bc1e4c8165714e28e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 04/31] fix: arrays of untyped objects in the C++ backend use
 ProxyBase

---
 idlc_codegen_cpp/src/interface/functions/invoke.rs    | 6 ++----
 idlc_codegen_cpp/src/interface/functions/signature.rs | 4 ++--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index 9c5e519..ac86b7e 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -41,7 +41,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut obj_args = String::new();
         for _ in 0..cnt.into() {
             let idx = self.0.idx.input_object();
-            obj_args.push_str(&format!(r"a[{idx}].o,"));
+            obj_args.push_str(&format!(r"{ty}(a[{idx}].o),"));
         }
         self.0.pre.push(format!(
             r#" \
@@ -103,11 +103,9 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         cnt: idlc_mir::Count,
     ) {
         let ty = ty.unwrap_or("ProxyBase").to_string();
-        let mut objs = String::new();
         let mut obj_assign = String::new();
         for i in 0..cnt.into() {
             let idx = self.0.idx.output_object();
-            objs.push_str("Object_NULL, ");
             obj_assign.push_str(&format!(
                 r#"
                 if (r == Object_OK) {{ {ARGS}[{idx}].o=p_{ident}[{i}].extract(); }}"#
@@ -115,7 +113,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident}[{cnt}] = {{ {objs} }};"#
+                {ty} p_{ident}[{cnt}];"#
         ));
         self.0.post.push(format!(
             r#" \
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index f5c97ac..d0781a0 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -102,7 +102,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(&{}_ref)[{cnt}]", ident);
-        let ty = format!("{CONST} {}", ty.unwrap_or("Object"));
+        let ty = format!("{CONST} {}", ty.unwrap_or("ProxyBase"));
         self.inputs.push((name, ty));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
@@ -212,7 +212,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(&{}_ref)[{cnt}]", ident);
-        let ty = ty.unwrap_or("Object").to_string();
+        let ty = ty.unwrap_or("ProxyBase").to_string();
         self.inputs.push((name, ty));
         self.output_obj_arg.push(format!("{}_len", ident));
         self.outputs
-- 
2.43.0


From 7bf66c6dca88d1c40bd81f05339e4dec74757e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 05/31] fix: Rust skeletons accept a null argument array for
 methods without arguments

---
 idlc_codegen_rust/src/interface/functions/invoke.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index 8e1fce0..ca0fe97 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -334,6 +334,12 @@ pub fn emit(
 
     let params = super::signature::iter_to_string(signature.param_idents());
     let returns = super::signature::iter_to_string(signature.return_idents());
+    // Callers may pass a null argument array when there are no arguments.
+    let args_slice = if n_args == 0 {
+        String::new()
+    } else {
+        format!("let args = std::slice::from_raw_parts_mut({ARGS}, {n_args});")
+    };
 
     format!(
         r#"
@@ -341,7 +347,7 @@ pub fn emit(
         if {COUNTS} != {PACK_COUNTS}{counts:?} {{
             return std::mem::transmute({GENERIC_ERROR}::GENERIC)
         }}
-        let args = std::slice::from_raw_parts_mut({ARGS}, {n_args});
+        {args_slice}
 
         {pre}
 
-- 
2.43.0


From 03c7a71408608cb366e5aa5949669351bbc9059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 06/31] fix: C++ proxies release the previous object of an
 output even when it is returned again

---
 .../src/interface/functions/implementation.rs          | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index b9bd8fa..02c020b 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -146,9 +146,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     fn visit_output_object_array(
         &mut self,
         ident: &Ident,
-        _ty: Option<&str>,
+        ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
+        let ty = ty.unwrap_or("ProxyBase");
         let idx = self.0.args.next_output_object();
         for _ in 0..cnt.into() {
             self.0.args.output_objects.push(
@@ -161,7 +162,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.0.post_call.push(format!(
             r#"
     for(size_t arg_idx=0;arg_idx<{cnt};arg_idx++)
-        ({ident}_ref)[arg_idx].consume(a[{idx}+arg_idx].o);"#,
+        ({ident}_ref)[arg_idx] = {ty}(a[{idx}+arg_idx].o);"#,
         ));
     }
 
@@ -234,7 +235,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.visit_output_big_struct(ident, ty);
     }
 
-    fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
+    fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {
+        let ty = ty.unwrap_or("ProxyBase");
         let idx = self.0.args.next_output_object();
         self.0.args.output_objects.push(
             r#"
@@ -249,7 +251,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         } else {
             self.0.post_call.push(format!(
                 r#"
-    {ident}.consume({ARGS}[{idx}].o);"#
+    {ident} = {ty}({ARGS}[{idx}].o);"#
             ));
         }
     }
-- 
2.43.0


From 951c17a19d269b0cdbdf481701880ac26ac2ad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 07/31] fix: walk every included file once and without
 recursion

Include graphs were walked once per path, which is exponential in graphs
full of diamonds, and with one stack frame per include. Cycles were
searched in the whole graph at every single include.
---
 idlc_ast_passes/src/graph.rs     | 54 ++++++++++++++++++--------------
 idlc_ast_passes/src/idl_store.rs | 43 +++++++++++++------------
 2 files changed, 54 insertions(+), 43 deletions(-)

diff --git a/idlc_ast_passes/src/graph.rs b/idlc_ast_passes/src/graph.rs
index dbbad94..13cf28e 100644
--- a/idlc_ast_passes/src/graph.rs
+++ b/idlc_ast_passes/src/graph.rs
@@ -31,43 +31,51 @@ impl<T: Hash + Eq + Clone> Graph<T> {
     pub fn toposort(&self) -> Result<Ordering<T>, Cycle<T>> {
         let nodes = self.nodes.len();
         let mut visited = HashSet::with_capacity(nodes);
-        let mut branch = Vec::with_capacity(nodes);
         let mut order = Vec::with_capacity(nodes);
 
         for node in self.nodes.keys() {
-            if !visited.contains(node) {
-                self.toposort_recursive(node, &mut visited, &mut branch, &mut order)?;
-            }
+            self.toposort_from(node, &mut visited, &mut order)?;
         }
 
         Ok(order)
     }
 
-    fn toposort_recursive(
-        &self,
-        node: &T,
-        visited: &mut HashSet<T>,
-        branch: &mut Vec<T>,
+    fn neighbors(&self, node: &T) -> impl Iterator<Item = &T> {
+        self.nodes.get(node).into_iter().flatten()
+    }
+
+    /// Depth first walk, with a stack of its own since branches can be longer
+    /// than what the call stack has room for.
+    fn toposort_from<'a>(
+        &'a self,
+        node: &'a T,
+        visited: &mut HashSet<&'a T>,
         order: &mut Vec<T>,
     ) -> Result<(), Cycle<T>> {
-        if branch.contains(node) {
-            let mut cycle: Vec<T> = branch.clone();
-            cycle.push(node.clone());
-            return Err(cycle);
+        if !visited.insert(node) {
+            return Ok(());
         }
 
-        if !visited.contains(node) {
-            visited.insert(node.clone());
-            branch.push(node.clone());
-            let index = branch.len() - 1;
+        let mut on_branch = HashSet::from([node]);
+        let mut branch = vec![(node, self.neighbors(node))];
+        while let Some((node, neighbors)) = branch.last_mut() {
+            let Some(neighbor) = neighbors.next() else {
+                on_branch.remove(*node);
+                order.push((*node).clone());
+                branch.pop();
+                continue;
+            };
+
+            if on_branch.contains(neighbor) {
+                let mut cycle: Vec<T> = branch.iter().map(|(node, _)| (*node).clone()).collect();
+                cycle.push(neighbor.clone());
+                return Err(cycle);
+            }
 
-            if let Some(neighbors) = self.nodes.get(node) {
-                for neighbor in neighbors {
-                    self.toposort_recursive(neighbor, visited, branch, order)?;
-                }
+            if visited.insert(neighbor) {
+                on_branch.insert(neighbor);
+                branch.push((neighbor, self.neighbors(neighbor)));
             }
-            branch.remove(index);
-            order.push(node.clone());
         }
 
         Ok(())
diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index ee7bb5f..44d2718 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -3,13 +3,13 @@
 
 //! Implementation of include cycle detection and symbol lookup
 //!
-use crate::graph::{Cycle, Graph};
+use crate::graph::Graph;
 
 use crate::CompilerPass;
 
 use std::{
     cell::RefCell,
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     path::{Path, PathBuf},
     rc::Rc,
 };
@@ -26,8 +26,11 @@ pub struct IDLStore {
     ast_store: RefCell<HashMap<PathBuf, Rc<Ast>>>,
     symbols: RefCell<HashMap<Symbol, (Rc<Node>, PathBuf)>>,
     current: Option<PathBuf>,
-    cycle: Option<Cycle<String>>,
-    graph: Graph<String>,
+    graph: Graph<PathBuf>,
+    /// Every file that was ever included, each one is walked only once.
+    visited: HashSet<PathBuf>,
+    /// Included files which haven't been walked yet.
+    pending: Vec<PathBuf>,
     include_paths: Vec<PathBuf>,
     allow_undefined_behavior: bool,
 }
@@ -45,20 +48,12 @@ impl Visitor<'_> for IDLStore {
     }
 
     fn visit_include(&mut self, include: &'_ Path) {
-        let current = self.current.take().unwrap();
+        let current = self.current.clone().unwrap();
         let cano_path = self.change_to_canonical(&current, include);
-        self.graph.add_edge(
-            current.clone().display().to_string(),
-            cano_path.display().to_string(),
-        );
-        self.cycle = self.graph.cycle();
-        if self.cycle.is_some() {
-            return;
+        self.graph.add_edge(current, cano_path.clone());
+        if self.visited.insert(cano_path.clone()) {
+            self.pending.push(cano_path);
         }
-
-        let inc_ast = self.get_or_insert(&cano_path);
-        walk_all(self, &inc_ast);
-        self.current = Some(current);
     }
 }
 
@@ -78,8 +73,9 @@ impl IDLStore {
             ast_store: RefCell::new(HashMap::new()),
             symbols: RefCell::new(HashMap::new()),
             current: None,
-            cycle: None,
             graph: Graph::new(),
+            visited: HashSet::new(),
+            pending: Vec::new(),
             include_paths: include_paths.to_vec(),
             allow_undefined_behavior,
         }
@@ -144,11 +140,18 @@ impl IDLStore {
 
     fn check_includes(&mut self, ast: &'_ idlc_ast::Ast) -> Result<Vec<String>, crate::Error> {
         walk_all(self, ast);
-        if let Some(cycle) = self.cycle.take() {
-            return Err(crate::Error::CyclicalInclude(cycle));
+        while let Some(path) = self.pending.pop() {
+            let inc_ast = self.get_or_insert(&path);
+            walk_all(self, &inc_ast);
         }
 
-        Ok(self.graph.toposort().unwrap())
+        let to_strings = |paths: Vec<PathBuf>| -> Vec<String> {
+            paths.iter().map(|p| p.display().to_string()).collect()
+        };
+        self.graph
+            .toposort()
+            .map(to_strings)
+            .map_err(|cycle| crate::Error::CyclicalInclude(to_strings(cycle)))
     }
 
     #[inline]
-- 
2.43.0


From f1a65982e680e03c928533a86c88c12ee66580ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 08/31] fix: directories aren't candidates for an include

A directory named like the included file shadowed the file in a later
include directory.
---
 idlc_ast_passes/src/idl_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index 44d2718..f0b54df 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -113,7 +113,7 @@ impl IDLStore {
 
         for include_path in &self.include_paths {
             let possibility = include_path.join(path);
-            if possibility.exists() {
+            if possibility.is_file() {
                 let canonical = possibility.canonicalize().unwrap();
                 if first.is_none() {
                     first = Some(canonical.clone());
-- 
2.43.0


From fbe4fdedab2b00e68c90f87648214252061be2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 09/31] fix: reject interfaces whose Rust modules would have
 the same name

The latter silently replaced the former in the output.
---
 idlc_codegen_rust/src/generator.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/idlc_codegen_rust/src/generator.rs b/idlc_codegen_rust/src/generator.rs
index b65a0f7..10a1f87 100644
--- a/idlc_codegen_rust/src/generator.rs
+++ b/idlc_codegen_rust/src/generator.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use idlc_codegen::Descriptor;
 use idlc_mir::Node;
@@ -27,6 +27,7 @@ impl idlc_codegen::Generator for Generator {
         );
         base.set_extension("rs");
         let mut interfaces = HashMap::new();
+        let mut names = HashSet::new();
         let prologue = &format!("// {MINKIDL_HEADER_COMMENT}\n");
         interfaces.insert(base.clone(), prologue.to_owned());
 
@@ -52,6 +53,12 @@ impl idlc_codegen::Generator for Generator {
                     interface_content.push('\n');
                     interface_content.push_str(&emit(i));
                     let name = format!("{}.rs", i.ident.to_lowercase());
+                    if !names.insert(name.clone()) {
+                        idlc_errors::unrecoverable!(
+                            "Interface `{}` would overwrite another interface in `{name}`",
+                            i.ident
+                        );
+                    }
                     if name == base.to_str().unwrap() {
                         interfaces
                             .get_mut(&base)
-- 
2.43.0


From 1baf7e5e95aeaa72269e3d70eb2593ea25f4c0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 10/31] fix: check structs and interfaces of included files for
 cycles, visit each once

A struct that contains itself, declared in an included file, was never checked:
using it as a parameter type overflowed the stack. Visiting every member of
every member took exponential time.
---
 idlc_ast_passes/src/cycles.rs    | 67 +++++++++++++++++++++-----------
 idlc_ast_passes/src/idl_store.rs |  9 +++++
 2 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/idlc_ast_passes/src/cycles.rs b/idlc_ast_passes/src/cycles.rs
index 6a54bc7..2e34d4d 100644
--- a/idlc_ast_passes/src/cycles.rs
+++ b/idlc_ast_passes/src/cycles.rs
@@ -1,10 +1,10 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use std::rc::Rc;
+use std::{collections::HashSet, rc::Rc};
 
 use idlc_ast::{
-    ast::Type,
+    ast::{Node, Type},
     visitor::{walk_all, Visitor},
 };
 
@@ -13,6 +13,8 @@ use crate::{graph::Graph, idl_store::IDLStore, CompilerPass};
 pub struct Cycles<'ast> {
     struct_graph: Graph<String>,
     iface_graph: Graph<String>,
+    visited_structs: HashSet<String>,
+    visited_ifaces: HashSet<String>,
     idl_store: &'ast IDLStore,
 }
 
@@ -22,35 +24,49 @@ impl<'ast> Cycles<'ast> {
             idl_store,
             struct_graph: Graph::new(),
             iface_graph: Graph::new(),
+            visited_structs: HashSet::new(),
+            visited_ifaces: HashSet::new(),
         }
     }
 
+    /// Follows the bases of `iface`, those which were visited already aren't
+    /// visited again.
     pub fn visit_iface_recurse(&mut self, iface: Rc<idlc_ast::Interface>) {
-        if self.iface_graph.cycle().is_some() {
-            return;
-        }
+        let mut next = Some(iface);
+        while let Some(iface) = next.take() {
+            if !self.visited_ifaces.insert(iface.ident.to_string()) {
+                break;
+            }
+            self.iface_graph.add_node(iface.ident.to_string());
 
-        if let Some(base) = &iface.base {
-            let base = self.idl_store.iface_lookup(base).unwrap();
-            self.iface_graph
-                .add_edge(iface.ident.to_string(), base.ident.to_string());
-            self.visit_iface_recurse(base);
+            if let Some(base) = &iface.base {
+                let base = self.idl_store.iface_lookup(base).unwrap();
+                self.iface_graph
+                    .add_edge(iface.ident.to_string(), base.ident.to_string());
+                next = Some(base);
+            }
         }
     }
 
+    /// Follows the members of `struct`, those which were visited already aren't
+    /// visited again.
     pub fn visit_struct_recurse(&mut self, r#struct: Rc<idlc_ast::Struct>) {
-        if self.struct_graph.cycle().is_some() {
-            return;
-        }
+        let mut pending = vec![r#struct];
+        while let Some(r#struct) = pending.pop() {
+            if !self.visited_structs.insert(r#struct.ident.to_string()) {
+                continue;
+            }
+            self.struct_graph.add_node(r#struct.ident.to_string());
 
-        for field in &r#struct.fields {
-            if let Type::Custom(c) = &field.r#type().0 {
-                let Some((custom, _)) = self.idl_store.struct_lookup(c) else {
-                    panic!("Identifier {:?} not found", c.ident);
-                };
-                self.struct_graph
-                    .add_edge(r#struct.ident.to_string(), custom.ident.to_string());
-                self.visit_struct_recurse(custom);
+            for field in &r#struct.fields {
+                if let Type::Custom(c) = &field.r#type().0 {
+                    let Some((custom, _)) = self.idl_store.struct_lookup(c) else {
+                        panic!("Identifier {:?} not found", c.ident);
+                    };
+                    self.struct_graph
+                        .add_edge(r#struct.ident.to_string(), custom.ident.to_string());
+                    pending.push(custom);
+                }
             }
         }
     }
@@ -59,12 +75,10 @@ impl<'ast> Cycles<'ast> {
 impl<'ast> Visitor<'ast> for Cycles<'ast> {
     fn visit_interface(&mut self, iface: &'ast idlc_ast::Interface) {
         self.visit_iface_recurse(Rc::new(iface.clone()));
-        self.iface_graph.add_node(iface.ident.to_string());
     }
 
     fn visit_struct(&mut self, r#struct: &'ast idlc_ast::Struct) {
         self.visit_struct_recurse(Rc::new(r#struct.clone()));
-        self.struct_graph.add_node(r#struct.ident.to_string());
     }
 }
 
@@ -76,6 +90,13 @@ impl<'ast> CompilerPass<'ast> for Cycles<'ast> {
     /// This is not needed for interfaces as no AST passes are done for interfaces.
     fn run_pass(&'ast mut self, ast: &'ast idlc_ast::Ast) -> Result<Self::Output, crate::Error> {
         walk_all(self, ast);
+        // The rest of the compiler follows structs and interfaces into the
+        // included files too.
+        self.idl_store.for_each(|node| match node {
+            Node::Struct(s) => self.visit_struct_recurse(Rc::new(s.clone())),
+            Node::Interface(i) => self.visit_iface_recurse(Rc::new(i.clone())),
+            _ => (),
+        });
         self.iface_graph
             .toposort()
             .map_err(crate::Error::CyclicalInclude)?;
diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index f0b54df..2f9ac37 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -94,6 +94,15 @@ impl IDLStore {
         ))
     }
 
+    /// calls `f` with every node of every AST in the store
+    pub fn for_each(&self, mut f: impl FnMut(&Node)) {
+        for ast in self.ast_store.borrow().values() {
+            for node in &ast.nodes {
+                f(node);
+            }
+        }
+    }
+
     fn change_to_canonical<'a>(&mut self, current: &'a Path, path: &'a Path) -> PathBuf {
         if self.ast_store.borrow().contains_key(path) {
             return path.to_path_buf();
-- 
2.43.0


From 9888214a71a4db3a8c9f02fc3062c5695becb3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 11/31] fix: reject structs whose size overflows instead of
 wrapping around in release builds

---
 idlc_ast_passes/src/struct_verifier.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/idlc_ast_passes/src/struct_verifier.rs b/idlc_ast_passes/src/struct_verifier.rs
index 8e13ec7..a036758 100644
--- a/idlc_ast_passes/src/struct_verifier.rs
+++ b/idlc_ast_passes/src/struct_verifier.rs
@@ -36,6 +36,8 @@ pub enum Error {
         alignment: usize,
         size: usize,
     },
+    #[error("struct `{parent}` is too large")]
+    StructTooLarge { parent: String },
     #[error("struct `{parent}` contains duplicate field names: `{names:?}`")]
     StructFieldSameName { parent: Ident, names: Vec<Ident> },
 }
@@ -45,7 +47,7 @@ impl StructVerifier {
         let mut store: HashMap<String, (Size, Alignment)> = HashMap::new();
         for r#struct in toposort {
             let (node, _) = idl_store.struct_lookup(r#struct).unwrap();
-            let mut size = 0;
+            let mut size: Size = 0;
             let mut alignment = 0;
             let mut fields: HashSet<&Ident> = HashSet::new();
 
@@ -78,7 +80,12 @@ impl StructVerifier {
                     });
                 }
 
-                size += i_size * count;
+                size = i_size
+                    .checked_mul(count)
+                    .and_then(|field_size| size.checked_add(field_size))
+                    .ok_or_else(|| Error::StructTooLarge {
+                        parent: r#struct.to_string(),
+                    })?;
                 alignment = alignment.max(i_alignment);
             }
 
-- 
2.43.0


From 182c103d1f2e10317b1aad326bedcbdcc5d9c22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 12/31] fix: reject array sizes out of range in release builds
 too

The conversion of the parse tree was unchecked in release builds, where an
array size of 0 or above 65535 was undefined behaviour.
---
 idlc_ast/src/pst.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index dc7d305..0e8c710 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -40,18 +40,22 @@ impl From<pest::error::Error<Rule>> for Error {
 pub(crate) struct IDLParser;
 
 macro_rules! ast_unwrap {
-    ($e: expr) => {{
-        #[cfg(debug_assertions)]
-        {
-            $e.unwrap()
-        }
+    ($e: expr) => {
+        ($e).expect("ICE: PST doesn't match the grammar")
+    };
+}
 
-        #[cfg(not(debug_assertions))]
-        // Safety: PST to AST is a 1-to-1 transition and can never fail.
-        unsafe {
-            ($e).unwrap_unchecked()
-        }
-    }};
+/// Parses the size of a bounded array.
+fn parse_array_size(pair: Pair<'_, Rule>) -> Count {
+    debug_assert_eq!(pair.as_rule(), Rule::bounded_array);
+    let size = ast_unwrap!(pair.into_inner().next());
+    size.as_str().parse().unwrap_or_else(|e| {
+        idlc_errors::unrecoverable!(
+            "Array size '{}' isn't in range 1..={} [{e}]",
+            size.as_str(),
+            Count::MAX
+        )
+    })
 }
 
 impl From<pest::Span<'_>> for Span {
@@ -190,8 +194,7 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
                 Rule::bounded_array => {
-                    let array_len: Count = ast_unwrap!(pair.into_inner().as_str().parse());
-                    Self::Array(r#type, Some(array_len))
+                    Self::Array(r#type, Some(parse_array_size(pair)))
                 }
                 _ => unreachable!(),
             }
@@ -215,8 +218,7 @@ impl From<Pair<'_, Rule>> for ParamTypeOut {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
                 Rule::bounded_array => {
-                    let array_len: Count = ast_unwrap!(pair.into_inner().as_str().parse());
-                    Self::Array(r#type, Some(array_len))
+                    Self::Array(r#type, Some(parse_array_size(pair)))
                 }
                 _ => unreachable!(),
             }
@@ -264,8 +266,7 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
                 let next = ast_unwrap!(iter.next());
                 let (elem, ident) = match next.as_rule() {
                     Rule::bounded_array => {
-                        let array_len: Count =
-                            ast_unwrap!(next.clone().into_inner().as_str().parse());
+                        let array_len = parse_array_size(next.clone());
                         let ident = ast_unwrap!(iter.next()).as_str().to_string();
                         (array_len, ident)
                     }
-- 
2.43.0


From fa4086b2a3d7a870e663859650426071dde3df60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 13/31] fix: skip comments between the tokens of a declaration

Comments are part of the parse tree, so a comment in between was taken for the
name of a struct, method or error, dropped the base of an interface, or hit
internal errors (undefined behaviour in release builds).
---
 idlc_ast/src/pst.rs | 54 +++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index 0e8c710..b504c04 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -45,10 +45,17 @@ macro_rules! ast_unwrap {
     };
 }
 
+/// Children of `pair` except for comments, which can stand between any two of
+/// them.
+fn tokens(pair: Pair<'_, Rule>) -> impl Iterator<Item = Pair<'_, Rule>> {
+    pair.into_inner()
+        .filter(|child| child.as_rule() != Rule::COMMENT)
+}
+
 /// Parses the size of a bounded array.
 fn parse_array_size(pair: Pair<'_, Rule>) -> Count {
     debug_assert_eq!(pair.as_rule(), Rule::bounded_array);
-    let size = ast_unwrap!(pair.into_inner().next());
+    let size = ast_unwrap!(tokens(pair).next());
     size.as_str().parse().unwrap_or_else(|e| {
         idlc_errors::unrecoverable!(
             "Array size '{}' isn't in range 1..={} [{e}]",
@@ -88,11 +95,11 @@ impl InterfaceNode {
         match pair.as_rule() {
             Rule::error => Self::Error(Ident {
                 span: pair.as_span().into(),
-                ident: pair.into_inner().nth(1).unwrap().as_str().to_string(),
+                ident: ast_unwrap!(tokens(pair).nth(1)).as_str().to_string(),
             }),
             Rule::r#const => Self::Const(parse_const(pair, allow_undefined_behavior)),
             Rule::function => {
-                let mut inner = pair.into_inner();
+                let mut inner = tokens(pair);
                 let mut attributes = Vec::new();
                 let function_keyword = ast_unwrap!(inner.next());
                 for attribute in function_keyword.into_inner() {
@@ -111,9 +118,7 @@ impl InterfaceNode {
                 let ident = ast_unwrap!(inner.next()).into();
                 let mut params = Vec::new();
                 for param in inner {
-                    if param.as_rule() == Rule::param {
-                        params.push(Param::from(param));
-                    }
+                    params.push(Param::from(param));
                 }
                 Self::Function(Function {
                     doc,
@@ -143,7 +148,7 @@ impl<'a> From<Pair<'a, Rule>> for FunctionAttribute {
 
 impl<'a> From<Pair<'a, Rule>> for Param {
     fn from(value: Pair<'a, Rule>) -> Self {
-        let mut params = value.into_inner();
+        let mut params = tokens(value);
         let mutability = ast_unwrap!(params.next()).as_str();
         let r#type = ast_unwrap!(params.next());
         let ident = ast_unwrap!(params.next()).into();
@@ -182,7 +187,7 @@ impl From<Pair<'_, Rule>> for Type {
 impl From<Pair<'_, Rule>> for ParamTypeIn {
     fn from(rule: Pair<Rule>) -> Self {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
-        let mut inner = rule.into_inner();
+        let mut inner = tokens(rule);
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
@@ -193,9 +198,7 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
         if let Some(pair) = inner.next() {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
-                Rule::bounded_array => {
-                    Self::Array(r#type, Some(parse_array_size(pair)))
-                }
+                Rule::bounded_array => Self::Array(r#type, Some(parse_array_size(pair))),
                 _ => unreachable!(),
             }
         } else {
@@ -206,7 +209,7 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
 impl From<Pair<'_, Rule>> for ParamTypeOut {
     fn from(rule: Pair<Rule>) -> Self {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
-        let mut inner = rule.into_inner();
+        let mut inner = tokens(rule);
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
@@ -217,9 +220,7 @@ impl From<Pair<'_, Rule>> for ParamTypeOut {
         if let Some(pair) = inner.next() {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
-                Rule::bounded_array => {
-                    Self::Array(r#type, Some(parse_array_size(pair)))
-                }
+                Rule::bounded_array => Self::Array(r#type, Some(parse_array_size(pair))),
                 _ => unreachable!(),
             }
         } else {
@@ -255,13 +256,13 @@ fn parse_include(pair: Pair<Rule>) -> Rc<Node> {
 }
 
 fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
-    let mut struct_pst = pair.into_inner().skip(1);
+    let mut struct_pst = tokens(pair).skip(1);
     let ident: Ident = ast_unwrap!(struct_pst.next()).into();
     let mut fields = Vec::<StructField>::new();
     for rule in struct_pst {
         match rule.as_rule() {
             Rule::struct_field => {
-                let mut iter = rule.into_inner();
+                let mut iter = tokens(rule);
                 let r#type = Type::from(ast_unwrap!(iter.next()));
                 let next = ast_unwrap!(iter.next());
                 let (elem, ident) = match next.as_rule() {
@@ -285,9 +286,6 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
                     val: (r#type, elem),
                 });
             }
-            Rule::COMMENT => {
-                // Currently unsupported for structs due to varying styles
-            }
             r => unreachable!("Unknown rule `{r:?}`"),
         }
     }
@@ -295,7 +293,7 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
 }
 
 fn parse_const(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Const {
-    let mut inner = pair.into_inner().skip(1);
+    let mut inner = tokens(pair).skip(1);
 
     let ty = ast_unwrap!(inner.next()).as_str();
     let ident = ast_unwrap!(inner.next()).into();
@@ -318,15 +316,13 @@ fn parse_const(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Const {
 fn parse_interface(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Rc<Node> {
     let span = Span::from(pair.as_span());
     let mut interface = pair.into_inner().skip(1);
-    let mut pairs = ast_unwrap!(interface.next()).into_inner();
+    let name = ast_unwrap!(interface.find(|child| child.as_rule() == Rule::iname));
+    let mut pairs = tokens(name);
     let ident = ast_unwrap!(pairs.next()).as_str().to_string();
-    let base = pairs
-        .next()
-        .filter(|base| base.as_rule() == Rule::ident)
-        .map(|base| Ident {
-            span: base.as_span().into(),
-            ident: base.as_str().to_string(),
-        });
+    let base = pairs.next().map(|base| Ident {
+        span: base.as_span().into(),
+        ident: base.as_str().to_string(),
+    });
 
     let mut iface_nodes = Vec::new();
     let mut comment: Option<Documentation> = None;
-- 
2.43.0


From c33ae6946528150e3ba04eb71c30f4472c4c1e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 14/31] fix: fail when asked to dump the parse tree of a file
 that doesn't parse

---
 idlc_ast/src/pst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index b504c04..b9b5691 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -375,7 +375,7 @@ pub fn dump<P: AsRef<std::path::Path>>(path: P) {
     let duration = now.elapsed();
     match pst {
         Ok(pst) => println!("{pst:#?}"),
-        Err(e) => eprintln!("Parsing failed:\n{e}\n"),
+        Err(e) => idlc_errors::unrecoverable!("Parsing failed:\n{e}\n"),
     }
     eprintln!("'dump_pst' completed in {duration:?}");
 }
-- 
2.43.0


From 5634d22300bccd4905e85537dcb425dbc3fae225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 15/31] fix: Java: serialize arrays inside structs, create
 nested structs

Fields of a struct that are arrays were put and got as if they were single
values, which doesn't compile; nested structs were never allocated.
---
 idlc_codegen_java/src/globals.rs              | 21 ++++--
 .../src/interface/functions/implementation.rs | 75 ++++++-------------
 .../src/interface/functions/invoke.rs         | 71 ++++++------------
 .../src/interface/functions/serialization.rs  | 58 +++++++-------
 idlc_codegen_java/src/types.rs                | 51 +++++++++----
 5 files changed, 124 insertions(+), 152 deletions(-)

diff --git a/idlc_codegen_java/src/globals.rs b/idlc_codegen_java/src/globals.rs
index f6aec73..ebcc551 100644
--- a/idlc_codegen_java/src/globals.rs
+++ b/idlc_codegen_java/src/globals.rs
@@ -20,16 +20,25 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
             }
             _ => unreachable!(),
         };
-        contents.push_str(&if count == 1 {
-            format!(
+        let is_struct = matches!(&field.val.0, idlc_mir::Type::Struct(_));
+        contents.push_str(&match (is_struct, count) {
+            (false, 1) => format!(
                 r#"public {ty} {ident};
         "#
-            )
-        } else {
-            format!(
+            ),
+            (true, 1) => format!(
+                r#"public {ty} {ident}=new {ty}();
+        "#
+            ),
+            (false, _) => format!(
+                r#"public {ty}[] {ident}=new {ty}[{count}];
+        "#
+            ),
+            (true, _) => format!(
                 r#"public {ty}[] {ident}=new {ty}[{count}];
+        {{ for (int _i=0; _i<{count}; _i++) {ident}[_i]=new {ty}(); }}
         "#
-            )
+            ),
         });
     }
 
diff --git a/idlc_codegen_java/src/interface/functions/implementation.rs b/idlc_codegen_java/src/interface/functions/implementation.rs
index 58af14d..27b9c3d 100644
--- a/idlc_codegen_java/src/interface/functions/implementation.rs
+++ b/idlc_codegen_java/src/interface/functions/implementation.rs
@@ -6,7 +6,7 @@ use idlc_mir::Ident;
 use crate::interface::mink_primitives::{
     BI, BO, BUNDLE_IN, BUNDLE_OUT, BYTE_BUFFER, BYTE_ORDER, OI, OO, OP_ID,
 };
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, walk_struct};
 
 use super::serialization::TransportBuffer;
 
@@ -118,20 +118,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
         let sz = ty.size();
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"buffer_{name}.put{capitalized_ty}(i.{field_ident});
+
+        let buffer_in = walk_struct(ty, "i", &|field, suffix| {
+            format!(
+                r#"buffer_{name}.put{suffix}({field});
                     "#
-            ));
-        }
+            )
+        });
 
         self.initializations.push(format!(
             r#"if({name} != null) {{
@@ -198,19 +191,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
         let sz = ty.size();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"buffer_{name}.put{capitalized_ty}({name}.{field_ident});
+        let fields = walk_struct(ty, &name, &|field, suffix| {
+            format!(
+                r#"buffer_{name}.put{suffix}({field});
             "#
-            ));
-        }
+            )
+        });
 
         self.initializations.push(format!(
             r#"{BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
@@ -280,21 +266,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
 
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        let ty = ty.ident.to_string();
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"{name}[0][i].{field_ident} = buffer_{name}.get{capitalized_ty}();
+        let buffer_in = walk_struct(ty, &format!("{name}[0][i]"), &|field, suffix| {
+            format!(
+                r#"{field} = buffer_{name}.get{suffix}();
                     "#
-            ));
-        }
+            )
+        });
+        let ty = ty.ident.to_string();
 
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {ident}_len*{sz};
@@ -376,19 +354,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bo_sz_idx = self.bo_sz_idx();
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{name}[0].{field_ident} = {BUNDLE_OUT}.get{capitalized_ty}();
+        let fields = walk_struct(ty, &format!("{name}[0]"), &|field, suffix| {
+            format!(
+                r#"{field} = {BUNDLE_OUT}.get{suffix}();
                 "#
-            ));
-        }
+            )
+        });
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {sz};
             "#,
diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index c8bdd39..e526f43 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -4,7 +4,7 @@
 use crate::interface::mink_primitives::{
     BI, BO, BUNDLE_IN, BUNDLE_OUT, BYTE_BUFFER, BYTE_ORDER, IMINK_OBJECT, OI, OO, OP_ID,
 };
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, walk_struct};
 
 use super::serialization::TransportBuffer;
 
@@ -98,19 +98,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_input_struct_buffer(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         let bi_idx = self.bi_idx();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{ident}[0].{field_ident}={BUNDLE_IN}{bi_idx}.get{capitalized_ty}();
+        let fields = walk_struct(ty, &format!("{ident}[0]"), &|field, suffix| {
+            format!(
+                r#"{field}={BUNDLE_IN}{bi_idx}.get{suffix}();
                     "#
-            ));
-        }
+            )
+        });
         let ty = ty.ident.to_string();
         self.pre.push(format!(
             r#"{ty}[] {ident} = new {ty}[1];
@@ -173,19 +166,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bi_idx = self.bi_idx();
         let sz = ty.size();
 
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{ident}.{field_ident}={BUNDLE_IN}{bi_idx}.get{capitalized_ty}();
+        let fields = walk_struct(ty, ident.as_ref(), &|field, suffix| {
+            format!(
+                r#"{field}={BUNDLE_IN}{bi_idx}.get{suffix}();
                     "#
-            ));
-        }
+            )
+        });
         let ty = ty.ident.to_string();
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {sz}) {{
@@ -256,20 +242,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
 
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"buffer_{ident}.put{capitalized_ty}(i.{field_ident});
+        let buffer_in = walk_struct(ty, "i", &|field, suffix| {
+            format!(
+                r#"buffer_{ident}.put{suffix}({field});
                     "#
-            ));
-        }
+            )
+        });
 
         let ty = ty.ident.to_string();
 
@@ -314,19 +292,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
 
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"buffer_{ident}.put{capitalized_ty}({ident}[0].{field_ident});
+        let fields = walk_struct(ty, &format!("{ident}[0]"), &|field, suffix| {
+            format!(
+                r#"buffer_{ident}.put{suffix}({field});
                     "#
-            ));
-        }
+            )
+        });
         let ty = ty.ident.to_string();
 
         self.pre.push(format!(
diff --git a/idlc_codegen_java/src/interface/functions/serialization.rs b/idlc_codegen_java/src/interface/functions/serialization.rs
index 17854ab..743410d 100644
--- a/idlc_codegen_java/src/interface/functions/serialization.rs
+++ b/idlc_codegen_java/src/interface/functions/serialization.rs
@@ -5,7 +5,7 @@ use idlc_codegen::serialization::Type;
 
 use crate::interface::mink_primitives::{BUNDLE_IN, BUNDLE_OUT};
 
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, walk_struct};
 
 #[derive(Debug, Clone)]
 pub struct TransportBuffer {
@@ -105,7 +105,6 @@ impl<'a> PackedPrimitives<'a> {
                     }
                 }
                 Type::SmallStruct(s) => {
-                    let mut field_idents = Vec::new();
                     let ty = s.ident.to_string();
                     if is_invoke && in_out == BUNDLE_IN {
                         fields.push_str(&format!(
@@ -113,37 +112,34 @@ impl<'a> PackedPrimitives<'a> {
                     "#,
                         ));
                     }
-                    get_struct_pair(s, &mut field_idents, "".to_string());
-                    for (field_ident, field_ty) in field_idents {
-                        let mut capitalized_ty = String::new();
-                        if let idlc_mir::Type::Primitive(p) = field_ty {
-                            capitalized_ty = capitalize_first_letter(change_primitive(p));
-                        }
-                        if is_invoke {
-                            if in_out == BUNDLE_IN {
-                                fields.push_str(&format!(
-                                    r#"{ident}.{field_ident}={BUNDLE_IN}.get{capitalized_ty}();
-                    "#,
-                                ));
-                            } else {
-                                fields.push_str(&format!(
-                                    r#"{BUNDLE_OUT}.put{capitalized_ty}({ident}[0].{field_ident});
-                    "#,
-                                ));
-                            }
-                        } else if in_out == BUNDLE_IN {
-                            fields.push_str(&format!(
-                                r#"{in_out}.put{capitalized_ty}({ident}_val.{field_ident});
-            "#,
-                            ));
+                    let parent = match (is_invoke, in_out == BUNDLE_IN) {
+                        (true, true) => ident.to_string(),
+                        (true, false) => format!("{ident}[0]"),
+                        (false, true) => format!("{ident}_val"),
+                        (false, false) => format!("{ident}_ptr[0]"),
+                    };
+                    let accesses = walk_struct(s, &parent, &|field, suffix| {
+                        if is_invoke == (in_out == BUNDLE_IN) {
+                            format!(
+                                r#"{field} = {in_out}.get{suffix}();
+                    "#
+                            )
                         } else {
-                            fields.push_str(&format!(
-                                r#"if ({ident}_ptr != null) {{
-                    {ident}_ptr[0].{field_ident} = {in_out}.get{capitalized_ty}();
-                }}
-                "#,
-                            ));
+                            format!(
+                                r#"{in_out}.put{suffix}({field});
+                    "#
+                            )
                         }
+                    });
+                    if !is_invoke && in_out == BUNDLE_OUT {
+                        fields.push_str(&format!(
+                            r#"if ({ident}_ptr != null) {{
+                    {accesses}
+                }}
+                "#
+                        ));
+                    } else {
+                        fields.push_str(&accesses);
                     }
                 }
             };
diff --git a/idlc_codegen_java/src/types.rs b/idlc_codegen_java/src/types.rs
index a7bcf58..552dc7b 100644
--- a/idlc_codegen_java/src/types.rs
+++ b/idlc_codegen_java/src/types.rs
@@ -22,27 +22,52 @@ pub fn capitalize_first_letter(s: &str) -> String {
     s.to_case(convert_case::Case::UpperCamel)
 }
 
-pub fn get_struct_pair(
+/// Calls `access` with every primitive of a struct in the order of its layout:
+/// the path to it, starting with `parent`, and the suffix of the accessor of
+/// `ByteBuffer`. Arrays are walked with loops.
+pub fn walk_struct(
     r#struct: &idlc_mir::StructInner,
-    result: &mut Vec<(String, idlc_mir::Type)>,
-    mut parent: String,
-) {
-    if !parent.is_empty() {
-        parent.push('.');
-    }
+    parent: &str,
+    access: &impl Fn(&str, &str) -> String,
+) -> String {
+    walk_fields(r#struct, parent, 0, access)
+}
+
+fn walk_fields(
+    r#struct: &idlc_mir::StructInner,
+    parent: &str,
+    depth: usize,
+    access: &impl Fn(&str, &str) -> String,
+) -> String {
+    let mut out = String::new();
     for field in &r#struct.fields {
-        match &field.val.0 {
-            idlc_mir::Type::Primitive(_) => {
-                result.push((format!("{parent}{}", field.ident), field.val.0.clone()))
+        let count = field.val.1.get();
+        let (path, depth) = if count == 1 {
+            (format!("{parent}.{}", field.ident), depth)
+        } else {
+            // IDL identifiers don't start with an underscore
+            (format!("{parent}.{}[_i{depth}]", field.ident), depth + 1)
+        };
+        let accesses = match &field.val.0 {
+            &idlc_mir::Type::Primitive(p) => {
+                access(&path, &capitalize_first_letter(change_primitive(p)))
             }
             idlc_mir::Type::Struct(idlc_mir::Struct::Big(s) | idlc_mir::Struct::Small(s)) => {
-                let new_parent = format!("{parent}{}", field.ident);
-                get_struct_pair(s, result, new_parent);
+                walk_fields(s, &path, depth, access)
             }
             idlc_mir::Type::Interface(_) => {
-                result.push((format!("{parent}{}", field.ident), field.val.0.clone()))
+                unimplemented!("Java codegen doesn't support objects in struct")
             }
             _ => unreachable!(),
+        };
+        if count == 1 {
+            out.push_str(&accesses);
+        } else {
+            let i = format!("_i{}", depth - 1);
+            out.push_str(&format!(
+                "for (int {i}=0; {i}<{count}; {i}++) {{\n{accesses}}}\n"
+            ));
         }
     }
+    out
 }
-- 
2.43.0


From 4479e950b2d94ac5b620d3c591b25d6813fa5496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 16/31] fix: Java: decode every output of a proxy with a buffer
 of its own

Proxies of methods with two or more outputs that aren't bundled declared the
same local variable more than once.
---
 .../src/interface/functions/implementation.rs          | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/idlc_codegen_java/src/interface/functions/implementation.rs b/idlc_codegen_java/src/interface/functions/implementation.rs
index 27b9c3d..4f92344 100644
--- a/idlc_codegen_java/src/interface/functions/implementation.rs
+++ b/idlc_codegen_java/src/interface/functions/implementation.rs
@@ -319,10 +319,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             "#,
         ));
         self.post_call.push(format!(
-            r#"{BYTE_BUFFER} {BUNDLE_OUT};
-            {BUNDLE_OUT} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-            if({name} != null) {{
-                {name}[0] = {BUNDLE_OUT}.get{ty}();
+            r#"if({name} != null) {{
+                {name}[0] = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER}).get{ty}();
             }}
             "#,
         ));
@@ -356,7 +354,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let sz = ty.size();
         let fields = walk_struct(ty, &format!("{name}[0]"), &|field, suffix| {
             format!(
-                r#"{field} = {BUNDLE_OUT}.get{suffix}();
+                r#"{field} = buffer_{name}.get{suffix}();
                 "#
             )
         });
@@ -365,7 +363,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             "#,
         ));
         self.post_call.push(format!(
-            r#"{BYTE_BUFFER} {BUNDLE_OUT} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
             if ({name} != null) {{
                 {fields}
             }}
-- 
2.43.0


From 498ab18b6e4685a418f9b067745f26e88295270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 17/31] fix: Java: decode and encode arrays of primitives in
 skeletons

Typed buffers aren't backed by an array, array() throws for them; the
capacity is a number of elements; the output has as many bytes as the array
that the implementation returned, not as the holder of that array.
---
 idlc_codegen_java/src/interface/functions/invoke.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index e526f43..670ab52 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -82,6 +82,7 @@ impl Invoke {
 impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_input_primitive_buffer(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
         let bi_idx = self.bi_idx();
+        let sz = ty.size();
         let ty = change_primitive(ty);
         let capitalized_ty = capitalize_first_letter(ty);
         let to_buffer = if !capitalized_ty.is_empty() {
@@ -91,7 +92,8 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
 
         self.pre.push(format!(
-            r#"{ty}[] {ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).{to_buffer}array();
+            r#"{ty}[] {ident} = new {ty}[{BI}[{bi_idx}].length/{sz}];
+                    {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).{to_buffer}get({ident});
                     "#
         ));
     }
@@ -212,11 +214,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"{ty}[][] {ident} = new {ty}[1][];
-                    int {ident}_len = boSizes[{bo_sz_idx}];
+                    int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}.length*{sz}).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}[0].length*{sz}).order({BYTE_ORDER});
                     buffer_{ident}.{to_buffer}put({ident}[0]);
                     {BO}[{bo_idx}] = buffer_{ident}.array();
                     "#,
-- 
2.43.0


From e507b1c415877aa9c4e832c4c618dcbb19f397cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 18/31] fix: Java: transfer every element of arrays of structs

Skeletons decoded a single element of an input and took sizes in bytes for
numbers of elements; neither side created the elements it decoded, and
proxies read as many as they had asked for instead of those returned.
---
 .../src/interface/functions/implementation.rs      |  3 ++-
 .../src/interface/functions/invoke.rs              | 14 +++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/idlc_codegen_java/src/interface/functions/implementation.rs b/idlc_codegen_java/src/interface/functions/implementation.rs
index 4f92344..176c95a 100644
--- a/idlc_codegen_java/src/interface/functions/implementation.rs
+++ b/idlc_codegen_java/src/interface/functions/implementation.rs
@@ -283,7 +283,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 int {ident}_lenout = Math.min({BO}[{bo_idx}].length/{sz}, {ident}_len);
                 {name}[0] = new {ty}[{ident}_lenout];
                 {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-                for (int i=0;i<{ident}_len;i++) {{
+                for (int i=0;i<{ident}_lenout;i++) {{
+                    {name}[0][i] = new {ty}();
                     {buffer_in}
                 }}
             }}
diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index 670ab52..bea2be0 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -100,7 +100,8 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_input_struct_buffer(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         let bi_idx = self.bi_idx();
-        let fields = walk_struct(ty, &format!("{ident}[0]"), &|field, suffix| {
+        let sz = ty.size();
+        let fields = walk_struct(ty, &format!("{ident}[_i]"), &|field, suffix| {
             format!(
                 r#"{field}={BUNDLE_IN}{bi_idx}.get{suffix}();
                     "#
@@ -108,9 +109,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         });
         let ty = ty.ident.to_string();
         self.pre.push(format!(
-            r#"{ty}[] {ident} = new {ty}[1];
+            r#"{ty}[] {ident} = new {ty}[{BI}[{bi_idx}].length/{sz}];
                     {BYTE_BUFFER} {BUNDLE_IN}{bi_idx} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
-                    {fields}
+                    for (int _i=0; _i<{ident}.length; _i++) {{
+                        {ident}[_i] = new {ty}();
+                        {fields}
+                    }}
                     "#
         ));
     }
@@ -255,12 +259,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"{ty}[][] {ident} = new {ty}[1][];
-                    int {ident}_len = boSizes[{bo_sz_idx}];
+                    int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
 
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}.length*{sz}).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}[0].length*{sz}).order({BYTE_ORDER});
                     for ({ty} i : {ident}[0]) {{
                         {buffer_in}
                     }}
-- 
2.43.0


From d4369877b37c8f6c93e13a28d62f207a47c7d9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 19/31] fix: Java: handle holders of outputs that are null or
 empty

A proxy skipped neither the bytes of an output nobody asked for nor created
the struct or array an empty holder lacks; holders given to implementations
start with an empty struct or array.
---
 .../src/interface/functions/implementation.rs          | 10 +++++++---
 idlc_codegen_java/src/interface/functions/invoke.rs    |  8 ++++----
 .../src/interface/functions/serialization.rs           |  9 ++++++++-
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/idlc_codegen_java/src/interface/functions/implementation.rs b/idlc_codegen_java/src/interface/functions/implementation.rs
index 176c95a..8f14375 100644
--- a/idlc_codegen_java/src/interface/functions/implementation.rs
+++ b/idlc_codegen_java/src/interface/functions/implementation.rs
@@ -301,9 +301,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let name = format!("{}_ptr", ident);
         self.obj_arr_out = true;
         self.post_call.push(format!(
-            r#"
-            for (int i=0;i<{cnt};i++) {{
-                {name}[0][i] = {OO}[i];
+            r#"if({name} != null) {{
+                if ({name}[0] == null) {name}[0] = new IMinkObject[{cnt}];
+                for (int i=0;i<{cnt};i++) {{
+                    {name}[0][i] = {OO}[i];
+                }}
             }}
             "#,
         ));
@@ -359,6 +361,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 "#
             )
         });
+        let ty = ty.ident.to_string();
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {sz};
             "#,
@@ -366,6 +369,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.post_call.push(format!(
             r#"{BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
             if ({name} != null) {{
+                if ({name}[0] == null) {name}[0] = new {ty}();
                 {fields}
             }}
             "#,
diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index bea2be0..cfd3450 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -217,7 +217,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
 
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][];
+            r#"{ty}[][] {ident} = new {ty}[1][0];
                     int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
@@ -233,7 +233,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         self.pre.push(format!(
-            r#"byte[][] {ident} = new byte[1][];
+            r#"byte[][] {ident} = new byte[1][0];
                     int {ident}_len = boSizes[{bo_sz_idx}];
                     "#,
         ));
@@ -258,7 +258,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = ty.ident.to_string();
 
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][];
+            r#"{ty}[][] {ident} = new {ty}[1][0];
                     int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
@@ -310,7 +310,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
                         break;
                     }}
-                    {ty}[] {ident} = new {ty}[1];
+                    {ty}[] {ident} = {{new {ty}()}};
                     "#,
         ));
         self.post.push(format!(
diff --git a/idlc_codegen_java/src/interface/functions/serialization.rs b/idlc_codegen_java/src/interface/functions/serialization.rs
index 743410d..38c937b 100644
--- a/idlc_codegen_java/src/interface/functions/serialization.rs
+++ b/idlc_codegen_java/src/interface/functions/serialization.rs
@@ -44,7 +44,7 @@ impl<'a> PackedPrimitives<'a> {
             Type::SmallStruct(s) => {
                 let ty = s.ident.to_string();
                 assignments += &format!(
-                    r#"{ty}[] {ident} = new {ty}[1];
+                    r#"{ty}[] {ident} = {{new {ty}()}};
                     "#
                 );
             }
@@ -76,6 +76,7 @@ impl<'a> PackedPrimitives<'a> {
         for (ident, ty) in pairs {
             match ty {
                 &Type::Primitive(p) => {
+                    let size = p.size();
                     let ty = change_primitive(p);
                     let capitalized_ty = capitalize_first_letter(ty);
                     if is_invoke {
@@ -99,12 +100,15 @@ impl<'a> PackedPrimitives<'a> {
                         fields.push_str(&format!(
                             r#"if ({ident}_ptr != null) {{
                     {ident}_ptr[0] = {in_out}.get{capitalized_ty}();
+                }} else {{
+                    {in_out}.position({in_out}.position()+{size});
                 }}
                 "#
                         ));
                     }
                 }
                 Type::SmallStruct(s) => {
+                    let size = s.size();
                     let ty = s.ident.to_string();
                     if is_invoke && in_out == BUNDLE_IN {
                         fields.push_str(&format!(
@@ -134,7 +138,10 @@ impl<'a> PackedPrimitives<'a> {
                     if !is_invoke && in_out == BUNDLE_OUT {
                         fields.push_str(&format!(
                             r#"if ({ident}_ptr != null) {{
+                    if ({ident}_ptr[0] == null) {ident}_ptr[0] = new {ty}();
                     {accesses}
+                }} else {{
+                    {in_out}.position({in_out}.position()+{size});
                 }}
                 "#
                         ));
-- 
2.43.0


From 77cb3811f7e2ad6441b045c7e8b4762cafbe3663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:05 +0000
Subject: [PATCH 20/31] fix: Rust: escape keywords in names of structs, fields
 and outputs

---
 idlc_codegen_rust/src/globals.rs                            | 6 +++---
 idlc_codegen_rust/src/interface/functions/implementation.rs | 2 +-
 idlc_codegen_rust/src/interface/functions/signature.rs      | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/idlc_codegen_rust/src/globals.rs b/idlc_codegen_rust/src/globals.rs
index 65ee441..cab1bbf 100644
--- a/idlc_codegen_rust/src/globals.rs
+++ b/idlc_codegen_rust/src/globals.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Const, StructInner};
 
-use crate::types::change_primitive;
+use crate::{ident::EscapedIdent, types::change_primitive};
 
 pub fn emit_struct(r#struct: &StructInner) -> String {
     let mut inner = String::new();
@@ -11,7 +11,7 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
     let mut contains_interface = false;
 
     for field in &r#struct.fields {
-        let ident = &field.ident;
+        let ident = EscapedIdent::new(&field.ident);
         let count = field.val.1.get();
         let ty = match &field.val.0 {
             &idlc_mir::Type::Primitive(primitive) => change_primitive(primitive).to_string(),
@@ -48,7 +48,7 @@ pub struct {ident} {{
 }}
 "#,
         derives = derives[..derives.len() - contains_interface as usize].join(","),
-        ident = r#struct.ident,
+        ident = EscapedIdent::new(&r#struct.ident),
     )
 }
 
diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index 25d2567..66ccf2c 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -286,7 +286,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ty: &str = &namespaced_struct(r#struct);
         let escaped_ident = EscapedIdent::new(ident);
         self.initializations.push(format!(
-            "let mut {ident} = std::mem::MaybeUninit::<{ty}>::uninit();\n"
+            "let mut {escaped_ident} = std::mem::MaybeUninit::<{ty}>::uninit();\n"
         ));
         self.args.output_buffers.push(format!(
             r#"{ARG} {{
diff --git a/idlc_codegen_rust/src/interface/functions/signature.rs b/idlc_codegen_rust/src/interface/functions/signature.rs
index f356eb5..2e89d47 100644
--- a/idlc_codegen_rust/src/interface/functions/signature.rs
+++ b/idlc_codegen_rust/src/interface/functions/signature.rs
@@ -32,7 +32,7 @@ pub fn iter_to_string(iter: impl Iterator<Item = impl AsRef<str>>) -> String {
 pub fn idents_to_struct_path(objects: &[Ident]) -> String {
     objects
         .iter()
-        .fold(String::new(), |acc, x| acc + "." + x.as_ref())
+        .fold(String::new(), |acc, x| acc + "." + &EscapedIdent::new(x).to_string())
 }
 
 impl Signature {
-- 
2.43.0


From a976fe9b0e177046317e17a7707552a5cf461cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:54 +0000
Subject: [PATCH 21/31] fix: Rust: locals of stubs and skeletons do not collide
 with parameters

---
 idlc_codegen_rust/src/interface/functions/invoke.rs | 4 ++--
 idlc_codegen_rust/src/interface/mod.rs              | 4 ++--
 idlc_codegen_rust/src/interface/variable_names.rs   | 6 ++++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index ca0fe97..b766cbc 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -338,7 +338,7 @@ pub fn emit(
     let args_slice = if n_args == 0 {
         String::new()
     } else {
-        format!("let args = std::slice::from_raw_parts_mut({ARGS}, {n_args});")
+        format!("let {ARGS} = std::slice::from_raw_parts_mut({ARGS}, {n_args});")
     };
 
     format!(
@@ -351,7 +351,7 @@ pub fn emit(
 
         {pre}
 
-        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut cx| cx.r#{ident}({params})) {{
+        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut {CONTEXT}| {CONTEXT}.r#{ident}({params})) {{
             Ok(({returns})) => {{
                 {post}
                 {OK}
diff --git a/idlc_codegen_rust/src/interface/mod.rs b/idlc_codegen_rust/src/interface/mod.rs
index ddfcd43..69e498e 100644
--- a/idlc_codegen_rust/src/interface/mod.rs
+++ b/idlc_codegen_rust/src/interface/mod.rs
@@ -139,10 +139,10 @@ pub fn emit(interface: &Interface) -> String {
         match op {{
             {invoke_arms}
             {OP_RELEASE} => {{
-                {WRAPPER}::release(cx)
+                {WRAPPER}::release({cx})
             }},
             {OP_RETAIN} => {{
-                {WRAPPER}::retain(cx)
+                {WRAPPER}::retain({cx})
             }},
             _ => {GENERIC_ERROR}::INVALID.into(),
         }}
diff --git a/idlc_codegen_rust/src/interface/variable_names.rs b/idlc_codegen_rust/src/interface/variable_names.rs
index 0994bb3..b7eef65 100644
--- a/idlc_codegen_rust/src/interface/variable_names.rs
+++ b/idlc_codegen_rust/src/interface/variable_names.rs
@@ -1,13 +1,15 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+/// Identifiers of the IDL do not begin with an underscore, so that the locals that are in scope of
+/// the parameters cannot collide with them.
 pub(super) mod invoke {
     pub const HANDLE: &str = "h";
     pub const OP_ID: &str = "op";
-    pub const ARGS: &str = "args";
+    pub const ARGS: &str = "_args";
     pub const COUNTS: &str = "counts";
     pub const MARKER: &str = "MARKER";
-    pub const CONTEXT: &str = "cx";
+    pub const CONTEXT: &str = "_cx";
 
     pub const BI_STRUCT: &str = "BI";
     pub const BO_STRUCT: &str = "BO";
-- 
2.43.0


From d1dfc5504b2cad768b422a6e7db5936da6c62349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 22/31] fix: C, C++: names of locals and macro parameters begin
 with an underscore

Parameters named like a local of the stub or skeleton (a, i, o, r,
result, func, prefix, type) no longer collide with it: no IDL
identifier begins with an underscore.
---
 .../src/interface/functions/implementation.rs | 12 ++++-----
 .../src/interface/functions/invoke.rs         | 26 +++++++++----------
 .../src/interface/functions/signature.rs      | 12 ++++-----
 idlc_codegen_c/src/interface/mod.rs           | 11 ++++----
 .../src/interface/variable_names.rs           |  4 ++-
 .../src/interface/functions/implementation.rs | 12 ++++-----
 .../src/interface/functions/invoke.rs         | 10 +++----
 .../src/interface/functions/signature.rs      | 12 ++++-----
 idlc_codegen_cpp/src/interface/mod.rs         |  3 ++-
 9 files changed, 53 insertions(+), 49 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index 5a303be..eb68f85 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -217,7 +217,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             );
             self.post_call.push(format!(
                 r#"
-    (*{ident}_ptr)[{i}] = (result == Object_OK) ? a[{idx}].o : Object_NULL;"#,
+    (*{ident}_ptr)[{i}] = (_result == Object_OK) ? {ARGS}[{idx}].o : Object_NULL;"#,
             ));
         }
     }
@@ -304,7 +304,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         }
         self.post_call.push(format!(
             r#"
-    {name} = (result == Object_OK) ? {ARGS}[{idx}].o : Object_NULL;"#
+    {name} = (_result == Object_OK) ? {ARGS}[{idx}].o : Object_NULL;"#
         ));
         self.args.output_objects.push(
             r#"
@@ -337,13 +337,13 @@ pub fn emit(
 
     if total > 0 {
         object_args = format!(
-            r#"ObjectArg a[] = {{{args}
+            r#"ObjectArg {ARGS}[] = {{{args}
     }};"#
         );
     }
 
     let returns = if total > 0 {
-        format!("Object_invoke(self, {iface_ident}_{OP}_{ident}, a, ObjectCounts_pack({0}, {1}, {2}, {3}));",
+        format!("Object_invoke(self, {iface_ident}_{OP}_{ident}, {ARGS}, ObjectCounts_pack({0}, {1}, {2}, {3}));",
         counts.input_buffers,
         counts.output_buffers,
         counts.input_objects,
@@ -366,9 +366,9 @@ static inline int32_t {current_iface_ident}_{ident}(Object self{params})
 static inline int32_t {current_iface_ident}_{ident}(Object self{params})
 {{
 {0}{1}{2}
-    int32_t result = {returns}
+    int32_t _result = {returns}
 {3}
-    return result;
+    return _result;
 }}
 "#,
         if !initializations.is_empty() {
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index b65dffd..cdb51ab 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -108,7 +108,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut objs = String::new();
         for _ in 0..cnt.into() {
             let idx = self.idx.input_object();
-            objs.push_str(&format!(r"a[{idx}].o,"));
+            objs.push_str(&format!(r"{ARGS}[{idx}].o,"));
         }
         self.pre.push(format!(
             r#" \
@@ -143,14 +143,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.args.push(format!("{ARGS}[{idx}].b.size != {size}"));
         self.pre.push(format!(
             r#" \
-                {CONST} {definition} *i = (const struct {BI}*){ARGS}[{idx}].b.ptr;"#
+                {CONST} {definition} *_i = (const struct {BI}*){ARGS}[{idx}].b.ptr;"#
         ));
         for (ident, ty) in packed_primitives.inputs_by_idents() {
             if let Type::SmallStruct(s) = ty {
                 if packed_primitives.is_input_misaligned() || ty.contains_interfaces() {
                     self.pre.push(format!(
                         r#" \
-                {ty} {ident}_ptr = i->m_{ident};"#,
+                {ty} {ident}_ptr = _i->m_{ident};"#,
                         ty = s.ident
                     ));
                 }
@@ -280,7 +280,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             let idx = self.idx.output_object();
             objs.push_str("Object_NULL, ");
             obj_assign.push_str(&format!(
-                r#"a[{idx}].o = {name}[{i}]; \
+                r#"{ARGS}[{idx}].o = {name}[{i}]; \
                 "#
             ))
         }
@@ -361,7 +361,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.args.push(format!("{ARGS}[{idx}].b.size != {size}"));
         self.pre.push(format!(
             r#" \
-                {definition} *o = (struct {BO}*){ARGS}[{idx}].b.ptr;"#
+                {definition} *_o = (struct {BO}*){ARGS}[{idx}].b.ptr;"#
         ));
         let mut copies = Vec::new();
         for (ident, ty) in packed_primitives.outputs_by_idents() {
@@ -372,11 +372,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 };
                 self.pre.push(format!(
                     r#" \
-                {ty} {ident}_ptr = o->m_{ident};"#
+                {ty} {ident}_ptr = _o->m_{ident};"#
                 ));
                 copies.push(format!(
                     r#" \
-                o->m_{ident} = {ident}_ptr;"#
+                _o->m_{ident} = {ident}_ptr;"#
                 ));
             }
         }
@@ -436,19 +436,19 @@ pub fn emit(
     let params = super::signature::iter_to_string(signature.params());
     let call = if function.is_optional() {
         weak_declarations.push_str(&format!(
-            r#"int32_t prefix##{ident}(type ctx{params}) __attribute__((weak)); \
+            r#"int32_t _prefix##{ident}(_type ctx{params}) __attribute__((weak)); \
         "#
         ));
         format!(
-            r"int32_t r; \
-                if (prefix##{ident} != NULL) {{ \
-                    r = prefix##{ident}(me{return_idents}); \
+            r"int32_t _r; \
+                if (_prefix##{ident} != NULL) {{ \
+                    _r = _prefix##{ident}(me{return_idents}); \
                 }} else {{ \
                     return Object_ERROR_INVALID; \
                 }} \"
         )
     } else {
-        format!(r"int32_t r = prefix##{ident}(me{return_idents}); \")
+        format!(r"int32_t _r = _prefix##{ident}(me{return_idents}); \")
     };
 
     let counts = format!(
@@ -465,7 +465,7 @@ pub fn emit(
                 {pre} \
                 {call}
                 {post} \
-                return r; \
+                return _r; \
             }} "#
     )
 }
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 2f1d241..41cc0bf 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -150,7 +150,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_inputs.len() > 1
         {
             self.outputs
-                .push((format!("i->m_{}", ident), change_primitive(ty).to_string()));
+                .push((format!("_i->m_{}", ident), change_primitive(ty).to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
@@ -165,7 +165,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_inputs.len() > 1
         {
             self.outputs
-                .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("&_i->m_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("&{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -185,7 +185,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_inputs.len() > 1
         {
             self.outputs
-                .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("&_i->m_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("&{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -277,7 +277,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.len() > 1
         {
             self.outputs
-                .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
+                .push((format!("&_o->m_{}", ident), change_primitive(ty).to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), change_primitive(ty).to_string()));
@@ -292,7 +292,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.len() > 1
         {
             self.outputs
-                .push((format!("&o->m_{}", ident), ty.ident.to_string()));
+                .push((format!("&_o->m_{}", ident), ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), ty.ident.to_string()));
@@ -309,7 +309,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.len() > 1
         {
             self.outputs
-                .push((format!("&o->m_{}", ident), ty.ident.to_string()));
+                .push((format!("&_o->m_{}", ident), ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), ty.ident.to_string()));
diff --git a/idlc_codegen_c/src/interface/mod.rs b/idlc_codegen_c/src/interface/mod.rs
index 5e00404..238e8e8 100644
--- a/idlc_codegen_c/src/interface/mod.rs
+++ b/idlc_codegen_c/src/interface/mod.rs
@@ -6,6 +6,7 @@ use idlc_mir::{Interface, InterfaceNode};
 pub mod functions;
 pub mod variable_names;
 
+use variable_names::invoke::ARGS;
 use crate::types::change_const_primitive;
 
 pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) -> String {
@@ -179,25 +180,25 @@ pub fn emit_interface_invoke(interface: &Interface, is_no_typed_objects: bool) -
 #define __compiler_pragma_post
 #endif
 
-#define {ident}_DEFINE_INVOKE(func, prefix, type) \
-    int32_t func(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) \
+#define {ident}_DEFINE_INVOKE(_func, _prefix, _type) \
+    int32_t _func(ObjectCxt h, ObjectOp op, ObjectArg *{ARGS}, ObjectCounts k) \
     {{ \
         __compiler_pragma_pre \
         {weak_declarations} \
         __compiler_pragma_post \
-        type me = (type) h; \
+        _type me = (_type) h; \
         switch (ObjectOp_methodID(op)) {{ \
             case Object_OP_release: {{ \
                 if (k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
                     break; \
                 }} \
-                return prefix##release(me); \
+                return _prefix##release(me); \
             }} \
             case Object_OP_retain: {{ \
                 if (k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
                     break; \
                 }} \
-                return prefix##retain(me); \
+                return _prefix##retain(me); \
             }} \
             {invokes} \
         }} \
diff --git a/idlc_codegen_c/src/interface/variable_names.rs b/idlc_codegen_c/src/interface/variable_names.rs
index 594985e..2809d97 100644
--- a/idlc_codegen_c/src/interface/variable_names.rs
+++ b/idlc_codegen_c/src/interface/variable_names.rs
@@ -1,9 +1,11 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+/// Identifiers of the IDL do not begin with an underscore, so that locals that do cannot collide with
+/// the parameters.
 pub mod invoke {
     pub const CONST: &str = "const";
-    pub const ARGS: &str = "a";
+    pub const ARGS: &str = "_a";
     pub const OBJECTBUF: &str = "ObjectBuf";
     pub const OBJECTBUFIN: &str = "ObjectBufIn";
     pub const OP: &str = "OP";
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index 02c020b..54b280d 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -162,7 +162,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.0.post_call.push(format!(
             r#"
     for(size_t arg_idx=0;arg_idx<{cnt};arg_idx++)
-        ({ident}_ref)[arg_idx] = {ty}(a[{idx}+arg_idx].o);"#,
+        ({ident}_ref)[arg_idx] = {ty}({ARGS}[{idx}+arg_idx].o);"#,
         ));
     }
 
@@ -286,14 +286,14 @@ pub fn emit(
     if total > 0 {
         object_args = format!(
             r#"
-        ObjectArg a[] = {{{args}
+        ObjectArg {ARGS}[] = {{{args}
         }};"#
         );
     }
 
     let returns = if total > 0 {
         format!(
-            "invoke({OP}_{ident}, a, ObjectCounts_pack({0}, {1}, {2}, {3}));",
+            "invoke({OP}_{ident}, {ARGS}, ObjectCounts_pack({0}, {1}, {2}, {3}));",
             counts.input_buffers,
             counts.output_buffers,
             counts.input_objects,
@@ -308,10 +308,10 @@ pub fn emit(
 {documentation}
     virtual int32_t {ident}({params}) {{
 {0}{1}{2}
-        int32_t result = {returns}
-        if (Object_OK != result) {{ return result; }}
+        int32_t _result = {returns}
+        if (Object_OK != _result) {{ return _result; }}
 {post_call_assignments}
-        return result;
+        return _result;
     }}
 "#,
         if !initializations.is_empty() {
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index ac86b7e..4eb5f88 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -41,7 +41,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut obj_args = String::new();
         for _ in 0..cnt.into() {
             let idx = self.0.idx.input_object();
-            obj_args.push_str(&format!(r"{ty}(a[{idx}].o),"));
+            obj_args.push_str(&format!(r"{ty}({ARGS}[{idx}].o),"));
         }
         self.0.pre.push(format!(
             r#" \
@@ -108,7 +108,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             let idx = self.0.idx.output_object();
             obj_assign.push_str(&format!(
                 r#"
-                if (r == Object_OK) {{ {ARGS}[{idx}].o=p_{ident}[{i}].extract(); }}"#
+                if (_r == Object_OK) {{ {ARGS}[{idx}].o=p_{ident}[{i}].extract(); }}"#
             ));
         }
         self.0.pre.push(format!(
@@ -183,7 +183,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ));
         self.0.post.push(format!(
             r#" \
-                if (r == Object_OK) {{ {ARGS}[{idx}].o = p_{ident}.extract(); }}"#
+                if (_r == Object_OK) {{ {ARGS}[{idx}].o = p_{ident}.extract(); }}"#
         ));
     }
 }
@@ -235,9 +235,9 @@ pub fn emit(
                     break;
                 }}
 {pre}
-                int32_t r = {ident}({return_idents});
+                int32_t _r = this->{ident}({return_idents});
 {post}
-                return r;
+                return _r;
             }}"#
     )
 }
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index d0781a0..b25b92e 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -114,7 +114,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("{}_val", ident), change_primitive(ty).to_string()));
         if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("i->m_{}", ident), change_primitive(ty).to_string()));
+                .push((format!("_i->m_{}", ident), change_primitive(ty).to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
@@ -126,7 +126,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
         if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("_i->m_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -143,7 +143,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
                 .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
         } else if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("_i->m_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -227,7 +227,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
                 .push((format!("&{}_ptr", ident), change_primitive(ty).to_string()));
         } else if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
+                .push((format!("&_o->m_{}", ident), change_primitive(ty).to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), change_primitive(ty).to_string()));
@@ -239,7 +239,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("o->m_{}", ident), ty.ident.to_string()));
+                .push((format!("_o->m_{}", ident), ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), ty.ident.to_string()));
@@ -253,7 +253,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
                 .push((format!("{}_ptr", ident), ty.ident.to_string()));
         } else if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("o->m_{}", ident), ty.ident.to_string()));
+                .push((format!("_o->m_{}", ident), ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), ty.ident.to_string()));
diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index b836887..3b25180 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -5,6 +5,7 @@ use idlc_mir::{Interface, InterfaceNode};
 
 mod functions;
 
+use idlc_codegen_c::interface::variable_names::invoke::ARGS;
 use idlc_codegen_c::types::{change_const_primitive, change_primitive};
 
 pub fn emit_interface_impl(interface: &Interface) -> String {
@@ -183,7 +184,7 @@ class {ident}ImplBase : protected ImplBase, public I{ident} {{
     virtual ~{ident}ImplBase() {{}}
 {weak_declarations}
   protected:
-    virtual int32_t invoke(ObjectOp op, ObjectArg* a, ObjectCounts k) {{
+    virtual int32_t invoke(ObjectOp op, ObjectArg* {ARGS}, ObjectCounts k) {{
         switch (ObjectOp_methodID(op)) {{
 {invokes}
             default: {{ return Object_ERROR_INVALID; }}
-- 
2.43.0


From 70eddb0cdb5927a58e0e9a73e41f4144fb386f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 23/31] fix: Java: loop variables do not collide with a
 parameter named i

---
 .../src/interface/functions/implementation.rs      | 14 +++++++-------
 .../src/interface/functions/invoke.rs              |  8 ++++----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/idlc_codegen_java/src/interface/functions/implementation.rs b/idlc_codegen_java/src/interface/functions/implementation.rs
index 8f14375..6a3a588 100644
--- a/idlc_codegen_java/src/interface/functions/implementation.rs
+++ b/idlc_codegen_java/src/interface/functions/implementation.rs
@@ -149,8 +149,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let name = format!("{}_val", ident);
         self.obj_arr_in = true;
         self.initializations.push(format!(
-            r#" for (int i=0; i<{name}.length; i++) {{
-                {OI}[i] = {name}[i];
+            r#" for (int _i=0; _i<{name}.length; _i++) {{
+                {OI}[_i] = {name}[_i];
             }}
             "#,
         ));
@@ -266,7 +266,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
 
-        let buffer_in = walk_struct(ty, &format!("{name}[0][i]"), &|field, suffix| {
+        let buffer_in = walk_struct(ty, &format!("{name}[0][_i]"), &|field, suffix| {
             format!(
                 r#"{field} = buffer_{name}.get{suffix}();
                     "#
@@ -283,8 +283,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 int {ident}_lenout = Math.min({BO}[{bo_idx}].length/{sz}, {ident}_len);
                 {name}[0] = new {ty}[{ident}_lenout];
                 {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-                for (int i=0;i<{ident}_lenout;i++) {{
-                    {name}[0][i] = new {ty}();
+                for (int _i=0;_i<{ident}_lenout;_i++) {{
+                    {name}[0][_i] = new {ty}();
                     {buffer_in}
                 }}
             }}
@@ -303,8 +303,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.post_call.push(format!(
             r#"if({name} != null) {{
                 if ({name}[0] == null) {name}[0] = new IMinkObject[{cnt}];
-                for (int i=0;i<{cnt};i++) {{
-                    {name}[0][i] = {OO}[i];
+                for (int _i=0;_i<{cnt};_i++) {{
+                    {name}[0][_i] = {OO}[_i];
                 }}
             }}
             "#,
diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index cfd3450..0d50c79 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -127,8 +127,8 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     ) {
         self.pre.push(format!(
             r#"IMinkObject[] {ident}_val = new IMinkObject[{OI}.length];
-                    for (int i=0;i<{OI}.length;i++) {{
-                        {ident}_val[i] = {OI}[i];
+                    for (int _i=0;_i<{OI}.length;_i++) {{
+                        {ident}_val[_i] = {OI}[_i];
                     }}
                     "#
         ));
@@ -286,8 +286,8 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                     "#,
         ));
         self.post.push(format!(
-            r#"for (int i=0;i<{cnt};i++) {{
-                        oo[i] = {ident}[0][i];
+            r#"for (int _i=0;_i<{cnt};_i++) {{
+                        oo[_i] = {ident}[0][_i];
                     }}
                     "#
         ));
-- 
2.43.0


From 2916b1550b3790b5b789ae57cf4100277de3d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:33 +0000
Subject: [PATCH 24/31] fix: C: a parameter named me does not replace the
 context of a skeleton

---
 idlc_codegen_c/src/interface/functions/invoke.rs | 4 ++--
 idlc_codegen_c/src/interface/mod.rs              | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index cdb51ab..1994541 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -442,13 +442,13 @@ pub fn emit(
         format!(
             r"int32_t _r; \
                 if (_prefix##{ident} != NULL) {{ \
-                    _r = _prefix##{ident}(me{return_idents}); \
+                    _r = _prefix##{ident}(_me{return_idents}); \
                 }} else {{ \
                     return Object_ERROR_INVALID; \
                 }} \"
         )
     } else {
-        format!(r"int32_t _r = _prefix##{ident}(me{return_idents}); \")
+        format!(r"int32_t _r = _prefix##{ident}(_me{return_idents}); \")
     };
 
     let counts = format!(
diff --git a/idlc_codegen_c/src/interface/mod.rs b/idlc_codegen_c/src/interface/mod.rs
index 238e8e8..4ae8f8e 100644
--- a/idlc_codegen_c/src/interface/mod.rs
+++ b/idlc_codegen_c/src/interface/mod.rs
@@ -186,19 +186,19 @@ pub fn emit_interface_invoke(interface: &Interface, is_no_typed_objects: bool) -
         __compiler_pragma_pre \
         {weak_declarations} \
         __compiler_pragma_post \
-        _type me = (_type) h; \
+        _type _me = (_type) h; \
         switch (ObjectOp_methodID(op)) {{ \
             case Object_OP_release: {{ \
                 if (k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
                     break; \
                 }} \
-                return _prefix##release(me); \
+                return _prefix##release(_me); \
             }} \
             case Object_OP_retain: {{ \
                 if (k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
                     break; \
                 }} \
-                return _prefix##retain(me); \
+                return _prefix##retain(_me); \
             }} \
             {invokes} \
         }} \
-- 
2.43.0


From 74a5364e95f820ca918307bbd7cdd063fdf976d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 25/31] fix: Rust: escape keywords in paths to objects of
 bundled structs

---
 .../src/interface/functions/implementation.rs              | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index 66ccf2c..e8be4f5 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -135,10 +135,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         ));
         for (ident, path, _) in packed_primitives.input_objects() {
             let ident = EscapedIdent::new(ident);
+            let path = path.replace('.', ".r#");
             self.args.input_objects.push(format!(
-                r#"{ARG} {{
-                o: unsafe {{ std::mem::transmute_copy(&{ident}.{path}) }}
-            }}"#
+                r##"{ARG} {{
+                o: unsafe {{ std::mem::transmute_copy(&{ident}.r#{path}) }}
+            }}"##
             ));
         }
     }
-- 
2.43.0


From 545cc54cb47fd51e24f3f79ae34685cd5965551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 26/31] fix: Java: elements of arrays of structs do not collide
 with a parameter named i

---
 idlc_codegen_java/src/interface/functions/implementation.rs | 4 ++--
 idlc_codegen_java/src/interface/functions/invoke.rs         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/idlc_codegen_java/src/interface/functions/implementation.rs b/idlc_codegen_java/src/interface/functions/implementation.rs
index 6a3a588..90117ec 100644
--- a/idlc_codegen_java/src/interface/functions/implementation.rs
+++ b/idlc_codegen_java/src/interface/functions/implementation.rs
@@ -119,7 +119,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let name = format!("{}_val", ident);
         let sz = ty.size();
 
-        let buffer_in = walk_struct(ty, "i", &|field, suffix| {
+        let buffer_in = walk_struct(ty, "_i", &|field, suffix| {
             format!(
                 r#"buffer_{name}.put{suffix}({field});
                     "#
@@ -129,7 +129,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.initializations.push(format!(
             r#"if({name} != null) {{
                 {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
-                for ({0} i : {name}) {{
+                for ({0} _i : {name}) {{
                     {buffer_in}
                 }}
                 {BI}[{bi_idx}] = buffer_{name}.array();
diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index 0d50c79..b053f07 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -248,7 +248,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
 
-        let buffer_in = walk_struct(ty, "i", &|field, suffix| {
+        let buffer_in = walk_struct(ty, "_i", &|field, suffix| {
             format!(
                 r#"buffer_{ident}.put{suffix}({field});
                     "#
@@ -265,7 +265,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.post.push(format!(
             r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}[0].length*{sz}).order({BYTE_ORDER});
-                    for ({ty} i : {ident}[0]) {{
+                    for ({ty} _i : {ident}[0]) {{
                         {buffer_in}
                     }}
                     {BO}[{bo_idx}] = buffer_{ident}.array();
-- 
2.43.0


From d99d666e777dce747e8775ce07dbb3fab2fd30c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 27/31] fix: C, C++: bundles of stubs do not collide with
 parameters named i or o

---
 .../src/interface/functions/implementation.rs          | 10 +++++-----
 .../src/interface/functions/serialization.rs           |  8 ++++----
 .../src/interface/functions/implementation.rs          | 10 +++++-----
 .../src/interface/functions/serialization.rs           |  8 ++++----
 4 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index eb68f85..90938d7 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -103,14 +103,14 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             unreachable!()
         };
         self.initializations.push(format!(
-            r#"{definition} i;
+            r#"{definition} _i;
 {0}"#,
             packer.bi_assignments(),
         ));
         for (ident, path, ty) in packed_primitives.input_objects() {
             self.initializations.push(format!(
                 r#"
-    i.m_{ident}.{path} = Object_NULL;"#
+    _i.m_{ident}.{path} = Object_NULL;"#
             ));
             self.visit_input_object(
                 &Ident::new(format!("{ident}_ptr->{path}"), ident.span),
@@ -119,7 +119,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         }
         self.args.input_buffers.push(format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{ &i, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{ &_i, {size} }} }},"#
         ));
     }
 
@@ -247,13 +247,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
         self.initializations.push(format!(
             r#"
-    {definition} o = {{{initialization}}};
+    {definition} _o = {{{initialization}}};
 "#
         ));
         self.post_call.push(packer.post_bo_assignments());
         self.args.output_buffers.push(format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{  &o, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{  &_o, {size} }} }},"#
         ));
         for (ident, path, ty) in packed_primitives.output_objects() {
             self.visit_output_object(
diff --git a/idlc_codegen_c/src/interface/functions/serialization.rs b/idlc_codegen_c/src/interface/functions/serialization.rs
index b7c4630..a420e80 100644
--- a/idlc_codegen_c/src/interface/functions/serialization.rs
+++ b/idlc_codegen_c/src/interface/functions/serialization.rs
@@ -41,13 +41,13 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = {ident}_val;"#
+    _i.m_{ident} = {ident}_val;"#
                 );
             }
             Type::SmallStruct(_s) => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = *{ident}_ptr;"#
+    _i.m_{ident} = *{ident}_ptr;"#
                 );
             }
         });
@@ -71,13 +71,13 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r"
-    *{ident}_ptr = o.m_{ident};"
+    *{ident}_ptr = _o.m_{ident};"
                 );
             }
             Type::SmallStruct(_) => {
                 assignments += &format!(
                     r"
-    *{ident}_ptr = o.m_{ident};"
+    *{ident}_ptr = _o.m_{ident};"
                 );
             }
         });
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index 54b280d..dbbec4d 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -56,13 +56,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             unreachable!()
         };
         self.0.initializations.push(format!(
-            r#"{definition} i;{0}"#,
+            r#"{definition} _i;{0}"#,
             packer.bi_assignments(),
         ));
         for (ident, path, ty) in packed_primitives.input_objects() {
             self.0.initializations.push(format!(
                 r#"
-    i.m_{ident}.{path} = Object_NULL;"#
+    _i.m_{ident}.{path} = Object_NULL;"#
             ));
             self.visit_input_object(
                 &Ident::new(format!("{ident}_ref.{path}"), ident.span),
@@ -71,7 +71,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         }
         self.0.args.input_buffers.push(format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{ &i, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{ &_i, {size} }} }},"#
         ));
     }
 
@@ -186,11 +186,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
         self.0.initializations.push(format!(
             r#"
-    {definition} o = {{{initialization}}};"#
+    {definition} _o = {{{initialization}}};"#
         ));
         self.0.args.output_buffers.push(format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{  &o, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{  &_o, {size} }} }},"#
         ));
         self.0.post_call.push(packer.post_bo_assignments());
         for (ident, path, ty) in packed_primitives.output_objects() {
diff --git a/idlc_codegen_cpp/src/interface/functions/serialization.rs b/idlc_codegen_cpp/src/interface/functions/serialization.rs
index abde3ab..8faa7e9 100644
--- a/idlc_codegen_cpp/src/interface/functions/serialization.rs
+++ b/idlc_codegen_cpp/src/interface/functions/serialization.rs
@@ -41,13 +41,13 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = {ident}_val;"#
+    _i.m_{ident} = {ident}_val;"#
                 );
             }
             Type::SmallStruct(_s) => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = {ident}_ref;"#
+    _i.m_{ident} = {ident}_ref;"#
                 );
             }
         });
@@ -71,13 +71,13 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r#"
-    *{ident}_ptr = o.m_{ident};"#
+    *{ident}_ptr = _o.m_{ident};"#
                 );
             }
             Type::SmallStruct(_) => {
                 assignments += &format!(
                     r#"
-    {ident}_ref = o.m_{ident};"#
+    {ident}_ref = _o.m_{ident};"#
                 );
             }
         });
-- 
2.43.0


From 927a549ee842ebf5f70edecd754988c9125209e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 28/31] fix: C, C++: names of object locals of skeletons cannot
 be those of parameters

---
 idlc_codegen_c/src/interface/functions/invoke.rs     |  2 +-
 idlc_codegen_cpp/src/interface/functions/invoke.rs   | 12 ++++++------
 .../src/interface/functions/signature.rs             |  6 +++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index 1994541..fa17e9d 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -436,7 +436,7 @@ pub fn emit(
     let params = super::signature::iter_to_string(signature.params());
     let call = if function.is_optional() {
         weak_declarations.push_str(&format!(
-            r#"int32_t _prefix##{ident}(_type ctx{params}) __attribute__((weak)); \
+            r#"int32_t _prefix##{ident}(_type _ctx{params}) __attribute__((weak)); \
         "#
         ));
         format!(
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index 4eb5f88..8038c9d 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -76,11 +76,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = ty.unwrap_or("ProxyBase").to_string();
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident}({ARGS}[{idx}].o);"#
+                {ty} _p_{ident}({ARGS}[{idx}].o);"#
         ));
         self.0.post.push(format!(
             r#" \
-                p_{ident}.extract();"#
+                _p_{ident}.extract();"#
         ));
     }
 
@@ -108,12 +108,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             let idx = self.0.idx.output_object();
             obj_assign.push_str(&format!(
                 r#"
-                if (_r == Object_OK) {{ {ARGS}[{idx}].o=p_{ident}[{i}].extract(); }}"#
+                if (_r == Object_OK) {{ {ARGS}[{idx}].o=_p_{ident}[{i}].extract(); }}"#
             ));
         }
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident}[{cnt}];"#
+                {ty} _p_{ident}[{cnt}];"#
         ));
         self.0.post.push(format!(
             r#" \
@@ -179,11 +179,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = ty.unwrap_or("ProxyBase").to_string();
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident};"#
+                {ty} _p_{ident};"#
         ));
         self.0.post.push(format!(
             r#" \
-                if (_r == Object_OK) {{ {ARGS}[{idx}].o = p_{ident}.extract(); }}"#
+                if (_r == Object_OK) {{ {ARGS}[{idx}].o = _p_{ident}.extract(); }}"#
         ));
     }
 }
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index b25b92e..e215f29 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -159,7 +159,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             format!("{CONST} {}", ty.unwrap_or("ProxyBase")),
         ));
         self.outputs
-            .push((format!("p_{}", ident), ty.unwrap_or("Object").to_string()));
+            .push((format!("_p_{}", ident), ty.unwrap_or("Object").to_string()));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
@@ -216,7 +216,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((name, ty));
         self.output_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("p_{}", ident), "size_t".to_string()));
+            .push((format!("_p_{}", ident), "size_t".to_string()));
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
@@ -264,6 +264,6 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs
             .push((format!("&{}", ident), ty.unwrap_or("ProxyBase").to_string()));
         self.outputs
-            .push((format!("p_{}", ident), ty.unwrap_or("Object").to_string()));
+            .push((format!("_p_{}", ident), ty.unwrap_or("Object").to_string()));
     }
 }
-- 
2.43.0


From f223677d639eabc86950be674efd4447077d236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 29/31] fix: C: arrays of input objects stay const with
 --no-typed-objects

---
 idlc_codegen_c/src/interface/functions/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 41cc0bf..856aa2a 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -132,7 +132,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(*{}_ptr)[{cnt}]", ident);
         let ty = if self.is_no_typed_objects {
-            "Object".to_string()
+            format!("{CONST} Object")
         } else {
             format!("{CONST} {}", ty.unwrap_or("Object"))
         };
-- 
2.43.0


From 1a24d2ea8f995d602eac38ec2fdaa6b4894e33f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:11 +0000
Subject: [PATCH 30/31] fix: Java: skeletons report arguments of the wrong size
 as invalid

Leaving the switch told the caller that the method had succeeded.
---
 idlc_codegen_java/src/interface/functions/invoke.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index b053f07..76f5b18 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -142,7 +142,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {sz}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
                     {ty} {ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).get{capitalized_ty}();
                     "#
@@ -160,7 +160,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bi_idx = self.bi_idx();
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {size}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
                     {BYTE_BUFFER} {BUNDLE_IN} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
                     {definition}
@@ -181,7 +181,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = ty.ident.to_string();
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {sz}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
                     {ty} {ident} = new {ty}();
                     {BYTE_BUFFER} {BUNDLE_IN}{bi_idx} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
@@ -308,7 +308,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
                     {ty}[] {ident} = {{new {ty}()}};
                     "#,
@@ -333,7 +333,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
                     {ty}[] {ident} = new {ty}[1];
                     "#,
@@ -359,7 +359,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"if (boSizes[{bo_sz_idx}] != {size}) {{
-                        break;
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
                     }}
                     {bo_assignments}
                     "#,
-- 
2.43.0


From 31c17ecf584c2240980ea533bb2d6760f35290a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:11 +0000
Subject: [PATCH 31/31] fix: Java: skeletons refuse invocations with other
 argument counts

---
 .../src/interface/functions/invoke.rs         | 21 +++++++++++++++++++
 idlc_codegen_java/src/interface/mod.rs        |  8 ++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index 76f5b18..7c874e3 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -386,13 +386,31 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 }
 
+/// Condition under which an array doesn't have `count` arguments. There may be
+/// no array at all if no arguments are expected.
+fn differs(array: &str, count: u8) -> String {
+    if count == 0 {
+        format!("({array} != null && {array}.length != 0)")
+    } else {
+        format!("{array} == null || {array}.length != {count}")
+    }
+}
+
 pub fn emit(
     function: &idlc_mir::Function,
     current_iface_ident: &str,
     iface_ident: &str,
+    counts: &idlc_codegen::counts::Counter,
     signature: &super::signature::Signature,
 ) -> String {
     let ident = &function.ident;
+    let wrong_counts = [
+        differs(BI, counts.input_buffers),
+        differs("boSizes", counts.output_buffers),
+        differs(OI, counts.input_objects),
+        differs(OO, counts.output_objects),
+    ]
+    .join(" || ");
 
     let invokes = Invoke::new(function);
     let pre = invokes.pre();
@@ -402,6 +420,9 @@ pub fn emit(
 
     format!(
         r#"case {iface_ident}_{OP_ID}_{ident}: {{
+                    if ({wrong_counts}) {{
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
+                    }}
                     {pre}
                     (({current_iface_ident})mObj).{ident}({returns});
                     {post}
diff --git a/idlc_codegen_java/src/interface/mod.rs b/idlc_codegen_java/src/interface/mod.rs
index ea30fcd..baca039 100644
--- a/idlc_codegen_java/src/interface/mod.rs
+++ b/idlc_codegen_java/src/interface/mod.rs
@@ -59,7 +59,13 @@ pub fn emit_interface(interface: &Interface, input_name: &str) -> String {
                     &counts,
                     &signature,
                 ));
-                invokes.push_str(&functions::invoke::emit(f, ident, &iface.ident, &signature));
+                invokes.push_str(&functions::invoke::emit(
+                    f,
+                    ident,
+                    &iface.ident,
+                    &counts,
+                    &signature,
+                ));
                 traits.push_str(&functions::traits::emit(f, &documentation, &signature));
             }
         });
-- 
2.43.0

