From 93cadcff90c609921631d846756dca3b01f82df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:01 +0000
Subject: [PATCH 01/38] fix: report invalid tags in a script cache as errors
 instead of panicking

---
 core/src/bundle.rs     |  3 ++-
 core/src/definition.rs | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/src/bundle.rs b/core/src/bundle.rs
index e8e1130..1b8dc33 100644
--- a/core/src/bundle.rs
+++ b/core/src/bundle.rs
@@ -575,7 +575,8 @@ pub enum DefinitionType {
 
 impl Decode for DefinitionType {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
-        Ok(DefinitionType::from_bytes(input.decode()?).expect("Invalid DefinitionType enum value"))
+        DefinitionType::from_bytes(input.decode()?)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Invalid DefinitionType enum value"))
     }
 }
 
diff --git a/core/src/definition.rs b/core/src/definition.rs
index 9e9be69..f996c17 100644
--- a/core/src/definition.rs
+++ b/core/src/definition.rs
@@ -38,7 +38,9 @@ impl Definition {
             DefinitionType::Class => AnyDefinition::Class(input.decode()?),
             DefinitionType::EnumValue => AnyDefinition::EnumValue(input.decode()?),
             DefinitionType::Enum => AnyDefinition::Enum(input.decode()?),
-            DefinitionType::BitField => panic!("Bit field not supported"),
+            DefinitionType::BitField => {
+                return Err(io::Error::new(io::ErrorKind::InvalidData, "Bit field not supported"));
+            }
             DefinitionType::Function => AnyDefinition::Function(input.decode()?),
             DefinitionType::Parameter => AnyDefinition::Parameter(input.decode()?),
             DefinitionType::Local => AnyDefinition::Local(input.decode()?),
@@ -485,7 +487,10 @@ impl Decode for Type {
             4 => Ok(Type::Array(input.decode()?)),
             5 => Ok(Type::StaticArray(input.decode()?, input.decode()?)),
             6 => Ok(Type::ScriptRef(input.decode()?)),
-            _ => panic!("Unknown Type enum value {}", tag),
+            _ => Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                format!("Unknown Type enum value {tag}"),
+            )),
         }
     }
 }
@@ -761,7 +766,8 @@ impl Display for Visibility {
 
 impl Decode for Visibility {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
-        Ok(Visibility::from_bytes(input.decode()?).expect("Invalid Visibility enum value"))
+        Visibility::from_bytes(input.decode()?)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Invalid Visibility enum value"))
     }
 }
 
-- 
2.43.0


From 2d8aa300897ef80b6fe9382a6eb630f70d768309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:21 +0000
Subject: [PATCH 02/38] fix: do not pre-allocate unbounded memory for counts
 read from a script cache

---
 core/src/decode.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/src/decode.rs b/core/src/decode.rs
index 8573c78..83889f1 100644
--- a/core/src/decode.rs
+++ b/core/src/decode.rs
@@ -1,4 +1,4 @@
-use std::io;
+use std::io::{self, Read};
 
 use byteorder::{LittleEndian, ReadBytesExt};
 
@@ -106,6 +106,8 @@ impl<const N: usize> Decode for [u8; N] {
     }
 }
 
+const MAX_PREALLOCATED_COUNT: usize = 1 << 16;
+
 pub trait DecodeExt: io::Read + Sized {
     #[inline]
     fn decode<A: Decode>(&mut self) -> io::Result<A> {
@@ -114,7 +116,8 @@ pub trait DecodeExt: io::Read + Sized {
 
     fn decode_vec<S: Into<u32>, A: Decode>(&mut self, count: S) -> io::Result<Vec<A>> {
         let size = count.into() as usize;
-        let mut vec = Vec::with_capacity(size);
+        // the count comes from the input, it must not be trusted with an allocation of arbitrary size
+        let mut vec = Vec::with_capacity(size.min(MAX_PREALLOCATED_COUNT));
         for _ in 0..size {
             vec.push(self.decode()?);
         }
@@ -128,8 +131,11 @@ pub trait DecodeExt: io::Read + Sized {
 
     fn decode_bytes<S: Into<u32>>(&mut self, count: S) -> io::Result<Vec<u8>> {
         let size = count.into() as usize;
-        let mut vec = vec![0; size];
-        self.read_exact(&mut vec)?;
+        let mut vec = Vec::with_capacity(size.min(MAX_PREALLOCATED_COUNT));
+        self.by_ref().take(size as u64).read_to_end(&mut vec)?;
+        if vec.len() < size {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
         Ok(vec)
     }
 
-- 
2.43.0


From e788f7ccf52b4dcbefb9876d6727e5c3e71e2a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:18 +0000
Subject: [PATCH 03/38] fix: resume decompilation at the end of a loop whose
 body ends early

---
 decompiler/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 1da9c57..8125add 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -126,6 +126,8 @@ impl<'a> Decompiler<'a> {
         let result = if is_loop {
             let block = BlockContext::new_loop(position, target);
             let body = self.consume_path(target, Some(block))?;
+            // the body might have ended early with a break or a return
+            self.code.seek_abs(target)?;
             Expr::While(condition.into(), body, Span::ZERO)
         } else {
             let mut body = self.consume_path(target, block)?;
-- 
2.43.0


From 20f90ea5e3846019174c40c15535c63a4a3d731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:10 +0000
Subject: [PATCH 04/38] fix: find the end of a switch from its label chain or
 from any of its cases when decompiling

A break nested in the last case, or in a case other than the first, was taken for a jump of
an if/else, which duplicated or misplaced the statements after it. Also resume at the end of
an else branch that ends early.
---
 decompiler/src/lib.rs | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 8125add..35616ad 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -134,6 +134,10 @@ impl<'a> Decompiler<'a> {
             self.code.seek_abs(target)?;
             if let Some(jump) = resolve_jump(&mut body) {
                 let else_case = self.consume_path(jump.position, block)?;
+                // the branch might have ended early with a break or a return
+                if self.code.pos() < jump.position {
+                    self.code.seek_abs(jump.position)?;
+                }
                 Expr::If(condition.into(), body, Some(else_case), Span::ZERO)
             } else {
                 Expr::If(condition.into(), body, None, Span::ZERO)
@@ -158,9 +162,22 @@ impl<'a> Decompiler<'a> {
         };
         labels.sort_by_key(|(_, start)| *start);
 
+        // without a default case the label chain leads to the end of the switch, otherwise any jump
+        // from one of the cases past the last one has to lead there
+        let chain_end = self.code.pos();
+        let last_case = labels.last().map_or(chain_end, |(_, start)| *start);
+        let epilogue = if self.code.peek() != Some(Instr::SwitchDefault) && chain_end >= last_case {
+            Some(chain_end)
+        } else {
+            self.code.range(start, last_case)?.find_map(|(loc, i)| match i {
+                Instr::Jump(offset) if offset.absolute(loc) > last_case => Some(offset.absolute(loc)),
+                _ => None,
+            })
+        };
+        let block = epilogue.map(BlockContext::new_switch);
+
         let mut default = None;
         let mut cases = Vec::new();
-        let mut block = None;
         for (label, start_position) in labels {
             self.code.seek_abs(label)?;
 
@@ -169,15 +186,6 @@ impl<'a> Decompiler<'a> {
                     let exit = exit_offset.absolute(label);
                     let matcher = self.consume()?;
 
-                    if block.is_none() && exit > start_position {
-                        if let Some(epilogue) = self.code.range(start_position, exit)?.find_map(|(loc, i)| match i {
-                            Instr::Jump(offset) if offset.absolute(loc) > exit => Some(offset.absolute(loc)),
-                            _ => None,
-                        }) {
-                            block = Some(BlockContext::new_switch(epilogue));
-                        }
-                    }
-
                     self.code.seek_abs(start_position)?;
                     let mut body = self.consume_path(exit, block)?;
 
@@ -188,16 +196,20 @@ impl<'a> Decompiler<'a> {
                     cases.push(SwitchCase { matcher, body });
                 }
                 Instr::SwitchDefault => {
-                    if let Some(BlockContext::Switch { epilogue }) = block {
-                        default = Some(self.consume_path(epilogue, block)?);
+                    default = Some(if let Some(epilogue) = epilogue {
+                        self.consume_path(epilogue, block)?
                     } else {
-                        default = Some(Seq::new(vec![self.consume_with(None, block)?]));
-                    }
+                        Seq::new(vec![self.consume_with(None, block)?])
+                    });
                 }
                 _ => return Err(Error::DecompileError("Unexpected switch label instruction")),
             }
         }
 
+        if let Some(epilogue) = epilogue {
+            self.code.seek_abs(epilogue)?;
+        }
+
         Ok(Expr::Switch(Box::new(subject), cases, default, Span::ZERO))
     }
 
-- 
2.43.0


From 4ed6b5f163fff1d05a01fd3c063b497b99d6cb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:48 +0000
Subject: [PATCH 05/38] fix: decompile a direct call of an overridden method on
 an explicit this as a super call

---
 decompiler/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 35616ad..a70546d 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -305,7 +305,12 @@ impl<'a> Decompiler<'a> {
                 let fun = self.pool.function(idx)?;
                 let name = Ident::from_heap(self.pool.names.get(def.name)?);
                 let params = self.consume_params()?;
-                if let Some(ctx) = context {
+                let is_super = !fun.flags.is_static()
+                    && self.definition.name == def.name
+                    && self.definition.parent != def.parent;
+                if is_super && matches!(context, None | Some(Expr::This(_))) {
+                    Expr::MethodCall(Box::new(Expr::Super(Span::ZERO)), name, params, Span::ZERO)
+                } else if let Some(ctx) = context {
                     Expr::MethodCall(Box::new(ctx), name, params, Span::ZERO)
                 } else if fun.flags.is_static() {
                     if def.parent.is_undefined() {
@@ -324,12 +329,7 @@ impl<'a> Decompiler<'a> {
                         Expr::MethodCall(expr, name, params, Span::ZERO)
                     }
                 } else {
-                    let ctx = if self.definition.name == def.name && self.definition.parent != def.parent {
-                        Expr::Super(Span::ZERO)
-                    } else {
-                        Expr::This(Span::ZERO)
-                    };
-                    Expr::MethodCall(Box::new(ctx), name, params, Span::ZERO)
+                    Expr::MethodCall(Box::new(Expr::This(Span::ZERO)), name, params, Span::ZERO)
                 }
                 // if let AnyDefinition::Function(ref fun) = def.value {
                 // assert_eq!(fun.parameters.len(), params.len(), "Invalid number of parameters {:?}", params);
-- 
2.43.0


From a97c8d8f047a8ec479ff4de4835d0f7efbf623fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:04 +0000
Subject: [PATCH 06/38] fix: print unsigned 64-bit constants with their own
 suffix

---
 decompiler/src/print.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index ef3f9b2..1bd0223 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -259,7 +259,7 @@ fn write_expr_nested<W: Write>(
             Constant::I32(lit) => write!(out, "{}", lit)?,
             Constant::I64(lit) => write!(out, "{}l", lit)?,
             Constant::U32(lit) => write!(out, "{}u", lit)?,
-            Constant::U64(lit) => write!(out, "{}u", lit)?,
+            Constant::U64(lit) => write!(out, "{}ul", lit)?,
             Constant::F32(lit) => write!(out, "{:.2}", lit)?,
             Constant::F64(lit) => write!(out, "{:.2}d", lit)?,
             Constant::Bool(true) => write!(out, "true")?,
-- 
2.43.0


From cb4caf820cc1f2e6f44f982f2af06721d1cac8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:04 +0000
Subject: [PATCH 07/38] fix: escape the strings of printed runtime properties

---
 decompiler/src/print.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 1bd0223..324dccc 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -155,7 +155,12 @@ pub fn write_definition<W: Write>(
             writeln!(out)?;
             for property in &field.attributes {
                 write_indent(out, depth)?;
-                writeln!(out, "@runtimeProperty(\"{}\", \"{}\")", property.name, property.value)?;
+                writeln!(
+                    out,
+                    "@runtimeProperty(\"{}\", \"{}\")",
+                    str::escape_default(&property.name),
+                    str::escape_default(&property.value)
+                )?;
             }
 
             for property in &field.defaults {
-- 
2.43.0


From 6ef72153204bd284324b3976d184e3ee849b7ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:10 +0000
Subject: [PATCH 08/38] fix: print floating point constants with as many
 decimals as their value needs

---
 decompiler/src/print.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 324dccc..c6202fb 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -265,8 +265,8 @@ fn write_expr_nested<W: Write>(
             Constant::I64(lit) => write!(out, "{}l", lit)?,
             Constant::U32(lit) => write!(out, "{}u", lit)?,
             Constant::U64(lit) => write!(out, "{}ul", lit)?,
-            Constant::F32(lit) => write!(out, "{:.2}", lit)?,
-            Constant::F64(lit) => write!(out, "{:.2}d", lit)?,
+            Constant::F32(lit) => write!(out, "{}", format_f32(*lit))?,
+            Constant::F64(lit) => write!(out, "{}d", format_f64(*lit))?,
             Constant::Bool(true) => write!(out, "true")?,
             Constant::Bool(false) => write!(out, "false")?,
         },
@@ -482,6 +482,25 @@ fn format_type(def: &Definition, pool: &ConstantPool) -> Result<String, Error> {
     Ok(result)
 }
 
+// two decimals unless that would change the value
+fn format_f32(val: f32) -> String {
+    let short = format!("{val:.2}");
+    if short.parse() == Ok(val) {
+        short
+    } else {
+        val.to_string()
+    }
+}
+
+fn format_f64(val: f64) -> String {
+    let short = format!("{val:.2}");
+    if short.parse() == Ok(val) {
+        short
+    } else {
+        val.to_string()
+    }
+}
+
 fn format_binop(op: BinOp) -> &'static str {
     match op {
         BinOp::AssignAdd => "+=",
-- 
2.43.0


From c7a74af5eddc2878469543355769f5e4c74b2708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:42 +0000
Subject: [PATCH 09/38] fix: keep the grouping of expressions in printed code

---
 core/src/ast.rs         |  13 +++++
 decompiler/src/print.rs | 102 ++++++++++++++++++++++++++--------------
 2 files changed, 80 insertions(+), 35 deletions(-)

diff --git a/core/src/ast.rs b/core/src/ast.rs
index 4d5d9ba..35e6977 100644
--- a/core/src/ast.rs
+++ b/core/src/ast.rs
@@ -239,6 +239,19 @@ impl BinOp {
     pub fn does_associate(self, parent: BinOp) -> bool {
         parent.precedence() > self.precedence() || (parent.precedence() == self.precedence() && parent.associative())
     }
+
+    /// Whether the operator can be the right operand of the parent without parentheses.
+    pub fn does_associate_right(self, parent: BinOp) -> bool {
+        parent.precedence() > self.precedence()
+            || matches!(
+                (self, parent),
+                (BinOp::LogicOr, BinOp::LogicOr)
+                    | (BinOp::LogicAnd, BinOp::LogicAnd)
+                    | (BinOp::Or, BinOp::Or)
+                    | (BinOp::Xor, BinOp::Xor)
+                    | (BinOp::And, BinOp::And)
+            )
+    }
 }
 
 #[derive(Debug, Clone, Copy, Display, EnumString, IntoStaticStr)]
diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index c6202fb..ce5e6e0 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -254,6 +254,12 @@ fn write_expr_nested<W: Write>(
     verbose: bool,
     depth: usize,
 ) -> Result<(), Error> {
+    if parent_op.is_some_and(|parent| needs_parens(expr, parent, verbose)) {
+        write!(out, "(")?;
+        write_expr(out, expr, verbose, depth)?;
+        write!(out, ")")?;
+        return Ok(());
+    }
     match expr {
         Expr::Ident(ident, _) => write!(out, "{}", ident)?,
         Expr::Constant(cons, _) => match cons {
@@ -271,15 +277,8 @@ fn write_expr_nested<W: Write>(
             Constant::Bool(false) => write!(out, "false")?,
         },
         Expr::Cast(type_, expr, _) => {
-            if parent_op.is_some() {
-                write!(out, "(")?;
-                write_expr(out, expr, verbose, 0)?;
-                write!(out, " as {}", type_.pretty())?;
-                write!(out, ")")?;
-            } else {
-                write_expr(out, expr, verbose, 0)?;
-                write!(out, " as {}", type_.pretty())?;
-            }
+            write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
+            write!(out, " as {}", type_.pretty())?;
         }
         Expr::Declare(name, type_, val, _) => {
             write!(out, "let {}", name)?;
@@ -292,18 +291,21 @@ fn write_expr_nested<W: Write>(
             }
         }
         Expr::Assign(lhs, rhs, _) => {
-            write_expr(out, lhs, verbose, 0)?;
+            write_expr_nested(out, lhs, Some(ParentOp::Condition), verbose, 0)?;
             write!(out, " = ")?;
             write_expr(out, rhs, verbose, 0)?;
         }
-        Expr::Call(fun, type_args, params, _) => write_call(out, fun, type_args, params, parent_op, verbose)?,
+        Expr::Call(fun, type_args, params, _) => match elided_conversion(expr, verbose) {
+            Some(inner) => write_expr_nested(out, inner, parent_op, verbose, depth)?,
+            None => write_call(out, fun, type_args, params, verbose)?,
+        },
         Expr::MethodCall(obj, fun, params, _) => {
             write_expr_nested(out, obj, Some(ParentOp::Dot), verbose, 0)?;
             write!(out, ".")?;
-            write_call(out, fun, &[], params, None, verbose)?;
+            write_call(out, fun, &[], params, verbose)?;
         }
         Expr::ArrayElem(arr, idx, _) => {
-            write_expr(out, arr, verbose, 0)?;
+            write_expr_nested(out, arr, Some(ParentOp::Dot), verbose, 0)?;
             write!(out, "[")?;
             write_expr(out, idx, verbose, 0)?;
             write!(out, "]")?;
@@ -360,7 +362,7 @@ fn write_expr_nested<W: Write>(
             }
         }
         Expr::Conditional(condition, true_, false_, _) => {
-            write_expr(out, condition, verbose, 0)?;
+            write_expr_nested(out, condition, Some(ParentOp::Condition), verbose, 0)?;
             write!(out, " ? ")?;
             write_expr(out, true_, verbose, 0)?;
             write!(out, " : ")?;
@@ -375,7 +377,7 @@ fn write_expr_nested<W: Write>(
             write!(out, "}}")?;
         }
         Expr::Member(expr, accessor, _) => {
-            write_expr(out, expr, verbose, 0)?;
+            write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
             write!(out, ".{}", accessor)?;
         }
         Expr::BinOp(lhs, rhs, op, _) => {
@@ -398,30 +400,14 @@ fn write_call<W: Write>(
     name: &Ident,
     type_params: &[TypeName],
     params: &[Expr<SourceAst>],
-    parent_op: Option<ParentOp>,
     verbose: bool,
 ) -> Result<(), Error> {
     let fun_name = name.as_ref().split(';').next().expect("Empty function name");
 
     if let Ok(binop) = BinOp::from_str(fun_name) {
-        if parent_op
-            .filter(|op| match op {
-                ParentOp::UnOp | ParentOp::Dot => true,
-                ParentOp::BinOp(op) => !binop.does_associate(*op),
-            })
-            .is_some()
-        {
-            write!(out, "(")?;
-            write_binop(out, &params[0], &params[1], binop, verbose)?;
-            write!(out, ")")?;
-            Ok(())
-        } else {
-            write_binop(out, &params[0], &params[1], binop, verbose)
-        }
+        write_binop(out, &params[0], &params[1], binop, verbose)
     } else if let Ok(unop) = UnOp::from_str(fun_name) {
         write_unop(out, &params[0], unop, verbose)
-    } else if (fun_name == "WeakRefToRef" || fun_name == "RefToWeakRef" || fun_name == "AsRef") && !verbose {
-        write_expr(out, &params[0], verbose, 0)
     } else {
         write!(out, "{}", fun_name)?;
         if !type_params.is_empty() {
@@ -447,9 +433,9 @@ fn write_binop<W: Write>(
     op: BinOp,
     verbose: bool,
 ) -> Result<(), Error> {
-    write_expr_nested(out, lhs, Some(ParentOp::BinOp(op)), verbose, 0)?;
+    write_expr_nested(out, lhs, Some(ParentOp::LeftOf(op)), verbose, 0)?;
     write!(out, " {} ", format_binop(op))?;
-    write_expr_nested(out, rhs, Some(ParentOp::BinOp(op)), verbose, 0)
+    write_expr_nested(out, rhs, Some(ParentOp::RightOf(op)), verbose, 0)
 }
 
 fn write_unop<W: Write>(out: &mut W, param: &Expr<SourceAst>, op: UnOp, verbose: bool) -> Result<(), Error> {
@@ -536,8 +522,54 @@ fn format_unop(op: UnOp) -> &'static str {
     }
 }
 
+// conversions that are only written in verbose mode
+fn elided_conversion(expr: &Expr<SourceAst>, verbose: bool) -> Option<&Expr<SourceAst>> {
+    match expr {
+        Expr::Call(fun, _, params, _) if !verbose => match function_name(fun) {
+            "WeakRefToRef" | "RefToWeakRef" | "AsRef" => params.first(),
+            _ => None,
+        },
+        _ => None,
+    }
+}
+
+fn function_name(name: &Ident) -> &str {
+    name.as_ref().split(';').next().expect("Empty function name")
+}
+
+fn needs_parens(expr: &Expr<SourceAst>, parent: ParentOp, verbose: bool) -> bool {
+    if elided_conversion(expr, verbose).is_some() {
+        return false;
+    }
+    let binop = match expr {
+        Expr::Cast(_, _, _) => return !matches!(parent, ParentOp::Condition),
+        Expr::Conditional(_, _, _, _) | Expr::Assign(_, _, _) => return true,
+        // the sign would be applied last
+        Expr::Constant(Constant::I32(val), _) => return matches!(parent, ParentOp::Dot) && *val < 0,
+        Expr::Constant(Constant::I64(val), _) => return matches!(parent, ParentOp::Dot) && *val < 0,
+        Expr::Constant(Constant::F32(val), _) => return matches!(parent, ParentOp::Dot) && val.is_sign_negative(),
+        Expr::Constant(Constant::F64(val), _) => return matches!(parent, ParentOp::Dot) && val.is_sign_negative(),
+        Expr::UnOp(_, _, _) => return matches!(parent, ParentOp::Dot),
+        Expr::BinOp(_, _, op, _) => *op,
+        Expr::Call(fun, _, _, _) => match BinOp::from_str(function_name(fun)) {
+            Ok(op) => op,
+            Err(_) => return matches!(parent, ParentOp::Dot) && UnOp::from_str(function_name(fun)).is_ok(),
+        },
+        _ => return false,
+    };
+    match parent {
+        ParentOp::UnOp | ParentOp::Dot => true,
+        ParentOp::Condition => binop.precedence() == BinOp::AssignAdd.precedence(),
+        ParentOp::LeftOf(op) => !binop.does_associate(op),
+        ParentOp::RightOf(op) => !binop.does_associate_right(op),
+    }
+}
+
+#[derive(Debug, Clone, Copy)]
 enum ParentOp {
     UnOp,
-    BinOp(BinOp),
+    LeftOf(BinOp),
+    RightOf(BinOp),
+    Condition,
     Dot,
 }
-- 
2.43.0


From 1b151c1ac846aac9115e3d452cb066df549792f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:58 +0000
Subject: [PATCH 10/38] fix: restore arguments when several quoted paths end
 with a backslash

---
 scc/cli/src/opts.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scc/cli/src/opts.rs b/scc/cli/src/opts.rs
index 58c6cb5..f8cfe02 100644
--- a/scc/cli/src/opts.rs
+++ b/scc/cli/src/opts.rs
@@ -10,6 +10,7 @@ pub fn fix_args(args: Vec<String>) -> Vec<String> {
     // when cyberpunk's args are processed, the \" messes up the grouping, so we need to fix the args that have quotes & spaces in them
     for arg in args {
         let contains_quote = arg.contains('"');
+        let is_unbalanced = arg.matches('"').count() % 2 == 1;
         if !contains_quote && !broken {
             fixed_args.push(arg);
         } else if !broken {
@@ -39,7 +40,7 @@ pub fn fix_args(args: Vec<String>) -> Vec<String> {
                 *last = format!("{} {}", last, broken_arg);
             }
         }
-        if contains_quote {
+        if is_unbalanced {
             broken = !broken;
         }
     }
-- 
2.43.0


From 2d7666f62a1045f14bdd4bd415e6b27161515321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:51 +0000
Subject: [PATCH 11/38] fix: give trailing switch cases without a body a jump
 target

---
 compiler/src/assembler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/src/assembler.rs b/compiler/src/assembler.rs
index 27f24de..2692d3e 100644
--- a/compiler/src/assembler.rs
+++ b/compiler/src/assembler.rs
@@ -171,6 +171,7 @@ impl<'a> Assembler<'a> {
                 let mut case_iter = cases.into_iter().peekable();
                 while case_iter.peek().is_some() {
                     let body_label = self.new_label();
+                    let mut has_body = false;
 
                     for case in &mut case_iter {
                         self.emit_label(next_case_label);
@@ -181,9 +182,13 @@ impl<'a> Assembler<'a> {
                         if !case.body.exprs.iter().all(Expr::is_empty) {
                             self.emit_label(body_label);
                             self.assemble_seq(case.body, scope, pool, Some(exit_label))?;
+                            has_body = true;
                             break;
                         }
                     }
+                    if !has_body {
+                        self.emit_label(body_label);
+                    }
                 }
                 self.emit_label(next_case_label);
 
-- 
2.43.0


From 59374f274c3e9b7ec81ab0e3ca5e9d1c501ab978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:28 +0000
Subject: [PATCH 12/38] fix: type array literals by the expected element type
 their elements were converted to

---
 compiler/src/typechecker.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/compiler/src/typechecker.rs b/compiler/src/typechecker.rs
index c2a159f..7625fdd 100644
--- a/compiler/src/typechecker.rs
+++ b/compiler/src/typechecker.rs
@@ -83,14 +83,17 @@ impl<'a> TypeChecker<'a> {
                         checked.push(val);
                     }
 
-                    let typ: Result<TypeId, Error> = checked
-                        .iter()
-                        .skip(1)
-                        .try_fold(type_of(&checked[0], scope, self.pool)?, |acc, expr| {
+                    let typ = if let Some(TypeId::Array(elem)) = expected {
+                        elem.clone()
+                    } else {
+                        let init = type_of(&checked[0], scope, self.pool)?;
+                        let typ: Result<TypeId, Error> = checked.iter().skip(1).try_fold(init, |acc, expr| {
                             lub(acc, type_of(expr, scope, self.pool)?, self.pool).with_span(*span)
                         });
+                        typ?.into()
+                    };
 
-                    Expr::ArrayLit(checked.into_boxed_slice(), Some(typ?.into()), *span)
+                    Expr::ArrayLit(checked.into_boxed_slice(), Some(typ), *span)
                 }
             }
             Expr::InterpolatedString(prefix, parts, pos) => {
-- 
2.43.0


From 90ae07caecacfe78e64b64d4054a735895f99b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:46 +0000
Subject: [PATCH 13/38] fix: evaluate array literals of a while condition
 before each iteration

---
 compiler/src/sugar.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/compiler/src/sugar.rs b/compiler/src/sugar.rs
index 761522b..35d0598 100644
--- a/compiler/src/sugar.rs
+++ b/compiler/src/sugar.rs
@@ -215,6 +215,22 @@ impl<'a> ExprTransformer<TypedAst> for Desugar<'a> {
         Ok(Expr::While(Box::new(condition), Seq::new(body), span))
     }
 
+    fn on_while(&mut self, cond: TypedExpr, body: Seq<TypedAst>, span: Span) -> Result<TypedExpr, Error> {
+        let body = self.on_seq(body)?;
+        let outer_prefixes = self.prefix_exprs.len();
+        let cond = self.on_expr(cond)?;
+        let mut exprs = self.prefix_exprs.split_off(outer_prefixes);
+        if exprs.is_empty() {
+            return Ok(Expr::While(Box::new(cond), body, span));
+        }
+
+        // expressions hoisted out of the condition have to be evaluated before each iteration
+        let exit = Seq::new(vec![Expr::Break(span)]);
+        exprs.push(Expr::If(Box::new(cond), body, Some(exit), span));
+        let always = Expr::Constant(Constant::Bool(true), span);
+        Ok(Expr::While(Box::new(always), Seq::new(exprs), span))
+    }
+
     fn on_seq(&mut self, seq: Seq<TypedAst>) -> Result<Seq<TypedAst>, Error> {
         let mut processed = Vec::with_capacity(seq.exprs.len());
         for expr in seq.exprs {
-- 
2.43.0


From 46788eed042d1b15f363b9682ad7a61d5573d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:44 +0000
Subject: [PATCH 14/38] fix: reject string escapes that are not unicode scalar
 values

---
 compiler/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/parser.rs b/compiler/src/parser.rs
index 4453419..859e28e 100644
--- a/compiler/src/parser.rs
+++ b/compiler/src/parser.rs
@@ -235,8 +235,8 @@ peg::parser! {
             / r"\'" { '\'' }
             / r#"\""# { '\"' }
             / r"\\" { '\\' }
-            / "\\u{" u:$(['a'..='f' | 'A'..='F' | '0'..='9']*<1,6>) "}" {
-                char::from_u32(u32::from_str_radix(u, 16).unwrap()).unwrap()
+            / "\\u{" u:$(['a'..='f' | 'A'..='F' | '0'..='9']*<1,6>) "}" {?
+                char::from_u32(u32::from_str_radix(u, 16).unwrap()).ok_or("unicode scalar value")
             }
 
         rule string_contents() -> String
-- 
2.43.0


From 2b1fb8d5d6510fb268b5af275af12c6880c55d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:44 +0000
Subject: [PATCH 15/38] fix: keep only the last of several replacements of a
 function

---
 compiler/src/unit.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index 94976ab..bbdd174 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -216,6 +216,8 @@ impl<'a> CompilationUnit<'a> {
                         let pos = source.declaration.span;
                         if seen_funcs.contains(&index) {
                             self.diagnostics.push(Diagnostic::ReplaceMethodConflict(index, pos));
+                            // only the last replacement is kept, the function has only its parameters
+                            self.function_bodies.retain(|body| body.index != index);
                         } else {
                             seen_funcs.insert(index);
                         }
-- 
2.43.0


From f7a7cb7ee267f4dd74b60f3620530d9612796e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:59 +0000
Subject: [PATCH 16/38] fix: report circular inheritance instead of looping
 over it

---
 compiler/src/unit.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index bbdd174..4651712 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -511,7 +511,12 @@ impl<'a> CompilationUnit<'a> {
             PoolIndex::UNDEFINED
         } else if let Some(base_name) = source.base {
             if let Ok(Symbol::Class(base_idx, _)) = scope.resolve_symbol(base_name.clone()) {
-                base_idx
+                if Self::is_subclass(base_idx, class_idx, self.pool) {
+                    self.report(Cause::UnsupportedFeature("circular inheritance").with_span(source.span))?;
+                    PoolIndex::UNDEFINED
+                } else {
+                    base_idx
+                }
             } else {
                 self.report(Cause::ClassNotFound(base_name).with_span(source.span))?;
                 PoolIndex::UNDEFINED
@@ -541,6 +546,17 @@ impl<'a> CompilationUnit<'a> {
         Ok(())
     }
 
+    fn is_subclass(class_idx: PoolIndex<Class>, base_idx: PoolIndex<Class>, pool: &ConstantPool) -> bool {
+        let mut cur = class_idx;
+        while cur != base_idx {
+            match pool.class(cur) {
+                Ok(class) if !class.base.is_undefined() => cur = class.base,
+                _ => return false,
+            }
+        }
+        true
+    }
+
     fn define_function(&mut self, spec: FunctionSpec, scope: &mut Scope) -> Result<(), Error> {
         let decl = &spec.source.declaration;
         let is_native = !spec.is_replacement && decl.qualifiers.contain(Qualifier::Native);
-- 
2.43.0


From a583e752a635e2accfeb6dcb88743bdf7b5ac197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:44 +0000
Subject: [PATCH 17/38] fix: a switch nested in the case before `default` took
 that default for its own

---
 decompiler/src/lib.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index a70546d..8669eaa 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -14,11 +14,18 @@ pub struct Decompiler<'a> {
     code: CodeCursor<'a, Offset>,
     definition: &'a Definition,
     pool: &'a ConstantPool,
+    // where the default cases of the enclosing switches start
+    outer_defaults: Vec<Location>,
 }
 
 impl<'a> Decompiler<'a> {
     pub fn new(code: CodeCursor<'a, Offset>, definition: &'a Definition, pool: &'a ConstantPool) -> Self {
-        Self { code, definition, pool }
+        Self {
+            code,
+            definition,
+            pool,
+            outer_defaults: vec![],
+        }
     }
 
     pub fn decompiled(function: &Function, def: &Definition, pool: &ConstantPool) -> Result<Seq<SourceAst>, Error> {
@@ -157,8 +164,12 @@ impl<'a> Decompiler<'a> {
             labels.push((position, start_offset.absolute(position)));
             self.code.seek_rel(exit_offset)?;
         }
-        if self.code.peek() == Some(Instr::SwitchDefault) {
-            labels.push((self.code.pos(), self.code.pos()));
+        let default_start = self.code.pos();
+        let has_default =
+            self.code.peek() == Some(Instr::SwitchDefault) && !self.outer_defaults.contains(&default_start);
+        if has_default {
+            labels.push((default_start, default_start));
+            self.outer_defaults.push(default_start);
         };
         labels.sort_by_key(|(_, start)| *start);
 
@@ -166,7 +177,7 @@ impl<'a> Decompiler<'a> {
         // from one of the cases past the last one has to lead there
         let chain_end = self.code.pos();
         let last_case = labels.last().map_or(chain_end, |(_, start)| *start);
-        let epilogue = if self.code.peek() != Some(Instr::SwitchDefault) && chain_end >= last_case {
+        let epilogue = if !has_default && chain_end >= last_case {
             Some(chain_end)
         } else {
             self.code.range(start, last_case)?.find_map(|(loc, i)| match i {
@@ -206,6 +217,9 @@ impl<'a> Decompiler<'a> {
             }
         }
 
+        if has_default {
+            self.outer_defaults.pop();
+        }
         if let Some(epilogue) = epilogue {
             self.code.seek_abs(epilogue)?;
         }
-- 
2.43.0


From dd7cd5c176086bfbc6a1de03768f65125512d804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 18/38] fix: take an empty default for what it is when nothing
 tells where the switch ends

---
 decompiler/src/lib.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 8669eaa..47c8f1e 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -16,6 +16,8 @@ pub struct Decompiler<'a> {
     pool: &'a ConstantPool,
     // where the default cases of the enclosing switches start
     outer_defaults: Vec<Location>,
+    // where the innermost block ends
+    path_end: Location,
 }
 
 impl<'a> Decompiler<'a> {
@@ -25,6 +27,7 @@ impl<'a> Decompiler<'a> {
             definition,
             pool,
             outer_defaults: vec![],
+            path_end: Location::MAX,
         }
     }
 
@@ -60,6 +63,7 @@ impl<'a> Decompiler<'a> {
 
     fn consume_path(&mut self, target: Location, block: Option<BlockContext>) -> Result<Seq<SourceAst>, Error> {
         let mut body = Vec::new();
+        let outer_end = std::mem::replace(&mut self.path_end, target);
         loop {
             if self.code.pos() >= target
                 || matches!(body.last(), Some(Expr::Goto(_, _)))
@@ -74,6 +78,7 @@ impl<'a> Decompiler<'a> {
                 Err(err) => return Err(err),
             }
         }
+        self.path_end = outer_end;
         Ok(Seq::new(body))
     }
 
@@ -154,7 +159,7 @@ impl<'a> Decompiler<'a> {
         Ok(result)
     }
 
-    fn consume_switch(&mut self, start: Location) -> Result<Expr<SourceAst>, Error> {
+    fn consume_switch(&mut self, start: Location, outer: Option<BlockContext>) -> Result<Expr<SourceAst>, Error> {
         let subject = self.consume()?;
 
         self.code.seek_abs(start)?;
@@ -207,10 +212,16 @@ impl<'a> Decompiler<'a> {
                     cases.push(SwitchCase { matcher, body });
                 }
                 Instr::SwitchDefault => {
-                    default = Some(if let Some(epilogue) = epilogue {
-                        self.consume_path(epilogue, block)?
-                    } else {
-                        Seq::new(vec![self.consume_with(None, block)?])
+                    default = Some(match (epilogue, self.code.peek()) {
+                        (Some(epilogue), _) => self.consume_path(epilogue, block)?,
+                        // the case is empty, this is the end of the enclosing block
+                        _ if self.code.pos() >= self.path_end => Seq::new(vec![]),
+                        (None, Some(Instr::Jump(_))) => Seq::new(vec![]),
+                        // this might jump out of the enclosing block, which it can only do behind the switch
+                        (None, Some(Instr::JumpIfFalse(_) | Instr::Switch(_, _))) if outer.is_some() => {
+                            Seq::new(vec![])
+                        }
+                        (None, _) => Seq::new(vec![self.consume()?]),
                     });
                 }
                 _ => return Err(Error::DecompileError("Unexpected switch label instruction")),
@@ -292,7 +303,7 @@ impl<'a> Decompiler<'a> {
                 }
             }
             Instr::ExternalVar => return Err(Error::DecompileError("Unexpected ExternalVar")),
-            Instr::Switch(_, start) => self.consume_switch(start.absolute(position))?,
+            Instr::Switch(_, start) => self.consume_switch(start.absolute(position), block)?,
             Instr::SwitchLabel(_, _) => return Err(Error::DecompileError("Unexpected SwitchLabel")),
             Instr::SwitchDefault => return Err(Error::DecompileError("Unexpected SwitchDefault")),
             Instr::JumpIfFalse(offset) => {
-- 
2.43.0


From 16d35959c6bf4757c60012271ab32ec80ada4087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:19 +0000
Subject: [PATCH 19/38] fix: don't declare a local where it's first assigned if
 it was used before

---
 decompiler/src/lib.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 47c8f1e..df9e3b5 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -1,4 +1,5 @@
 use std::collections::BTreeMap;
+use std::iter;
 
 use error::Error;
 use redscript::ast::{Constant, Expr, Ident, Literal, Seq, SourceAst, Span, SwitchCase, Target, TypeName};
@@ -497,7 +498,9 @@ fn merge_declarations(mut locals: BTreeMap<Ident, TypeName>, seq: Seq<SourceAst>
         match it.next() {
             Some(Expr::Assign(ident, val, _)) => {
                 if let Expr::Ident(name, _) = ident.as_ref() {
-                    if let Some(ty) = locals.remove(name) {
+                    // it can't be declared here if it was used before
+                    let is_used = iter::once(val.as_ref()).chain(&init).any(|expr| mentions(expr, name));
+                    if let Some(ty) = if is_used { None } else { locals.remove(name) } {
                         init.push(Expr::Declare(name.clone(), Some(ty.into()), Some(val), Span::ZERO));
                     } else {
                         init.push(Expr::Assign(ident, val, Span::ZERO));
@@ -520,6 +523,23 @@ fn merge_declarations(mut locals: BTreeMap<Ident, TypeName>, seq: Seq<SourceAst>
     Ok(Seq::new(body))
 }
 
+fn mentions(expr: &Expr<SourceAst>, name: &Ident) -> bool {
+    match expr {
+        Expr::Ident(ident, _) => ident == name,
+        Expr::Declare(_, _, val, _) => val.iter().any(|val| mentions(val, name)),
+        Expr::Cast(_, expr, _) | Expr::Member(expr, _, _) | Expr::UnOp(expr, _, _) => mentions(expr, name),
+        Expr::Assign(lhs, rhs, _) | Expr::ArrayElem(lhs, rhs, _) | Expr::BinOp(lhs, rhs, _, _) => {
+            mentions(lhs, name) || mentions(rhs, name)
+        }
+        Expr::Call(_, _, args, _) | Expr::New(_, args, _) => args.iter().any(|arg| mentions(arg, name)),
+        Expr::MethodCall(expr, _, args, _) => mentions(expr, name) || args.iter().any(|arg| mentions(arg, name)),
+        Expr::Conditional(cond, true_, false_, _) => {
+            mentions(cond, name) || mentions(true_, name) || mentions(false_, name)
+        }
+        _ => false,
+    }
+}
+
 fn resolve_jump(seq: &mut Seq<SourceAst>) -> Option<Target> {
     seq.exprs.iter_mut().rev().find_map(|expr| match expr {
         Expr::Goto(target, _) => {
-- 
2.43.0


From 6ef3c4702034827924d75638d0810a468842386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:58 +0000
Subject: [PATCH 20/38] fix: report branches that lead backwards as
 undecompilable

A conditional jump with a negative offset panicked, and a switch or case
label leading to itself or to earlier code was followed forever.
---
 decompiler/src/lib.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index df9e3b5..f441ee6 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -125,11 +125,10 @@ impl<'a> Decompiler<'a> {
     fn consume_conditional_jump(
         &mut self,
         position: Location,
-        offset: Offset,
+        target: Location,
         block: Option<BlockContext>,
     ) -> Result<Expr<SourceAst>, Error> {
         let condition = self.consume()?;
-        let target = offset.absolute(position);
 
         let is_loop = self
             .code
@@ -167,8 +166,8 @@ impl<'a> Decompiler<'a> {
         let mut labels = Vec::new();
         while let Some(Instr::SwitchLabel(exit_offset, start_offset)) = self.code.peek() {
             let position = self.code.pos();
-            labels.push((position, start_offset.absolute(position)));
-            self.code.seek_rel(exit_offset)?;
+            labels.push((position, forward(position, start_offset)?));
+            self.code.seek_abs(forward(position, exit_offset)?)?;
         }
         let default_start = self.code.pos();
         let has_default =
@@ -304,12 +303,11 @@ impl<'a> Decompiler<'a> {
                 }
             }
             Instr::ExternalVar => return Err(Error::DecompileError("Unexpected ExternalVar")),
-            Instr::Switch(_, start) => self.consume_switch(start.absolute(position), block)?,
+            Instr::Switch(_, start) => self.consume_switch(forward(position, start)?, block)?,
             Instr::SwitchLabel(_, _) => return Err(Error::DecompileError("Unexpected SwitchLabel")),
             Instr::SwitchDefault => return Err(Error::DecompileError("Unexpected SwitchDefault")),
             Instr::JumpIfFalse(offset) => {
-                assert!(offset.value >= 0, "negative offset is not supported for JumpIfFalse");
-                self.consume_conditional_jump(position, offset, block)?
+                self.consume_conditional_jump(position, forward(position, offset)?, block)?
             }
             Instr::Skip(offset) => Expr::Goto(Target::new(offset.absolute(position)), Span::ZERO),
             Instr::Conditional(_, _) => {
@@ -540,6 +538,16 @@ fn mentions(expr: &Expr<SourceAst>, name: &Ident) -> bool {
     }
 }
 
+// where a branch leads, which has to be further on in the code
+fn forward(position: Location, offset: Offset) -> Result<Location, Error> {
+    let target = offset.absolute(position);
+    if target > position {
+        Ok(target)
+    } else {
+        Err(Error::DecompileError("Unexpected backward branch"))
+    }
+}
+
 fn resolve_jump(seq: &mut Seq<SourceAst>) -> Option<Target> {
     seq.exprs.iter_mut().rev().find_map(|expr| match expr {
         Expr::Goto(target, _) => {
-- 
2.43.0


From b559b9b1725651f53c90a0c2a74ba89b4fe2d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:58 +0000
Subject: [PATCH 21/38] fix: print operator calls with a wrong number of
 operands as calls

They were indexed out of bounds.
---
 decompiler/src/print.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index ce5e6e0..37a145e 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -404,10 +404,10 @@ fn write_call<W: Write>(
 ) -> Result<(), Error> {
     let fun_name = name.as_ref().split(';').next().expect("Empty function name");
 
-    if let Ok(binop) = BinOp::from_str(fun_name) {
-        write_binop(out, &params[0], &params[1], binop, verbose)
-    } else if let Ok(unop) = UnOp::from_str(fun_name) {
-        write_unop(out, &params[0], unop, verbose)
+    if let (Ok(binop), [lhs, rhs]) = (BinOp::from_str(fun_name), params) {
+        write_binop(out, lhs, rhs, binop, verbose)
+    } else if let (Ok(unop), [param]) = (UnOp::from_str(fun_name), params) {
+        write_unop(out, param, unop, verbose)
     } else {
         write!(out, "{}", fun_name)?;
         if !type_params.is_empty() {
-- 
2.43.0


From 1bbcd59a595015efc9878015594e35935e0a2823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:55 +0000
Subject: [PATCH 22/38] fix: don't take a jump back to the head of a loop for
 the end of a then branch

---
 decompiler/src/lib.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index f441ee6..cc48e76 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -144,7 +144,7 @@ impl<'a> Decompiler<'a> {
         } else {
             let mut body = self.consume_path(target, block)?;
             self.code.seek_abs(target)?;
-            if let Some(jump) = resolve_jump(&mut body) {
+            if let Some(jump) = resolve_jump(&mut body, target) {
                 let else_case = self.consume_path(jump.position, block)?;
                 // the branch might have ended early with a break or a return
                 if self.code.pos() < jump.position {
@@ -548,15 +548,17 @@ fn forward(position: Location, offset: Offset) -> Result<Location, Error> {
     }
 }
 
-fn resolve_jump(seq: &mut Seq<SourceAst>) -> Option<Target> {
+/// Removes the jump over the else branch that starts at `else_start`. A jump that leads further back is
+/// not one of those, it continues a loop.
+fn resolve_jump(seq: &mut Seq<SourceAst>, else_start: Location) -> Option<Target> {
     seq.exprs.iter_mut().rev().find_map(|expr| match expr {
-        Expr::Goto(target, _) => {
+        Expr::Goto(target, _) if target.position >= else_start => {
             let res = *target;
             *expr = Expr::EMPTY;
             Some(res)
         }
-        Expr::If(_, if_, None, _) => resolve_jump(if_),
-        Expr::If(_, if_, Some(else_), _) => resolve_jump(if_).or_else(move || resolve_jump(else_)),
+        Expr::If(_, if_, None, _) => resolve_jump(if_, else_start),
+        Expr::If(_, if_, Some(else_), _) => resolve_jump(if_, else_start).or_else(move || resolve_jump(else_, else_start)),
         _ => None,
     })
 }
-- 
2.43.0


From 0bfd7ef4e4f40610cd5c6b8b3efab851f6912c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:55 +0000
Subject: [PATCH 23/38] fix: don't turn a jump back to the head of a loop into
 the break of a switch

---
 decompiler/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index cc48e76..7374203 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -205,9 +205,13 @@ impl<'a> Decompiler<'a> {
                     self.code.seek_abs(start_position)?;
                     let mut body = self.consume_path(exit, block)?;
 
-                    if let Some(Expr::Goto(_, _)) = body.exprs.last() {
-                        body.exprs.pop();
-                        body.exprs.push(Expr::Break(Span::ZERO));
+                    // a jump that leads back doesn't end the case, it continues an outer loop
+                    match body.exprs.last() {
+                        Some(Expr::Goto(target, _)) if target.position > start_position => {
+                            body.exprs.pop();
+                            body.exprs.push(Expr::Break(Span::ZERO));
+                        }
+                        _ => {}
                     }
                     cases.push(SwitchCase { matcher, body });
                 }
-- 
2.43.0


From 0397c2c33d83cadda5645a24c078d5b3495babfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:55 +0000
Subject: [PATCH 24/38] fix: report failed writes while printing the methods of
 a class

---
 decompiler/src/print.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 37a145e..6b2e6ad 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -67,8 +67,10 @@ pub fn write_definition<W: Write>(
 
             for method_index in &class.functions {
                 let method = pool.definition(*method_index)?;
-                if let Err(err) = write_definition(out, method, pool, depth + 1, mode) {
-                    log::error!("Method decompilation {} failed (caused by {})", method_index, err);
+                match write_definition(out, method, pool, depth + 1, mode) {
+                    Ok(()) => {}
+                    Err(err @ Error::IoError(_)) => return Err(err),
+                    Err(err) => log::error!("Method decompilation {} failed (caused by {})", method_index, err),
                 }
             }
             writeln!(out, "}}")?;
-- 
2.43.0


From 3ee99571c6225d80166760a1014a3e77cb699cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:56 +0000
Subject: [PATCH 25/38] fix: report an output whose last part could not be
 written

The error of the last write was lost when the buffered writer was dropped.
---
 scc/lib/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 59f2f8c..2b06eb4 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -3,6 +3,7 @@ pub mod hints;
 pub mod timestamp;
 
 use std::fs::{self, File, OpenOptions};
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use std::{fmt, io, iter, vec};
 
@@ -219,7 +220,10 @@ fn try_compile_files(
                 ),
                 _ => err.into(),
             })?;
-            bundle.save(&mut io::BufWriter::new(&mut file))?;
+            let mut writer = io::BufWriter::new(&mut file);
+            bundle.save(&mut writer)?;
+            writer.flush()?;
+            drop(writer);
             file.sync_all()?;
 
             CompileTimestamp::of_cache_file(&file)?.write(&mut *ts_file)?;
-- 
2.43.0


From 55667302ccbd7f1bd3390e1270cea173feeb0865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:56 +0000
Subject: [PATCH 26/38] fix: a backup or base cache is copied whole or not at
 all

A run that was interrupted while copying left a part of the file, which later
runs took for the game's cache.
---
 scc/lib/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 2b06eb4..625ab4b 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -63,7 +63,7 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
             .parent()
             .context("Provided cache file path has no parent directory")?;
         fs::create_dir_all(cache_dir).context("Failed to create the cache directory")?;
-        fs::copy(base_cache_file, &cache_path).context("Could not copy the base script cache file")?;
+        copy_file(&base_cache_file, &cache_path).context("Could not copy the base script cache file")?;
     }
 
     let backup_path = cache_path.with_extension(BACKUP_FILE_EXT);
@@ -72,7 +72,7 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
 
     if fallback_backup_path.exists() && !backup_path.exists() {
         log::info!("Re-initializing backup file from {}", fallback_backup_path.display());
-        fs::copy(fallback_backup_path, &backup_path).context("Failed to copy the backup file")?;
+        copy_file(&fallback_backup_path, &backup_path).context("Failed to copy the backup file")?;
     }
 
     let files = Files::from_dirs(&script_paths, &SourceFilter::None).context("Could not load script sources")?;
@@ -162,7 +162,7 @@ fn try_compile_files(
                     "Redscript cache file is not ours, copying it to {}",
                     backup_path.display()
                 );
-                fs::copy(cache_path, &backup_path).context("Failed to copy the cache file")?;
+                copy_file(cache_path, &backup_path).context("Failed to copy the cache file")?;
             }
             Some(_) if !backup_path.exists() => {
                 return Err(anyhow::anyhow!(
@@ -262,6 +262,14 @@ fn get_base_bundle_path(cache_dir: &Path) -> PathBuf {
     }
 }
 
+/// Copies a file so that the target never holds just a part of it.
+fn copy_file(from: &Path, to: &Path) -> io::Result<()> {
+    let mut temp = to.to_path_buf().into_os_string();
+    temp.push(format!(".{}.tmp", std::process::id()));
+    fs::copy(from, &temp)?;
+    fs::rename(&temp, to)
+}
+
 fn add_redscript_signature_def(pool: &mut ConstantPool) {
     let name = pool.names.add(REDSCRIPT_SIGNATURE_DEF.into());
     let enum_ = Enum {
-- 
2.43.0


From b97ac105d00a0496f30e877cf0b716cad6a2bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:56 +0000
Subject: [PATCH 27/38] fix: the backup is made of the game's cache only, and
 of the current one

A cache written by an interrupted run replaced the backup, so that the game's
own cache was lost; and a backup made by a run that failed to compile stayed
in use after the game's cache was updated.
---
 scc/lib/src/lib.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 625ab4b..7cc718a 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -141,7 +141,11 @@ fn try_compile_files(
 
     let input_cache_path = if is_output_file_separate {
         match saved_timestamp {
-            saved_timestamp if saved_timestamp != Some(write_timestamp) && backup_path.exists() => {
+            saved_timestamp
+                if saved_timestamp != Some(write_timestamp)
+                    && backup_path.exists()
+                    && is_original_cache(cache_path) =>
+            {
                 log::info!("Removing a stale backup file at {}", backup_path.display());
                 fs::remove_file(&backup_path).context("Failed to remove a stale backup file")?;
             }
@@ -157,21 +161,28 @@ fn try_compile_files(
             None if backup_path.exists() => {
                 log::info!("Previous cache backup file found");
             }
-            saved_timestamp if saved_timestamp != Some(write_timestamp) => {
+            Some(saved) if saved == write_timestamp && backup_path.exists() => {}
+            _ if is_original_cache(cache_path) => {
                 log::info!(
                     "Redscript cache file is not ours, copying it to {}",
                     backup_path.display()
                 );
+                if backup_path.exists() {
+                    fs::remove_file(&backup_path).context("Failed to remove a stale backup file")?;
+                }
+                write_timestamp.write(&mut *ts_file)?;
                 copy_file(cache_path, &backup_path).context("Failed to copy the cache file")?;
             }
-            Some(_) if !backup_path.exists() => {
+            _ if backup_path.exists() => {
+                log::info!("Redscript cache file was left by an interrupted compilation, using the backup file");
+            }
+            _ => {
                 return Err(anyhow::anyhow!(
                     "A REDScript timestamp was found, but backup files are missing, your \
                      installation might be corrupted, you should remove the \
                      'r6/cache/redscript.ts' file and verify game files with Steam/GOG"
                 ));
             }
-            _ => {}
         }
         backup_path
     };
@@ -262,6 +273,13 @@ fn get_base_bundle_path(cache_dir: &Path) -> PathBuf {
     }
 }
 
+/// Checks that a cache file is complete and was not compiled by us.
+fn is_original_cache(path: &Path) -> bool {
+    File::open(path)
+        .and_then(|file| ScriptBundle::load(&mut io::BufReader::new(file)))
+        .is_ok_and(|bundle| !check_for_redscript_signature_def(&bundle.pool))
+}
+
 /// Copies a file so that the target never holds just a part of it.
 fn copy_file(from: &Path, to: &Path) -> io::Result<()> {
     let mut temp = to.to_path_buf().into_os_string();
-- 
2.43.0


From ac5b490b7c54ec5ce4c882fc64dbfe4694f9efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:02 +0000
Subject: [PATCH 28/38] fix: a folder with a name like that of a script is not
 read as a script

---
 compiler/src/source_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/src/source_map.rs b/compiler/src/source_map.rs
index 07f4be0..5706bd0 100644
--- a/compiler/src/source_map.rs
+++ b/compiler/src/source_map.rs
@@ -88,6 +88,7 @@ fn filtered_file_iter<'a>(path: &'a Path, filter: &'a SourceFilter) -> impl Iter
             .follow_links(true)
             .into_iter()
             .filter_map(Result::ok)
+            .filter(|entry| !entry.file_type().is_dir())
             .map(DirEntry::into_path)
             .filter(move |p| filter.apply(p.strip_prefix(path).unwrap()));
         Either::Right(iter)
-- 
2.43.0


From c48eb96c9d16655e79787d13e6d4bdcdb0345566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:29 +0000
Subject: [PATCH 29/38] fix: a backup without its timestamp gives way to the
 game's cache

After the timestamp file was removed (as the compiler's own message advises) a
backup of an older version of the game was used. The new backup also replaces the
old one at once, so that a run in parallel always finds one.
---
 scc/lib/src/lib.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 7cc718a..5eca4d7 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -158,23 +158,17 @@ fn try_compile_files(
         cache_path.to_path_buf()
     } else {
         match saved_timestamp {
-            None if backup_path.exists() => {
-                log::info!("Previous cache backup file found");
-            }
             Some(saved) if saved == write_timestamp && backup_path.exists() => {}
             _ if is_original_cache(cache_path) => {
                 log::info!(
                     "Redscript cache file is not ours, copying it to {}",
                     backup_path.display()
                 );
-                if backup_path.exists() {
-                    fs::remove_file(&backup_path).context("Failed to remove a stale backup file")?;
-                }
-                write_timestamp.write(&mut *ts_file)?;
                 copy_file(cache_path, &backup_path).context("Failed to copy the cache file")?;
+                write_timestamp.write(&mut *ts_file)?;
             }
             _ if backup_path.exists() => {
-                log::info!("Redscript cache file was left by an interrupted compilation, using the backup file");
+                log::info!("Previous cache backup file found");
             }
             _ => {
                 return Err(anyhow::anyhow!(
-- 
2.43.0


From d8ef5e70882941b83ffcbd408614f79244b6bc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:29 +0000
Subject: [PATCH 30/38] fix: do not copy the backup to itself when another run
 removes it meanwhile

---
 scc/lib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 5eca4d7..a237cc5 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -70,7 +70,7 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
     let fallback_backup_path = settings.r6_dir.join("cache").join(BACKUP_FILE_NAME);
     let output_cache_path = settings.output_cache_file.as_deref().unwrap_or(&cache_path);
 
-    if fallback_backup_path.exists() && !backup_path.exists() {
+    if fallback_backup_path != backup_path && fallback_backup_path.exists() && !backup_path.exists() {
         log::info!("Re-initializing backup file from {}", fallback_backup_path.display());
         copy_file(&fallback_backup_path, &backup_path).context("Failed to copy the backup file")?;
     }
-- 
2.43.0


From 483e323b3295413e62afbfff6db2cc866c6abaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 31/38] fix: report texts and lists too long for the format
 instead of panicking

---
 core/src/encode.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/core/src/encode.rs b/core/src/encode.rs
index 8bfa701..78d0c10 100644
--- a/core/src/encode.rs
+++ b/core/src/encode.rs
@@ -1,5 +1,4 @@
 use std::convert::{TryFrom, TryInto};
-use std::fmt::Debug;
 use std::io;
 
 use byteorder::{LittleEndian, WriteBytesExt};
@@ -113,11 +112,12 @@ pub trait EncodeExt: io::Write + Sized {
         Ok(())
     }
 
-    fn encode_slice_prefixed<S: Encode + TryFrom<usize>, A: Encode>(&mut self, value: &[A]) -> io::Result<()>
-    where
-        S::Error: Debug,
-    {
-        self.encode::<S>(&value.len().try_into().expect("Size overflow"))?;
+    fn encode_slice_prefixed<S: Encode + TryFrom<usize>, A: Encode>(&mut self, value: &[A]) -> io::Result<()> {
+        let size = value
+            .len()
+            .try_into()
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "Size overflow"))?;
+        self.encode::<S>(&size)?;
         self.encode_slice(value)
     }
 
@@ -125,10 +125,7 @@ pub trait EncodeExt: io::Write + Sized {
         self.write_all(value.as_bytes())
     }
 
-    fn encode_str_prefixed<S: Encode + TryFrom<usize>>(&mut self, value: &str) -> io::Result<()>
-    where
-        S::Error: Debug,
-    {
+    fn encode_str_prefixed<S: Encode + TryFrom<usize>>(&mut self, value: &str) -> io::Result<()> {
         self.encode_slice_prefixed::<S, u8>(value.as_bytes())
     }
 }
-- 
2.43.0


From f8a5d8798182f4773986eab5d83618ec8302d0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 32/38] fix: refuse to write strings with a zero, which ends
 them in the file

---
 core/src/encode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/encode.rs b/core/src/encode.rs
index 78d0c10..7f223b4 100644
--- a/core/src/encode.rs
+++ b/core/src/encode.rs
@@ -87,6 +87,9 @@ impl Encode for f32 {
 impl Encode for &str {
     #[inline]
     fn encode<O: io::Write>(&self, output: &mut O) -> io::Result<()> {
+        if self.as_bytes().contains(&0) {
+            return Err(io::Error::new(io::ErrorKind::InvalidInput, "Zero in a string"));
+        }
         output.write_all(self.as_bytes())?;
         output.write_u8(0)
     }
-- 
2.43.0


From 1efb2deacb5a0dd6ed2113940bd1148b3f1b6491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 33/38] fix: do not panic on source files with names that are
 not UTF-8

---
 core/src/definition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/definition.rs b/core/src/definition.rs
index f996c17..50dc248 100644
--- a/core/src/definition.rs
+++ b/core/src/definition.rs
@@ -595,7 +595,7 @@ impl Encode for SourceFile {
     fn encode<O: io::Write>(&self, output: &mut O) -> io::Result<()> {
         output.encode(&self.id)?;
         output.encode(&self.path_hash)?;
-        output.encode_str_prefixed::<u16>(&self.path.to_str().unwrap().replace('/', "\\"))
+        output.encode_str_prefixed::<u16>(&self.path.to_string_lossy().replace('/', "\\"))
     }
 }
 
-- 
2.43.0


From 2a16becfdf7c43091b86d021fd87e6755bdd43b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 34/38] fix: reject new with more values than the instruction
 can hold

---
 compiler/src/typechecker.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/src/typechecker.rs b/compiler/src/typechecker.rs
index 7625fdd..45868e7 100644
--- a/compiler/src/typechecker.rs
+++ b/compiler/src/typechecker.rs
@@ -248,6 +248,10 @@ impl<'a> TypeChecker<'a> {
                         if fields.len() != args.len() {
                             return Err(Cause::InvalidArgCount(type_name.pretty(), fields.len()).with_span(*span));
                         }
+                        if args.len() > usize::from(u8::MAX) {
+                            let cause = Cause::UnsupportedOperation("passing over 255 values", type_name.pretty());
+                            return Err(cause.with_span(*span));
+                        }
                         let mut checked_args = Vec::with_capacity(args.len());
                         for (arg, field_idx) in args.iter().zip(&fields) {
                             let field = self.pool.field(*field_idx)?;
-- 
2.43.0


From 985daf3cf96cee0872892d0134092da711763c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 35/38] fix: reject functions with more code than a location
 can address

---
 compiler/src/assembler.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/src/assembler.rs b/compiler/src/assembler.rs
index 2692d3e..0f54e9a 100644
--- a/compiler/src/assembler.rs
+++ b/compiler/src/assembler.rs
@@ -603,9 +603,16 @@ impl<'a> Assembler<'a> {
         scope: &mut Scope,
         pool: &mut ConstantPool,
     ) -> Result<Code<Offset>, Error> {
+        let span = seq.exprs.first().map(Expr::span).unwrap_or_default();
         let mut assembler = Self::new(files);
         assembler.assemble_seq(seq, scope, pool, None)?;
         assembler.emit(Instr::Nop);
+
+        // locations in the code have 16 bits
+        let size: u32 = assembler.instructions.iter().map(|i| u32::from(i.size())).sum();
+        if size > u32::from(u16::MAX) {
+            return Err(Cause::UnsupportedFeature("a function with over 64KB of code").with_span(span));
+        }
         Ok(assembler.into_code())
     }
 }
-- 
2.43.0


From ea62b04b2314a10ec48939ddbc5716adc14d7910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 36/38] fix: reject the character zero in literals

---
 compiler/src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/src/parser.rs b/compiler/src/parser.rs
index 859e28e..baab2af 100644
--- a/compiler/src/parser.rs
+++ b/compiler/src/parser.rs
@@ -228,7 +228,7 @@ peg::parser! {
             }
 
         rule escaped_char() -> char
-            = !['\\' | '\"'] c:[_] { c }
+            = !['\\' | '\"' | '\0'] c:[_] { c }
             / r"\n" { '\n' }
             / r"\r" { '\r' }
             / r"\t" { '\t' }
@@ -236,7 +236,8 @@ peg::parser! {
             / r#"\""# { '\"' }
             / r"\\" { '\\' }
             / "\\u{" u:$(['a'..='f' | 'A'..='F' | '0'..='9']*<1,6>) "}" {?
-                char::from_u32(u32::from_str_radix(u, 16).unwrap()).ok_or("unicode scalar value")
+                // the strings of a script cache end at a zero
+                char::from_u32(u32::from_str_radix(u, 16).unwrap()).filter(|c| *c != '\0').ok_or("unicode scalar value")
             }
 
         rule string_contents() -> String
-- 
2.43.0


From 7ad2b49ba6d2671b522200571e17deb1f7d4610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 37/38] fix: reject floating-point literals that are too large

---
 compiler/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/parser.rs b/compiler/src/parser.rs
index baab2af..1b2f203 100644
--- a/compiler/src/parser.rs
+++ b/compiler/src/parser.rs
@@ -219,8 +219,8 @@ peg::parser! {
 
         rule number() -> Constant
             = str:$(['-']? ['0'..='9' | '.']+) unsigned: $(['u'])? postfix:$(['l' | 'd'])?
-            {? if postfix == Some("d") { str.parse::<f64>().or(Err("valid double")).map(Constant::F64) }
-               else if str.contains('.') { str.parse::<f32>().or(Err("valid float")).map(Constant::F32) }
+            {? if postfix == Some("d") { str.parse::<f64>().ok().filter(|v| v.is_finite()).ok_or("valid double").map(Constant::F64) }
+               else if str.contains('.') { str.parse::<f32>().ok().filter(|v| v.is_finite()).ok_or("valid float").map(Constant::F32) }
                else if postfix == Some("l") && unsigned.is_some() { str.parse::<u64>().or(Err("valid unsigned 64-bit int")).map(Constant::U64) }
                else if unsigned.is_some() { str.parse::<u32>().or(Err("valid unsigned 32-bit int")).map(Constant::U32) }
                else if postfix == Some("l") { str.parse::<i64>().or(Err("valid 64-bit int")).map(Constant::I64) }
-- 
2.43.0


From 85a4c9ec16cd11ce28f218e88b9e8774e977e737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:17 +0000
Subject: [PATCH 38/38] fix: redscript-cli reports success when its output
 could not be written

Errors of the output were logged as ones of a definition, and the buffered
rest was written by the destructor, which ignores errors.
---
 cli/src/main.rs | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index a33aa12..171a7cd 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -1,14 +1,15 @@
 use std::fs::{self, File};
-use std::io;
+use std::io::{self, Write};
 use std::path::{Path, PathBuf};
 
 use anyhow::Context;
 use argh::FromArgs;
 use flexi_logger::{LevelFilter, LogSpecBuilder, Logger};
-use redscript::bundle::ScriptBundle;
-use redscript::definition::AnyDefinition;
+use redscript::bundle::{ConstantPool, ScriptBundle};
+use redscript::definition::{AnyDefinition, Definition};
 use redscript_compiler::source_map::{Files, SourceFilter};
 use redscript_compiler::unit::CompilationUnit;
+use redscript_decompiler::error::Error;
 use redscript_decompiler::files::FileIndex;
 use redscript_decompiler::print::{write_definition, OutputMode};
 use vmap::Map;
@@ -115,9 +116,9 @@ fn compile(opts: CompileOpts) -> anyhow::Result<()> {
     {
         Ok(_) => {
             let file = File::create(&opts.output).context("Failed to create a file at the specified output path")?;
-            bundle
-                .save(&mut io::BufWriter::new(file))
-                .context("Failed to write the script cache")?;
+            let mut output = io::BufWriter::new(file);
+            bundle.save(&mut output).context("Failed to write the script cache")?;
+            output.flush().context("Failed to write the script cache")?;
 
             log::info!("Output successfully saved to {}", opts.output.display());
         }
@@ -148,10 +149,9 @@ fn decompile(opts: DecompileOpts) -> anyhow::Result<()> {
             let file = File::create(path).context("Failed to create a file at the specified output path")?;
             let mut output = io::BufWriter::new(file);
             for def in entry.definitions {
-                if let Err(err) = write_definition(&mut output, def, pool, 0, mode) {
-                    log::error!("Failed to process a definition: {err}");
-                }
+                process_definition(&mut output, def, pool, mode)?;
             }
+            output.flush().context("Failed to write the output")?;
         }
     } else {
         let file = File::create(&opts.output).context("Failed to create a file at the specified output path")?;
@@ -162,15 +162,31 @@ fn decompile(opts: DecompileOpts) -> anyhow::Result<()> {
                 || matches!(&def.value, AnyDefinition::Enum(_))
                 || matches!(&def.value, AnyDefinition::Function(_))
         }) {
-            if let Err(err) = write_definition(&mut output, def, pool, 0, mode) {
-                log::error!("Failed to process a definition: {err}");
-            }
+            process_definition(&mut output, def, pool, mode)?;
         }
+        output.flush().context("Failed to write the output")?;
     }
     log::info!("Output successfully saved to {}", opts.output.display());
     Ok(())
 }
 
+/// Skips definitions that cannot be processed, only fails when the output cannot be written.
+fn process_definition<W: Write>(
+    output: &mut W,
+    def: &Definition,
+    pool: &ConstantPool,
+    mode: OutputMode,
+) -> anyhow::Result<()> {
+    match write_definition(output, def, pool, 0, mode) {
+        Err(Error::IoError(err)) => Err(err).context("Failed to write the output"),
+        Err(err) => {
+            log::error!("Failed to process a definition: {err}");
+            Ok(())
+        }
+        Ok(()) => Ok(()),
+    }
+}
+
 fn lint(opts: LintOpts) -> anyhow::Result<()> {
     match opts.bundle {
         Some(bundle_path) => {
-- 
2.43.0

