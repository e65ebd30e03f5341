From 66c6152d7628635ffbd7d0212a7ac38eeae93758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 01/49] fix: return 0 from DOUBLE functions that do not assign
 a result

---
 core/src/compiler/top.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 670dba7..82998ab 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1151,7 +1151,12 @@ fn compile_user_callable(
         // of the result to properly allocate it.
         let value = match vtype {
             ExprType::Boolean | ExprType::Integer => 0,
-            ExprType::Double => ctx.codegen.get_constant(ConstantDatum::Double(0.0), key_pos)?,
+            ExprType::Double => {
+                // Intern the default value to keep the constants table layout stable, but do not
+                // load its index: registers hold the raw bits of a double and 0.0 is all zeros.
+                ctx.codegen.get_constant(ConstantDatum::Double(0.0), key_pos)?;
+                0
+            }
             ExprType::Text => {
                 ctx.codegen.get_constant(ConstantDatum::Text(String::new()), key_pos)?
             }
-- 
2.43.0


From ce25cf0bf0e104694ae9f6274ab4de34550be017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:37 +0000
Subject: [PATCH 02/49] fix: do not clobber live registers when calling argless
 functions

---
 core/src/compiler/exprs.rs | 15 +++++++++++++--
 core/src/compiler/syms.rs  |  8 ++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/core/src/compiler/exprs.rs b/core/src/compiler/exprs.rs
index d965243..fdbb9b5 100644
--- a/core/src/compiler/exprs.rs
+++ b/core/src/compiler/exprs.rs
@@ -709,8 +709,19 @@ pub(super) fn compile_expr(
                 }
 
                 if md.is_user_defined() {
-                    let addr = codegen.emit(bytecode::make_nop(), span.pos);
-                    codegen.add_fixup(addr, Fixup::Call(reg, key));
+                    if symtable.is_last_in_use(reg) {
+                        let addr = codegen.emit(bytecode::make_nop(), span.pos);
+                        codegen.add_fixup(addr, Fixup::Call(reg, key));
+                    } else {
+                        // The callee's frame starts at the return register so, to avoid clobbering
+                        // any registers in use by the caller, the call must happen on a temporary
+                        // that lives past all of them.
+                        let mut scope = symtable.temp_scope();
+                        let temp = scope.alloc().map_err(|e| Error::from_syms(e, span.pos))?;
+                        let addr = codegen.emit(bytecode::make_nop(), span.pos);
+                        codegen.add_fixup(addr, Fixup::Call(temp, key));
+                        codegen.emit(bytecode::make_move(reg, temp), span.pos);
+                    }
                 } else {
                     let upcall = codegen.get_upcall(key, Some(etype), span.pos)?;
                     let (is_global, _) = reg.to_parts();
diff --git a/core/src/compiler/syms.rs b/core/src/compiler/syms.rs
index d780b99..9813160 100644
--- a/core/src/compiler/syms.rs
+++ b/core/src/compiler/syms.rs
@@ -470,6 +470,14 @@ impl<'temp, 'local> TempSymtable<'temp, 'local> {
         self.symtable.get_callable(key)
     }
 
+    /// Returns true if `reg` is the last register in use by the current scope, be it a temporary or
+    /// a local variable, which means that all registers past it are free.
+    pub(crate) fn is_last_in_use(&self, reg: Register) -> bool {
+        let (is_global, index) = reg.to_parts();
+        let in_use = self.symtable.locals.len() + usize::from(*self.next_temp.borrow());
+        !is_global && usize::from(index) + 1 == in_use
+    }
+
     /// Enters a new temporary scope.
     pub(crate) fn temp_scope(&self) -> TempScope {
         let nlocals = u8::try_from(self.symtable.locals.len())
-- 
2.43.0


From 32e97de3474563c0c17de9b5bbe738e72be9819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 03/49] fix: hide partial results of assignments to globals
 from called functions

---
 core/src/compiler/top.rs | 67 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 65 insertions(+), 2 deletions(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 82998ab..e08e07a 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -155,6 +155,62 @@ fn expr_references_symbol(expr: &Expr, target_key: &SymbolKey) -> bool {
     false
 }
 
+/// Returns true if evaluating `expr` may execute user-defined code.
+fn expr_calls_user_callable(expr: &Expr, symtable: &LocalSymtable<'_>) -> bool {
+    let is_user_callable =
+        |key: SymbolKey| symtable.get_callable(&key).is_some_and(|md| md.is_user_defined());
+
+    let mut stack = vec![expr];
+    while let Some(expr) = stack.pop() {
+        match expr {
+            Expr::Boolean(..) | Expr::Double(..) | Expr::Integer(..) | Expr::Text(..) => {}
+
+            Expr::Symbol(span) => {
+                if is_user_callable(SymbolKey::from(&span.vref.name)) {
+                    return true;
+                }
+            }
+
+            Expr::Negate(span) | Expr::Not(span) => {
+                stack.push(&span.expr);
+            }
+
+            Expr::Call(span) => {
+                if is_user_callable(SymbolKey::from(&span.vref.name)) {
+                    return true;
+                }
+                for arg in &span.args {
+                    if let Some(arg_expr) = &arg.expr {
+                        stack.push(arg_expr);
+                    }
+                }
+            }
+
+            Expr::Add(span)
+            | Expr::And(span)
+            | Expr::Divide(span)
+            | Expr::Equal(span)
+            | Expr::Greater(span)
+            | Expr::GreaterEqual(span)
+            | Expr::Less(span)
+            | Expr::LessEqual(span)
+            | Expr::Modulo(span)
+            | Expr::Multiply(span)
+            | Expr::NotEqual(span)
+            | Expr::Or(span)
+            | Expr::Power(span)
+            | Expr::ShiftLeft(span)
+            | Expr::ShiftRight(span)
+            | Expr::Subtract(span)
+            | Expr::Xor(span) => {
+                stack.push(&span.lhs);
+                stack.push(&span.rhs);
+            }
+        }
+    }
+    false
+}
+
 /// Compiles an assignment statement `span` into the `codegen` block.
 fn compile_assignment(
     codegen: &mut Codegen,
@@ -190,12 +246,19 @@ fn compile_assignment(
         Err(e) => return Err(Error::from_syms(e, vref_pos)),
     };
 
-    let has_self_reference = was_defined && expr_references_symbol(&expr, &key);
+    // Evaluating an expression directly into its destination exposes partial results.  We cannot
+    // allow this if the expression itself reads the variable nor, for globals, if any user-defined
+    // code called by the expression could do so.  (Lone calls only write their final result.)
+    let (is_global, _) = reg.to_parts();
+    let is_lone_call = matches!(expr, Expr::Call(..) | Expr::Symbol(..));
+    let needs_temp = was_defined
+        && (expr_references_symbol(&expr, &key)
+            || (is_global && !is_lone_call && expr_calls_user_callable(&expr, symtable)));
 
     if let Some(etype) = etype {
         // The destination variable already exists.  Try to compile the expression into its target
         // type and fail otherwise with a better error message.
-        let result = if has_self_reference {
+        let result = if needs_temp {
             let mut frozen = symtable.frozen();
             let mut scope = frozen.temp_scope();
             let temp = scope.alloc().map_err(|e| Error::from_syms(e, vref_pos))?;
-- 
2.43.0


From c27131d72b748f8c9b91bb200fc0a663a5324875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 04/49] fix: report an error when negating the smallest integer
 in DATA and STEP

---
 core/src/parser.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 30e75d6..b056dd2 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -478,10 +478,18 @@ impl<'a> Parser<'a> {
                             value: -d,
                             pos: token_span.pos,
                         }))),
-                        Token::Integer(i) => values.push(Some(Expr::Integer(IntegerSpan {
-                            value: -i,
-                            pos: token_span.pos,
-                        }))),
+                        Token::Integer(i) => match i.checked_neg() {
+                            Some(value) => values.push(Some(Expr::Integer(IntegerSpan {
+                                value,
+                                pos: token_span.pos,
+                            }))),
+                            None => {
+                                return Err(Error::Bad(
+                                    token_span.pos,
+                                    "Integer overflow".to_owned(),
+                                ));
+                            }
+                        },
                         _ => {
                             return Err(Error::Bad(
                                 token_span.pos,
@@ -1234,11 +1242,14 @@ impl<'a> Parser<'a> {
                     }
                     Token::Integer(i) => {
                         let peeked = self.lexer.consume_peeked();
-                        Ok((
-                            Expr::Integer(IntegerSpan { value: -i, pos: peeked.pos }),
-                            (-i).cmp(&0),
-                            false,
-                        ))
+                        match i.checked_neg() {
+                            Some(value) => Ok((
+                                Expr::Integer(IntegerSpan { value, pos: peeked.pos }),
+                                value.cmp(&0),
+                                false,
+                            )),
+                            None => Err(Error::Bad(peeked.pos, "Integer overflow".to_owned())),
+                        }
                     }
                     _ => Err(Error::Bad(peeked.pos, "STEP needs a literal number".to_owned())),
                 }
-- 
2.43.0


From 86c60e328db30cd24be1b1a1dd18d3dd74a53eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 05/49] fix: make ON ERROR RESUME NEXT honor block and callable
 boundaries

When the failing statement was the last one in a block, execution resumed at the next
statement in code order instead of at the next statement to execute: an ELSE branch, the
next CASE, the code past a loop or past the current callable, the body of a callable, or
even past the end of the program.
---
 core/src/compiler/codegen.rs | 17 +++++++++++++----
 core/src/compiler/top.rs     | 31 ++++++++++++++++++++++++++-----
 core/src/vm/mod.rs           |  4 +++-
 3 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/core/src/compiler/codegen.rs b/core/src/compiler/codegen.rs
index 45505bf..a93f2b9 100644
--- a/core/src/compiler/codegen.rs
+++ b/core/src/compiler/codegen.rs
@@ -16,7 +16,7 @@
 
 //! Code generation for the EndBASIC compiler.
 
-use crate::ast::ExprType;
+use crate::ast::{ExprType, VarRef};
 use crate::bytecode::{self, ErrorHandlerMode, Register};
 use crate::compiler::ids::HashMapWithIds;
 use crate::compiler::{Error, Result, SymbolKey};
@@ -199,12 +199,21 @@ impl Codegen {
 
     /// Applies all registered fixups to the generated code.
     fn apply_fixups(&mut self) -> Result<()> {
-        for (addr, fixup) in self.fixups.drain() {
+        // Process the fixups in program order so that, if there are errors, we always report the
+        // first one.
+        let mut fixups = self.fixups.drain().collect::<Vec<_>>();
+        fixups.sort_unstable_by_key(|(addr, _)| *addr);
+        for (addr, fixup) in fixups {
             let pos = self.instrs[addr].linecol;
             let instr = match fixup {
                 Fixup::Call(reg, key) => {
-                    let (target, _end) =
-                        self.user_callables_addresses.get(&key).expect("Must be present");
+                    // The callable may have been declared but never defined.
+                    let Some((target, _end)) = self.user_callables_addresses.get(&key) else {
+                        return Err(Error::UndefinedSymbol(
+                            pos,
+                            VarRef::new(key.to_string(), None),
+                        ));
+                    };
                     bytecode::make_call(reg, Self::make_target(*target, pos)?)
                 }
                 Fixup::Gosub(label) => {
diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index e08e07a..54eae0e 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -540,7 +540,9 @@ fn compile_select(
         }
 
         if case.has_next_case {
-            end_jumps.push(ctx.codegen.emit(bytecode::make_nop(), end_pos));
+            let end_jump = ctx.codegen.emit(bytecode::make_nop(), end_pos);
+            ctx.codegen.mark_statement_start(end_jump);
+            end_jumps.push(end_jump);
         }
     }
 
@@ -581,7 +583,8 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
             let end_pos = LineCol { line: 0, col: 0 };
             let target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(end_pos, start_pc))?;
-            ctx.codegen.emit(bytecode::make_jump(target), end_pos);
+            let jump_pc = ctx.codegen.emit(bytecode::make_jump(target), end_pos);
+            ctx.codegen.mark_statement_start(jump_pc);
             ctx.codegen.next_pc()
         }
 
@@ -600,7 +603,8 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
             }
             let start_target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
-            ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+            let jump_pc = ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+            ctx.codegen.mark_statement_start(jump_pc);
             let end_addr = ctx.codegen.next_pc();
             let end_target =
                 u16::try_from(end_addr).map_err(|_| Error::TargetTooFar(guard_pos, end_addr))?;
@@ -618,7 +622,8 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
             }
             let start_target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
-            ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+            let jump_pc = ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+            ctx.codegen.mark_statement_start(jump_pc);
             let end_addr = ctx.codegen.next_pc();
             let end_target =
                 u16::try_from(end_addr).map_err(|_| Error::TargetTooFar(guard_pos, end_addr))?;
@@ -631,7 +636,9 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
             for stmt in span.body {
                 compile_stmt(ctx, symtable, stmt)?;
             }
+            let guard_pc = ctx.codegen.next_pc();
             let (cond_reg, guard_pos) = compile_guard(ctx, symtable, guard)?;
+            ctx.codegen.mark_statement_start(guard_pc);
             let start_target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
             ctx.codegen.emit(bytecode::make_jump_if_false(cond_reg, start_target), guard_pos);
@@ -643,7 +650,9 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
             for stmt in span.body {
                 compile_stmt(ctx, symtable, stmt)?;
             }
+            let guard_pc = ctx.codegen.next_pc();
             let (cond_reg, guard_pos) = compile_guard(ctx, symtable, guard)?;
+            ctx.codegen.mark_statement_start(guard_pc);
             let jump_end_pc = ctx.codegen.emit(bytecode::make_nop(), guard_pos);
             let start_target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
@@ -714,11 +723,13 @@ fn compile_for(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: ForSpa
         compile_stmt(ctx, symtable, stmt)?;
     }
 
+    let next_pc = ctx.codegen.next_pc();
     compile_assignment(
         &mut ctx.codegen,
         symtable,
         AssignmentSpan { vref: span.iter, vref_pos: span.iter_pos, expr: span.next },
     )?;
+    ctx.codegen.mark_statement_start(next_pc);
 
     let start_target =
         u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(cond_pos, start_pc))?;
@@ -767,6 +778,7 @@ fn compile_if(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: IfSpan)
 
         if !is_last {
             let end_pc = ctx.codegen.emit(bytecode::make_nop(), guard_pos);
+            ctx.codegen.mark_statement_start(end_pc);
             end_pcs.push(end_pc);
         }
 
@@ -809,7 +821,8 @@ fn compile_while(
 
     let start_target =
         u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
-    ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+    let jump_pc = ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+    ctx.codegen.mark_statement_start(jump_pc);
 
     let end_addr = ctx.codegen.next_pc();
     let end_target =
@@ -1187,6 +1200,7 @@ fn compile_user_callable(
     }
 
     let skip_pc = ctx.codegen.emit(bytecode::make_nop(), callable.name_pos);
+    ctx.codegen.mark_statement_start(skip_pc);
 
     let start_pc = ctx.codegen.next_pc();
 
@@ -1199,6 +1213,10 @@ fn compile_user_callable(
     });
     debug_assert!(ctx.callable_exit_jumps.is_empty());
 
+    // The callable's body cannot exit any loops that enclose its definition.
+    let do_exit_stack = std::mem::take(&mut ctx.do_exit_stack);
+    let for_exit_stack = std::mem::take(&mut ctx.for_exit_stack);
+
     let mut symtable = symtable.enter_scope();
 
     // The call protocol expects the return value to be in the first local variable
@@ -1241,12 +1259,15 @@ fn compile_user_callable(
     }
 
     let return_addr = ctx.codegen.emit(bytecode::make_return(), callable.end_pos);
+    ctx.codegen.mark_statement_start(return_addr);
     for (addr, pos) in ctx.callable_exit_jumps.drain(..) {
         let target =
             u16::try_from(return_addr).map_err(|_| Error::TargetTooFar(pos, return_addr))?;
         ctx.codegen.patch(addr, bytecode::make_jump(target));
     }
     ctx.current_callable = None;
+    ctx.do_exit_stack = do_exit_stack;
+    ctx.for_exit_stack = for_exit_stack;
     let skip_addr = ctx.codegen.next_pc();
     ctx.codegen.define_user_callable(key, start_pc, skip_addr);
 
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 6b6490b..34ad63a 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -350,7 +350,9 @@ impl Vm {
                 true
             }
             ErrorHandler::ResumeNext => {
-                let mut next_pc = image.code.len();
+                // If there is no statement left to execute, resume at the EOF instruction that always
+                // terminates the image.
+                let mut next_pc = image.code.len() - 1;
                 for (idx, meta) in image.debug_info.instrs.iter().enumerate().skip(pc + 1) {
                     if meta.is_stmt_start {
                         next_pc = idx;
-- 
2.43.0


From 78d8cd71047aea28c46d865141a98252aa14bd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 06/49] fix: raise an error when an array does not fit in
 memory

---
 core/src/vm/context.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index c7ef659..471a49f 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -22,7 +22,7 @@ use crate::bytecode::{
     self, ErrorHandlerMode, ExitCode, Opcode, Register, TaggedRegisterRef, opcode_of,
 };
 use crate::image::Image;
-use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum};
+use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum, HeapOverflowError};
 use crate::num::unchecked_usize_as_u8;
 use crate::reader::LineCol;
 
@@ -630,7 +630,19 @@ impl Context {
                 Ok(n) => n,
             };
             dimensions.push(dim);
-            total *= dim;
+            total = match total.checked_mul(dim) {
+                Some(total) => total,
+                None => {
+                    self.set_exception(HeapOverflowError.to_string());
+                    return;
+                }
+            };
+        }
+
+        // Probe for enough memory first because failing to allocate the array is fatal otherwise.
+        if Vec::<u64>::new().try_reserve_exact(total).is_err() {
+            self.set_exception(HeapOverflowError.to_string());
+            return;
         }
 
         let values = match subtype {
-- 
2.43.0


From a1b9dccc1a15b51c2549b6db532dd602afdcd326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 07/49] fix: leave abandoned callables when handling errors and
 when stopping

Error handlers run in the scope that armed them, and stopping a program within a callable
lets later code use the program's variables.
---
 core/src/vm/context.rs | 47 +++++++++++++++++++++++++++++++++++-------
 core/src/vm/mod.rs     | 12 ++++++-----
 2 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 471a49f..97f9024 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -68,7 +68,9 @@ pub(super) enum ErrorHandler {
     /// TODO(jmmv): Revisit how `active` is cleared once we implement the `RESUME` statement.
     /// For now, a jump handler must be explicitly re-armed with another `ON ERROR` statement
     /// after it handles an exception.
-    Jump { active: bool, addr: Address },
+    ///
+    /// `depth` is the number of user-defined callables that were active when the handler was armed.
+    Jump { active: bool, addr: Address, depth: usize },
 
     /// Errors resume execution at the next statement.
     ResumeNext,
@@ -260,12 +262,39 @@ impl Context {
         self.err_handler = ErrorHandler::None;
     }
 
-    /// Marks the current jump-based error handler as active.
-    pub(super) fn set_error_handler_active(&mut self) {
-        self.err_handler = match self.err_handler {
-            ErrorHandler::Jump { active: false, addr } => ErrorHandler::Jump { active: true, addr },
+    /// Returns the number of user-defined callables that are currently active.
+    fn call_depth(&self) -> usize {
+        self.call_stack.iter().filter(|f| f.ret_reg.is_some()).count()
+    }
+
+    /// Transfers control to the current jump-based error handler and marks it as active.
+    ///
+    /// Any user-defined callables entered after the handler was armed are abandoned so that the
+    /// handler runs with access to the variables of the scope that armed it.
+    pub(super) fn enter_error_handler(&mut self) {
+        let (addr, depth) = match self.err_handler {
+            ErrorHandler::Jump { active: false, addr, depth } => (addr, depth),
             _ => unreachable!("Only inactive jump handlers can be activated"),
         };
+        let mut abandoned = self.call_depth().saturating_sub(depth);
+        while abandoned > 0 {
+            let frame = self.call_stack.pop().expect("Must have as many frames as callables");
+            self.fp = frame.old_fp;
+            if frame.ret_reg.is_some() {
+                abandoned -= 1;
+            }
+        }
+        self.err_handler = ErrorHandler::Jump { active: true, addr, depth };
+        self.pc = addr;
+    }
+
+    /// Abandons all active callables and subroutines and moves execution to `pc`, leaving the
+    /// context ready to run program-level code.
+    pub(super) fn unwind(&mut self, pc: Address) {
+        self.pc = pc;
+        self.fp = usize::from(Register::MAX_GLOBAL);
+        self.call_stack.clear();
+        self.yield_pending = false;
     }
 
     /// Dereferences a pointer register as a string.
@@ -1087,9 +1116,11 @@ impl Context {
         let (mode, target) = bytecode::parse_set_error_handler(instr);
         self.err_handler = match mode {
             ErrorHandlerMode::None => ErrorHandler::None,
-            ErrorHandlerMode::Jump => {
-                ErrorHandler::Jump { active: false, addr: usize::from(target) }
-            }
+            ErrorHandlerMode::Jump => ErrorHandler::Jump {
+                active: false,
+                addr: usize::from(target),
+                depth: self.call_depth(),
+            },
             ErrorHandlerMode::ResumeNext => ErrorHandler::ResumeNext,
         };
         self.pc += 1;
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 34ad63a..5daf86f 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -298,7 +298,7 @@ impl Vm {
     /// Parks execution at the current EOF instruction so later appended code can resume.
     fn park_at_eof(&mut self, image: &Image) {
         debug_assert!(!image.code.is_empty());
-        self.context.set_pc(image.code.len() - 1);
+        self.context.unwind(image.code.len() - 1);
     }
 
     /// Constructs a `Scope` for an upcall with arguments starting at `reg`.
@@ -344,9 +344,8 @@ impl Vm {
         match self.context.error_handler() {
             ErrorHandler::None => false,
             ErrorHandler::Jump { active: true, .. } => false,
-            ErrorHandler::Jump { active: false, addr } => {
-                self.context.set_error_handler_active();
-                self.context.set_pc(addr);
+            ErrorHandler::Jump { active: false, .. } => {
+                self.context.enter_error_handler();
                 true
             }
             ErrorHandler::ResumeNext => {
@@ -455,7 +454,10 @@ impl Vm {
                     self.park_at_eof(image);
                     return StopReason::End(code);
                 }
-                InternalStopReason::Eof => return StopReason::Eof,
+                InternalStopReason::Eof => {
+                    self.park_at_eof(image);
+                    return StopReason::Eof;
+                }
                 InternalStopReason::Exception(pc, e) => {
                     let pos = image.debug_info.instrs[pc].linecol;
                     if !self.handle_exception(image, pc, pos, e.clone()) {
-- 
2.43.0


From cefe7e37c63271ced73d37ac341253775d222d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 08/49] fix: grow the registers file before handing it to
 upcalls

---
 core/src/vm/context.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 97f9024..42a44bd 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -395,6 +395,13 @@ impl Context {
         assert!(!is_global);
         let index = usize::from(index);
 
+        // The scope accesses the registers directly, so make sure that all the registers that the
+        // current frame can possibly reference exist even if they were never set.
+        let frame_end = self.fp + usize::from(u8::MAX);
+        if self.regs.len() < frame_end {
+            self.regs.resize(frame_end, 0);
+        }
+
         Scope {
             regs: &mut self.regs,
             constants,
-- 
2.43.0


From 54e38bfb1f62ca5aa8a25f22206be097f8afb803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 09/49] fix: reject callables with duplicate parameter names
 instead of panicking

---
 core/src/compiler/top.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 54eae0e..5fd7c85 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1245,7 +1245,10 @@ fn compile_user_callable(
         ctx.codegen.emit(bytecode::make_load_integer(ret_reg, value), key_pos);
     }
     for param in callable.params {
-        let key = SymbolKey::from(param.name);
+        let key = SymbolKey::from(&param.name);
+        if symtable.contains_local(&key) {
+            return Err(Error::AlreadyDefined(key_pos, param));
+        }
         symtable
             .put_local(
                 key.clone(),
-- 
2.43.0


From 556324bde4c7706256f9997f75afca722beb8012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:25 +0000
Subject: [PATCH 10/49] fix: reject dimension 0 in LBOUND and UBOUND instead of
 panicking

---
 std/src/arrays.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/arrays.rs b/std/src/arrays.rs
index 9b806f4..46c5685 100644
--- a/std/src/arrays.rs
+++ b/std/src/arrays.rs
@@ -37,7 +37,7 @@ fn parse_bound_args(scope: &Scope<'_>) -> CallResult<(Vec<usize>, usize)> {
     if scope.nargs() == 2 {
         let i = scope.get_integer(1);
 
-        if i < 0 {
+        if i < 1 {
             return Err(CallError::Syntax(
                 scope.get_pos(1),
                 format!("Dimension {} must be positive", i),
-- 
2.43.0


From f3486ca7b8af36e88d062484694b076b4435b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:25 +0000
Subject: [PATCH 11/49] fix: make ROUND handle numbers of decimals that
 overflow

---
 std/src/numerics.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/std/src/numerics.rs b/std/src/numerics.rs
index ff527fb..8c0a8e6 100644
--- a/std/src/numerics.rs
+++ b/std/src/numerics.rs
@@ -954,7 +954,15 @@ impl Callable for RoundFunction {
             debug_assert_eq!(2, scope.nargs());
             let decimals = scope.get_integer(1);
             let factor = 10f64.powi(decimals);
-            scope.return_double((value * factor).round() / factor)
+            let scaled = value * factor;
+            if !scaled.is_finite() {
+                // There are no digits to round away at such a small scale.
+                scope.return_double(value)
+            } else if factor == 0.0 {
+                scope.return_double(scaled)
+            } else {
+                scope.return_double(scaled.round() / factor)
+            }
         }
     }
 }
-- 
2.43.0


From 634f11c76da2e4d6d6d618bf4fe7033f31ed4eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:25 +0000
Subject: [PATCH 12/49] fix: make MIN and MAX handle infinite arguments

---
 std/src/numerics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/src/numerics.rs b/std/src/numerics.rs
index 8c0a8e6..d7a8608 100644
--- a/std/src/numerics.rs
+++ b/std/src/numerics.rs
@@ -648,7 +648,7 @@ impl Callable for MaxFunction {
     }
 
     fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
-        let mut max = f64::MIN;
+        let mut max = f64::NEG_INFINITY;
         for i in 0..(scope.nargs() as u8) {
             let n = scope.get_double(i);
             if n > max {
@@ -693,7 +693,7 @@ impl Callable for MinFunction {
     }
 
     fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
-        let mut min = f64::MAX;
+        let mut min = f64::INFINITY;
         for i in 0..(scope.nargs() as u8) {
             let n = scope.get_double(i);
             if n < min {
-- 
2.43.0


From 2adb9e22f5568eaf54c9c5a3c3194927bbd0ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:25 +0000
Subject: [PATCH 13/49] fix: reject unrepresentable durations in SLEEP and
 SOUND instead of panicking

---
 std/src/datetime.rs   | 5 ++++-
 std/src/sound/cmds.rs | 8 ++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/std/src/datetime.rs b/std/src/datetime.rs
index eaa2a74..5167203 100644
--- a/std/src/datetime.rs
+++ b/std/src/datetime.rs
@@ -153,8 +153,11 @@ impl Callable for SleepCommand {
             ));
         }
 
+        let duration = Duration::try_from_secs_f64(n)
+            .map_err(|e| CallError::Syntax(scope.get_pos(0), format!("Invalid sleep time: {}", e)))?;
+
         self.datetime
-            .sleep(Duration::from_secs_f64(n))
+            .sleep(duration)
             .await
             .map_err(|e| CallError::Syntax(scope.get_pos(0), e))
     }
diff --git a/std/src/sound/cmds.rs b/std/src/sound/cmds.rs
index ab3d3ef..86fcd06 100644
--- a/std/src/sound/cmds.rs
+++ b/std/src/sound/cmds.rs
@@ -139,10 +139,10 @@ impl Callable for SoundCommand {
             ));
         }
 
-        self.console
-            .borrow_mut()
-            .play_tone(Tone::square(pitch, Duration::from_secs_f64(duration)))
-            .await?;
+        let duration = Duration::try_from_secs_f64(duration)
+            .map_err(|e| CallError::Syntax(scope.get_pos(1), format!("Invalid duration: {}", e)))?;
+
+        self.console.borrow_mut().play_tone(Tone::square(pitch, duration)).await?;
         Ok(())
     }
 }
-- 
2.43.0


From ec65f18bea8f3ce03347801ad43da5c0613e01d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:37 +0000
Subject: [PATCH 14/49] fix: align PRINT zones by characters instead of bytes

---
 std/src/console/cmds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/cmds.rs b/std/src/console/cmds.rs
index c6b1786..4971762 100644
--- a/std/src/console/cmds.rs
+++ b/std/src/console/cmds.rs
@@ -590,7 +590,7 @@ impl Callable for PrintCommand {
                 ArgSep::End => break,
                 ArgSep::Long => {
                     text += " ";
-                    while !text.len().is_multiple_of(14) {
+                    while !text.chars().count().is_multiple_of(14) {
                         text += " ";
                     }
                 }
-- 
2.43.0


From a4607be29964ec4614ddc78f8c2ca74b65291bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:37 +0000
Subject: [PATCH 15/49] fix: format paragraphs on narrow consoles without
 panicking

---
 std/src/console/format.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/std/src/console/format.rs b/std/src/console/format.rs
index 971d4cf..17e6eba 100644
--- a/std/src/console/format.rs
+++ b/std/src/console/format.rs
@@ -89,7 +89,8 @@ fn refill_many<S: AsRef<str>, P: IntoIterator<Item = S>>(
             }
         }
 
-        let lines = refill(paragraph, width - 4 - indent.len() - extra_indent.len());
+        let lines =
+            refill(paragraph, width.saturating_sub(4 + indent.len() + extra_indent.len()));
         for line in lines {
             if line.is_empty() {
                 formatted.push(String::new());
-- 
2.43.0


From 7c738b94ade43fe3c81e465aaba91db8d85acd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:56 +0000
Subject: [PATCH 16/49] fix: hide the cursor when saving the screen in
 enter_alt

---
 std/src/console/graphics.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 60f693d..d8e5d98 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -558,6 +558,7 @@ where
             ));
         }
 
+        self.clear_cursor()?;
         let pixels = self.raster_ops.read_pixels(PixelsXY::new(0, 0), self.size_pixels)?;
         self.alt_backup = Some((
             pixels,
-- 
2.43.0


From 49949fcc8dca08f29a2eb0d86745e1f290278834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:59 +0000
Subject: [PATCH 17/49] fix: measure and truncate readline prompts by
 characters

---
 std/src/console/readline.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/std/src/console/readline.rs b/std/src/console/readline.rs
index a7fedfb..d5ef676 100644
--- a/std/src/console/readline.rs
+++ b/std/src/console/readline.rs
@@ -349,15 +349,15 @@ impl<'a, 'h> Readline<'a, 'h> {
         };
 
         let mut prompt = Cow::from(prompt);
-        let mut prompt_len = prompt.len();
+        let mut prompt_len = prompt.chars().count();
         if prompt_len >= console_width {
-            // TODO(jmmv): This slices by bytes and can split non-ASCII prompts.
             if console_width >= 5 {
-                prompt = Cow::from(format!("{}...", &prompt[0..console_width - 5]));
+                let start: String = prompt.chars().take(console_width - 5).collect();
+                prompt = Cow::from(format!("{}...", start));
             } else {
                 prompt = Cow::from("");
             }
-            prompt_len = prompt.len();
+            prompt_len = prompt.chars().count();
         }
 
         let input_width = {
-- 
2.43.0


From 9b41f6931212c397b3fc3a2d138e9bfb85f57880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 18/49] fix: do not leave abandoned lines in the readline
 history

---
 std/src/console/readline.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/std/src/console/readline.rs b/std/src/console/readline.rs
index d5ef676..d63a2fe 100644
--- a/std/src/console/readline.rs
+++ b/std/src/console/readline.rs
@@ -403,6 +403,19 @@ impl<'a, 'h> Readline<'a, 'h> {
 
     /// Runs the interactive key-processing loop until the line is accepted.
     async fn run(mut self) -> io::Result<String> {
+        if let Err(e) = self.process_keys().await {
+            // The line was abandoned so it must not be left behind in the history.
+            if let Some(history) = self.history.as_mut() {
+                history.pop();
+            }
+            return Err(e);
+        }
+
+        Ok(self.finish())
+    }
+
+    /// Processes key presses until the line is accepted.
+    async fn process_keys(&mut self) -> io::Result<()> {
         loop {
             let result = match self.console.read_key().await? {
                 Key::ArrowDown => self.do_up_down(1),
@@ -423,11 +436,9 @@ impl<'a, 'h> Readline<'a, 'h> {
             }?;
 
             if let DispatchResult::Submit = result {
-                break;
+                return Ok(());
             }
         }
-
-        Ok(self.finish())
     }
 }
 
-- 
2.43.0


From 7b6ae88a7b7db36df4dab6b5d66fe1a77919b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 19/49] fix: do not exit the REPL when interrupting the unsaved
 changes prompt

---
 repl/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/repl/src/lib.rs b/repl/src/lib.rs
index 71eea03..12c337a 100644
--- a/repl/src/lib.rs
+++ b/repl/src/lib.rs
@@ -237,7 +237,10 @@ pub async fn run_repl_loop(
                         let should_continue = {
                             let program = program.borrow();
                             let mut console = console.borrow_mut();
-                            continue_if_modified(&*program, &mut *console).await?
+                            match continue_if_modified(&*program, &mut *console).await {
+                                Err(e) if e.kind() == io::ErrorKind::Interrupted => false,
+                                result => result?,
+                            }
                         };
                         if should_continue {
                             stop_reason = Some(code);
-- 
2.43.0


From 7f177ad0f8f47de2b993ef2d722cd1a6e2b46f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 20/49] fix: fill the editor's status bar when the program name
 is not ASCII

---
 repl/src/editor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/repl/src/editor.rs b/repl/src/editor.rs
index 2224690..f02e423 100644
--- a/repl/src/editor.rs
+++ b/repl/src/editor.rs
@@ -157,8 +157,9 @@ impl Editor {
         );
 
         let width = usize::from(console_size.x);
+        let long_details_len = long_details.chars().count();
         let mut status = String::with_capacity(width);
-        if KEYS_SUMMARY.len() + long_details.len() >= width {
+        if KEYS_SUMMARY.len() + long_details_len >= width {
             let short_details = format!(" {}:{} ", self.file_pos.line + 1, self.file_pos.col + 1);
             if short_details.len() < width {
                 while status.len() < width - short_details.len() {
@@ -166,14 +167,14 @@ impl Editor {
                 }
             }
             status.push_str(&short_details);
+            status.truncate(width);
         } else {
             status.push_str(KEYS_SUMMARY);
-            while status.len() < width - long_details.len() {
+            while status.len() < width - long_details_len {
                 status.push(' ');
             }
             status.push_str(&long_details);
         }
-        status.truncate(width);
 
         console.locate(CharsXY::new(0, console_size.y - 1))?;
         console.set_color(STATUS_COLOR.0, STATUS_COLOR.1)?;
-- 
2.43.0


From 60b8cda095dd991183535751a59229def5b5de3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 21/49] fix: count characters when copying the indentation in
 the editor

---
 repl/src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repl/src/editor.rs b/repl/src/editor.rs
index f02e423..fb4123c 100644
--- a/repl/src/editor.rs
+++ b/repl/src/editor.rs
@@ -459,7 +459,7 @@ impl Editor {
 
                 Key::NewLine | Key::CarriageReturn => {
                     let indent = copy_indent(&self.content[self.file_pos.line]);
-                    let indent_len = indent.len();
+                    let indent_len = indent.chars().count();
 
                     let appending = (self.file_pos.line + 1 == self.content.len())
                         && (self.file_pos.col == self.content[self.file_pos.line].len());
-- 
2.43.0


From 17de4a3ef4c195cff2d91e47c557574b92adab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:45 +0000
Subject: [PATCH 22/49] fix: validate the drive name before creating the drive
 in MOUNT

Creating a drive may have side-effects, such as creating its backing
directory, so a MOUNT that fails because of an invalid or duplicate drive
name must not do so.
---
 std/src/storage/mod.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/std/src/storage/mod.rs b/std/src/storage/mod.rs
index 9b64ee4..0b51941 100644
--- a/std/src/storage/mod.rs
+++ b/std/src/storage/mod.rs
@@ -443,6 +443,14 @@ impl Storage {
     ///
     /// The `name` must be valid and must not yet have been registered.
     fn attach(&mut self, name: &str, uri: &str, drive: Box<dyn Drive>) -> io::Result<()> {
+        let key = self.new_key(name)?;
+        let mounted_drive = MountedDrive { uri: uri.to_owned(), drive };
+        self.drives.insert(key, mounted_drive);
+        Ok(())
+    }
+
+    /// Validates that `name` can be used to attach a new drive and returns its key.
+    fn new_key(&self, name: &str) -> io::Result<DriveKey> {
         let key = DriveKey::new(name)?;
         if self.drives.contains_key(&key) {
             return Err(io::Error::new(
@@ -450,9 +458,7 @@ impl Storage {
                 format!("Drive '{}' is already mounted", name),
             ));
         }
-        let mounted_drive = MountedDrive { uri: uri.to_owned(), drive };
-        self.drives.insert(DriveKey::new(name)?, mounted_drive);
-        Ok(())
+        Ok(key)
     }
 
     /// Instantiates and attaches a new `drive` with `name` that points to `uri`.
@@ -461,7 +467,12 @@ impl Storage {
     pub fn mount(&mut self, name: &str, uri: &str) -> io::Result<()> {
         let (scheme, path) = split_uri(uri)?;
         let drive = match self.factories.get(&scheme.to_lowercase()) {
-            Some(factory) => factory.create(path)?,
+            Some(factory) => {
+                // Creating a drive may have side-effects (such as creating its backing directory)
+                // so make sure that it will be possible to attach it.
+                self.new_key(name)?;
+                factory.create(path)?
+            }
             None => {
                 return Err(io::Error::new(
                     io::ErrorKind::InvalidInput,
-- 
2.43.0


From c7c96b97f2c0a123226cae169cef55b37a873fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 23/49] fix: do not draw the graphical cursor past the last
 column

After writing text that exactly fills a line, the cursor lies outside of the
text area.  Trying to draw it there makes the LCD consoles panic because they
cannot read the pixels outside of the screen.
---
 std/src/console/graphics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index d8e5d98..044e520 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -389,6 +389,12 @@ where
             return Ok(());
         }
 
+        if self.cursor_pos.x >= self.size_chars.x {
+            // The cursor is right past the last column after writing a full line, waiting for more
+            // text to wrap.  There is no room to draw it.
+            return Ok(());
+        }
+
         let x1y1 = self.cursor_pos.clamped_mul(self.glyph_size);
 
         assert!(self.cursor_backup.is_none());
-- 
2.43.0


From 571d29241ef7c76173a01091b0025400b339ccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 24/49] fix: do nothing when clearing until the end of a full
 line

The width of the area to clear is zero if the cursor is past the last column,
and such sizes are not valid.
---
 std/src/console/graphics.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 044e520..99bfbf3 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -532,12 +532,13 @@ where
                 let pos = self.cursor_pos.clamped_mul(self.glyph_size);
                 debug_assert!(pos.x >= 0, "Inputs to pos are unsigned");
                 debug_assert!(pos.y >= 0, "Inputs to pos are unsigned");
-                let size = SizeInPixels::new(
-                    (i32::from(self.size_pixels.width) - i32::from(pos.x)).clamped_into(),
-                    self.glyph_size.height,
-                );
-                self.raster_ops.set_draw_color(self.bg_color);
-                self.raster_ops.draw_rect_filled(pos, size)?;
+                let width: u16 =
+                    (i32::from(self.size_pixels.width) - i32::from(pos.x)).clamped_into();
+                if width > 0 {
+                    let size = SizeInPixels::new(width, self.glyph_size.height);
+                    self.raster_ops.set_draw_color(self.bg_color);
+                    self.raster_ops.draw_rect_filled(pos, size)?;
+                }
             }
         }
         self.draw_cursor()?;
-- 
2.43.0


From 0b4041abe4cb5bf089c87f566aea1d449f9afc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 25/49] fix: do not draw filled rectangles that lie outside of
 the LCD

Rectangles past the right or the bottom of the LCD were clamped to its last
column or row instead of being ignored.
---
 std/src/gfx/lcd/buffered/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/std/src/gfx/lcd/buffered/mod.rs b/std/src/gfx/lcd/buffered/mod.rs
index 683e16a..441d58b 100644
--- a/std/src/gfx/lcd/buffered/mod.rs
+++ b/std/src/gfx/lcd/buffered/mod.rs
@@ -487,6 +487,10 @@ where
 
     fn draw_rect_filled(&mut self, xy: PixelsXY, size: SizeInPixels) -> io::Result<()> {
         let x1y1 = self.clamp_xy(xy);
+        if i32::from(xy.x) > x1y1.x as i32 || i32::from(xy.y) > x1y1.y as i32 {
+            // The rectangle lies past the right or the bottom of the LCD.
+            return Ok(());
+        }
         let x2y2 = self.clip_x2y2(xy, size);
         match x2y2 {
             Some(x2y2) => self.fill(x1y1, x2y2),
-- 
2.43.0


From 06ecf4c9c2eda020c4a67a728de8cd65c158d5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:38 +0000
Subject: [PATCH 26/49] fix: do not panic when clearing the character before
 the first column

The cursor was drawn again without having been cleared first.
---
 std/src/console/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 99bfbf3..7934ca1 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -518,8 +518,8 @@ where
                 self.cursor_pos.x = 0;
             }
             ClearType::PreviousChar => {
+                self.clear_cursor()?;
                 if self.cursor_pos.x > 0 {
-                    self.clear_cursor()?;
                     let previous_pos = CharsXY::new(self.cursor_pos.x - 1, self.cursor_pos.y);
                     let origin = previous_pos.clamped_mul(self.glyph_size);
                     self.raster_ops.set_draw_color(self.bg_color);
-- 
2.43.0


From 6c59e7dea388b285c4c0c06cc3c4e09bdbdc5ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 27/49] fix: do not fill forever when the colors look the same

The palette contains some colors more than once.  If the fill color had a
different number than the color of the region but the same RGB value, filling
never ended.
---
 std/src/console/drawing.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index e0cc905..1eba5fd 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -142,6 +142,11 @@ where
         }
 
         rasops.draw_pixel(xy)?;
+        if rasops.peek_pixel(xy)? == Some(seed_color) {
+            // The fill color is displayed in the same way as the seed color (e.g. because they have
+            // different numbers in the palette but the same RGB value), so there is nothing to do.
+            return Ok(());
+        }
 
         if xy.x > i16::MIN {
             pending.push(PixelsXY::new(xy.x - 1, xy.y));
-- 
2.43.0


From 33da30d945dee3003e1c66b8f84edf2e04da6514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 28/49] fix: avoid overflows when filling polygons with long
 edges

---
 std/src/console/drawing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index 1eba5fd..4c4887a 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -320,7 +320,10 @@ fn edge_intersection(y: i32, p1: PixelsXY, p2: PixelsXY) -> Option<i32> {
 
     let x1 = i32::from(p1.x);
     let x2 = i32::from(p2.x);
-    Some(x1 + (y - y1) * (x2 - x1) / (y2 - y1))
+    // The product below can exceed the range of an i32 even if the result is always within the
+    // coordinates of the edge.
+    let offset = i64::from(y - y1) * i64::from(x2 - x1) / i64::from(y2 - y1);
+    Some(x1 + offset as i32)
 }
 
 /// Fills the poligon defined by `points` using a scanline intersection algorithm.
-- 
2.43.0


From e807730f460f49bbd7228e1e447ef8f6b36bf160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 29/49] fix: avoid overflows when drawing circles around
 distant points

The points of a circle may not fit in the coordinates of the console even if its
center does.  Such points cannot be visible so skip them.
---
 std/src/console/drawing.rs | 71 ++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index 4c4887a..6d0028c 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -173,8 +173,11 @@ pub fn draw_circle<R>(rasops: &mut R, center: PixelsXY, radius: u16) -> io::Resu
 where
     R: RasterOps,
 {
-    fn point<R: RasterOps>(rasops: &mut R, x: i16, y: i16) -> io::Result<()> {
-        rasops.draw_pixel(PixelsXY { x, y })
+    fn point<R: RasterOps>(rasops: &mut R, x: i32, y: i32) -> io::Result<()> {
+        match (i16::try_from(x), i16::try_from(y)) {
+            (Ok(x), Ok(y)) => rasops.draw_pixel(PixelsXY { x, y }),
+            _ => Ok(()), // Out of the coordinate space so cannot be visible.
+        }
     }
 
     if radius == 0 {
@@ -183,29 +186,30 @@ where
         return rasops.draw_pixel(center);
     }
 
-    let (diameter, radius): (i16, i16) = match radius.checked_mul(2) {
+    let (diameter, radius): (i32, i32) = match radius.checked_mul(2) {
         Some(d) => match i16::try_from(d) {
-            Ok(d) => (d, radius as i16),
+            Ok(d) => (i32::from(d), i32::from(radius)),
             Err(_) => return Err(io::Error::new(io::ErrorKind::InvalidInput, "Radius is too big")),
         },
         None => return Err(io::Error::new(io::ErrorKind::InvalidInput, "Radius is too big")),
     };
 
-    let mut x: i16 = radius - 1;
-    let mut y: i16 = 0;
-    let mut tx: i16 = 1;
-    let mut ty: i16 = 1;
-    let mut e: i16 = tx - diameter;
+    let (cx, cy) = (i32::from(center.x), i32::from(center.y));
+    let mut x: i32 = radius - 1;
+    let mut y: i32 = 0;
+    let mut tx: i32 = 1;
+    let mut ty: i32 = 1;
+    let mut e: i32 = tx - diameter;
 
     while x >= y {
-        point(rasops, center.x + x, center.y - y)?;
-        point(rasops, center.x + x, center.y + y)?;
-        point(rasops, center.x - x, center.y - y)?;
-        point(rasops, center.x - x, center.y + y)?;
-        point(rasops, center.x + y, center.y - x)?;
-        point(rasops, center.x + y, center.y + x)?;
-        point(rasops, center.x - y, center.y - x)?;
-        point(rasops, center.x - y, center.y + x)?;
+        point(rasops, cx + x, cy - y)?;
+        point(rasops, cx + x, cy + y)?;
+        point(rasops, cx - x, cy - y)?;
+        point(rasops, cx - x, cy + y)?;
+        point(rasops, cx + y, cy - x)?;
+        point(rasops, cx + y, cy + x)?;
+        point(rasops, cx - y, cy - x)?;
+        point(rasops, cx - y, cy + x)?;
 
         if e <= 0 {
             y += 1;
@@ -231,8 +235,14 @@ pub fn draw_circle_filled<R>(rasops: &mut R, center: PixelsXY, radius: u16) -> i
 where
     R: RasterOps,
 {
-    fn line<R: RasterOps>(rasops: &mut R, x1: i16, y1: i16, x2: i16, y2: i16) -> io::Result<()> {
-        rasops.draw_line(PixelsXY { x: x1, y: y1 }, PixelsXY { x: x2, y: y2 })
+    fn line<R: RasterOps>(rasops: &mut R, x: i32, y1: i32, y2: i32) -> io::Result<()> {
+        match i16::try_from(x) {
+            Ok(x) => rasops.draw_line(
+                PixelsXY { x, y: y1.clamped_into() },
+                PixelsXY { x, y: y2.clamped_into() },
+            ),
+            Err(_) => Ok(()), // Out of the coordinate space so cannot be visible.
+        }
     }
 
     if radius == 0 {
@@ -241,26 +251,27 @@ where
         return rasops.draw_pixel(center);
     }
 
-    let (diameter, radius): (i16, i16) = match radius.checked_mul(2) {
+    let (diameter, radius): (i32, i32) = match radius.checked_mul(2) {
         Some(d) => match i16::try_from(d) {
-            Ok(d) => (d, radius as i16),
+            Ok(d) => (i32::from(d), i32::from(radius)),
 
             Err(_) => return Err(io::Error::new(io::ErrorKind::InvalidInput, "Radius is too big")),
         },
         None => return Err(io::Error::new(io::ErrorKind::InvalidInput, "Radius is too big")),
     };
 
-    let mut x: i16 = radius - 1;
-    let mut y: i16 = 0;
-    let mut tx: i16 = 1;
-    let mut ty: i16 = 1;
-    let mut e: i16 = tx - diameter;
+    let (cx, cy) = (i32::from(center.x), i32::from(center.y));
+    let mut x: i32 = radius - 1;
+    let mut y: i32 = 0;
+    let mut tx: i32 = 1;
+    let mut ty: i32 = 1;
+    let mut e: i32 = tx - diameter;
 
     while x >= y {
-        line(rasops, center.x + x, center.y - y, center.x + x, center.y + y)?;
-        line(rasops, center.x - x, center.y - y, center.x - x, center.y + y)?;
-        line(rasops, center.x + y, center.y - x, center.x + y, center.y + x)?;
-        line(rasops, center.x - y, center.y - x, center.x - y, center.y + x)?;
+        line(rasops, cx + x, cy - y, cy + y)?;
+        line(rasops, cx - x, cy - y, cy + y)?;
+        line(rasops, cx + y, cy - x, cy + x)?;
+        line(rasops, cx - y, cy - x, cy + x)?;
 
         if e <= 0 {
             y += 1;
-- 
2.43.0


From 741e9d5eb623a413d44ffa2e58421dd932a9da34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 30/49] fix: Count characters instead of bytes when paginating
 output

---
 std/src/console/pager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/src/console/pager.rs b/std/src/console/pager.rs
index 2d2eda7..e4bae02 100644
--- a/std/src/console/pager.rs
+++ b/std/src/console/pager.rs
@@ -88,7 +88,7 @@ impl<'a> Pager<'a> {
                 yielder.yield_now().await;
             }
 
-            self.cur_columns += text.len();
+            self.cur_columns += text.chars().count();
             self.cur_lines += (self.cur_columns / usize::from(self.size.x)) + 1;
 
             if self.cur_lines >= usize::from(self.size.y) - 1 {
@@ -110,7 +110,7 @@ impl<'a> Pager<'a> {
     pub(crate) fn write(&mut self, text: &str) -> io::Result<()> {
         self.console.write(text)?;
         if self.console.is_interactive() {
-            self.cur_columns += text.len();
+            self.cur_columns += text.chars().count();
         }
         Ok(())
     }
-- 
2.43.0


From a523a1f837e9806586e3e7ceabcb7437dc4add7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 31/49] fix: Count characters instead of bytes when refilling
 paragraphs

---
 std/src/console/format.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/std/src/console/format.rs b/std/src/console/format.rs
index 17e6eba..7cb044e 100644
--- a/std/src/console/format.rs
+++ b/std/src/console/format.rs
@@ -31,7 +31,9 @@ fn refill(paragraph: &str, width: usize) -> Vec<String> {
     let mut lines = vec![];
 
     let mut line = String::new();
+    let mut line_len = 0;
     for word in paragraph.split_whitespace() {
+        let word_len = word.chars().count();
         if !line.is_empty() {
             // Determine how many spaces to inject after a period.  We want 2 spaces to separate
             // different sentences and 1 otherwise.  The heuristic here isn't great and it'd be
@@ -43,16 +45,19 @@ fn refill(paragraph: &str, width: usize) -> Vec<String> {
                 1
             };
 
-            if (line.len() + word.len() + spaces) >= width {
+            if (line_len + word_len + spaces) >= width {
                 lines.push(line);
                 line = String::new();
+                line_len = 0;
             } else {
                 for _ in 0..spaces {
                     line.push(' ');
                 }
+                line_len += spaces;
             }
         }
         line.push_str(word);
+        line_len += word_len;
     }
     if !line.is_empty() {
         lines.push(line);
-- 
2.43.0


From 24c474cd79672401ebfb246caae94c499519804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 32/49] fix: Restore the console colors when HELP is
 interrupted

---
 std/src/help.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/std/src/help.rs b/std/src/help.rs
index 4a98957..a6eefbd 100644
--- a/std/src/help.rs
+++ b/std/src/help.rs
@@ -499,11 +499,16 @@ impl Callable for HelpCommand {
 
         if scope.nargs() == 0 {
             let mut console = self.console.borrow_mut();
+            let (fg_color, bg_color) = console.color();
             let result = {
                 let mut pager =
                     Pager::new(&mut *console, self.yielder.clone()).map_err(CallError::from)?;
                 self.summary(&topics, &mut pager).await
             };
+            if result.is_err() {
+                // The output may have been interrupted in the middle of highlighted text.
+                let _ = console.set_color(fg_color, bg_color);
+            }
             result.map_err(CallError::from)?;
         } else {
             debug_assert_eq!(1, scope.nargs());
@@ -511,11 +516,16 @@ impl Callable for HelpCommand {
 
             let topic = topics.find(&t, &scope, 0)?;
             let mut console = self.console.borrow_mut();
+            let (fg_color, bg_color) = console.color();
             let result = {
                 let mut pager =
                     Pager::new(&mut *console, self.yielder.clone()).map_err(CallError::from)?;
                 topic.describe(&mut pager).await
             };
+            if result.is_err() {
+                // The output may have been interrupted in the middle of highlighted text.
+                let _ = console.set_color(fg_color, bg_color);
+            }
             result.map_err(CallError::from)?;
         }
 
-- 
2.43.0


From 455f047715e48a60450f80498110e45ed084b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 33/49] fix: Properly encode user and file names in cloud
 service URLs

---
 client/src/cloud.rs | 50 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/client/src/cloud.rs b/client/src/cloud.rs
index 112c421..cdb28aa 100644
--- a/client/src/cloud.rs
+++ b/client/src/cloud.rs
@@ -81,6 +81,19 @@ fn reqwest_error_to_io_error(e: reqwest::Error) -> io::Error {
     io::Error::other(format!("{}", e))
 }
 
+/// Encodes `s`, which is the name of a user or a file, to be used as a component of a URL path.
+fn encode_path_component(s: &str) -> String {
+    let mut encoded = String::with_capacity(s.len());
+    for b in s.bytes() {
+        if b.is_ascii_alphanumeric() || b"-_.~".contains(&b) {
+            encoded.push(char::from(b));
+        } else {
+            encoded.push_str(&format!("%{:02X}", b));
+        }
+    }
+    encoded
+}
+
 /// Container for authentication data to track after login.
 struct AuthData {
     username: String,
@@ -205,7 +218,10 @@ impl Service for CloudService {
         let response = {
             let auth_data = Self::require_auth_data(auth_data.as_ref())?;
             self.client
-                .post(self.make_url(&format!("api/users/{}/logout", auth_data.username)))
+                .post(self.make_url(&format!(
+                    "api/users/{}/logout",
+                    encode_path_component(&auth_data.username)
+                )))
                 .headers(self.default_headers())
                 .header("Content-Length", 0)
                 .bearer_auth(auth_data.access_token.as_str())
@@ -233,7 +249,7 @@ impl Service for CloudService {
     async fn get_files(&mut self, username: &str) -> io::Result<GetFilesResponse> {
         let mut builder = self
             .client
-            .get(self.make_url(&format!("api/users/{}/files", username)))
+            .get(self.make_url(&format!("api/users/{}/files", encode_path_component(username))))
             .headers(self.default_headers());
         if let Some(auth_data) = self.auth_data.borrow().as_ref() {
             builder = builder.bearer_auth(auth_data.access_token.as_str());
@@ -252,7 +268,11 @@ impl Service for CloudService {
     async fn get_file(&mut self, username: &str, filename: &str) -> io::Result<Vec<u8>> {
         let mut builder = self
             .client
-            .get(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .get(self.make_url(&format!(
+                "api/users/{}/files/{}",
+                encode_path_component(username),
+                encode_path_component(filename)
+            )))
             .headers(self.default_headers());
         if let Some(auth_data) = self.auth_data.borrow().as_ref() {
             builder = builder.bearer_auth(auth_data.access_token.as_str());
@@ -272,7 +292,11 @@ impl Service for CloudService {
         headers.insert("X-EndBASIC-GetReaders", "true".parse().unwrap());
         let mut builder = self
             .client
-            .get(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .get(self.make_url(&format!(
+                "api/users/{}/files/{}",
+                encode_path_component(username),
+                encode_path_component(filename)
+            )))
             .headers(headers);
         if let Some(auth_data) = self.auth_data.borrow().as_ref() {
             builder = builder.bearer_auth(auth_data.access_token.as_str());
@@ -312,7 +336,11 @@ impl Service for CloudService {
 
         let response = self
             .client
-            .patch(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .patch(self.make_url(&format!(
+                "api/users/{}/files/{}",
+                encode_path_component(username),
+                encode_path_component(filename)
+            )))
             .headers(self.default_headers())
             .header("Content-Type", "application/octet-stream")
             .header("X-EndBASIC-PatchContent", "true")
@@ -338,7 +366,11 @@ impl Service for CloudService {
 
         let mut builder = self
             .client
-            .patch(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .patch(self.make_url(&format!(
+                "api/users/{}/files/{}",
+                encode_path_component(username),
+                encode_path_component(filename)
+            )))
             .headers(self.default_headers())
             .header("Content-Type", "application/octet-stream")
             // Ensure we have at least one header to go through the header-based request handler.
@@ -367,7 +399,11 @@ impl Service for CloudService {
 
         let response = self
             .client
-            .delete(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .delete(self.make_url(&format!(
+                "api/users/{}/files/{}",
+                encode_path_component(username),
+                encode_path_component(filename)
+            )))
             .headers(self.default_headers())
             .header("Content-Length", 0)
             .bearer_auth(Self::require_auth_data(auth_data.as_ref())?.access_token.as_str())
-- 
2.43.0


From 1471c6ac6e5e706e6634cdd8f02ca795b766ba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 34/49] fix: Do not panic in SHARE when an ACL has multi-byte
 characters

---
 client/src/cmds.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index 3eb12d9..1be8b5f 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -307,7 +307,10 @@ among users of the EndBASIC service.",
 impl ShareCommand {
     /// Parses a textual ACL specification and adds it to `add` or `remove.
     fn parse_acl(mut acl: String, add: &mut FileAcls, remove: &mut FileAcls) -> Result<(), String> {
-        let change = if acl.len() < 3 { String::new() } else { acl.split_off(acl.len() - 2) };
+        let change = match acl.char_indices().rev().nth(1) {
+            Some((pos, _)) if pos > 0 => acl.split_off(pos),
+            _ => String::new(),
+        };
         let username = acl; // For clarity after splitting off the ACL change request.
         match (username, change.as_str()) {
             (username, "+r") if !username.is_empty() => add.add_reader(username),
-- 
2.43.0


From 790834add4274311239d6969f09e2dae43b2ad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 35/49] fix: Strip drives without a slash from the URLs printed
 by SHARE

---
 client/src/cmds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index 1be8b5f..ba60806 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -384,7 +384,7 @@ impl Callable for ShareCommand {
             .map_err(CallError::from)?;
 
         if Self::has_public_acl(&add) {
-            let filename = match filename.split_once('/') {
+            let filename = match filename.rsplit_once(['/', ':']) {
                 Some((_drive, path)) => path,
                 None => &filename,
             };
-- 
2.43.0


From 6181e418a137eec6663c821dad36bb6cf30e4866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 36/49] fix: Do not panic when SHAREing local files before
 LOGIN

---
 client/src/cmds.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index ba60806..d850f76 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -383,7 +383,10 @@ impl Callable for ShareCommand {
             .await
             .map_err(CallError::from)?;
 
-        if Self::has_public_acl(&add) {
+        let username = self.service.borrow().logged_in_username();
+        if let Some(username) = username
+            && Self::has_public_acl(&add)
+        {
             let filename = match filename.rsplit_once(['/', ':']) {
                 Some((_drive, path)) => path,
                 None => &filename,
@@ -398,12 +401,7 @@ impl Callable for ShareCommand {
 auto-run your public file by visiting:",
                     &format!(
                         "{}?run={}/{}",
-                        self.exec_base_url,
-                        self.service
-                            .borrow()
-                            .logged_in_username()
-                            .expect("SHARE can only succeed against logged in cloud drives"),
-                        filename
+                        self.exec_base_url, username, filename
                     ),
                 ],
                 "    ",
-- 
2.43.0


From be698a77a07901a2bb50682a426a264e20689611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 37/49] fix: Do not log in when the CLOUD drive cannot be
 mounted

---
 client/src/cmds.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index d850f76..c1ded49 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -113,6 +113,14 @@ To create an account, use the SIGNUP command.",
 
     /// Performs the login workflow against the server.
     async fn do_login(&self, username: &str, password: &str) -> io::Result<()> {
+        if self.storage.borrow().mounted().contains_key("CLOUD") {
+            // Check this upfront to avoid ending up logged in if the mount operation fails.
+            return Err(io::Error::new(
+                io::ErrorKind::AlreadyExists,
+                "Drive 'CLOUD' is already mounted",
+            ));
+        }
+
         let response = self.service.borrow_mut().login(username, password).await?;
 
         {
-- 
2.43.0


From 4664039f0c6042a559d22e0faaed69a905fa0701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 38/49] fix: Count characters instead of bytes in SIGNUP
 passwords

---
 client/src/cmds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index c1ded49..832e6cf 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -424,7 +424,7 @@ auto-run your public file by visiting:",
 
 /// Checks if a password is sufficiently complex and returns an error when it isn't.
 fn validate_password_complexity(password: &str) -> Result<(), &'static str> {
-    if password.len() < 8 {
+    if password.chars().count() < 8 {
         return Err("Must be at least 8 characters long");
     }
 
-- 
2.43.0


From 115da0857ffba094600b29357bbb208336d0f89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 39/49] fix: Reject NOT where a binary operator is expected

---
 core/src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index b056dd2..b4f00c4 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -905,6 +905,12 @@ impl<'a> Parser<'a> {
                 }
 
                 Token::Not => {
+                    if !need_operand {
+                        return Err(Error::Bad(
+                            ts.pos,
+                            format!("Unexpected {} in expression", ts.token),
+                        ));
+                    }
                     op_spans.push(ExprOpSpan::new(ExprOp::Not, ts.pos));
                     need_operand = true;
                 }
-- 
2.43.0


From 890f3a36125c94fb7ec2e0f7b63315b0cc53b479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:02 +0000
Subject: [PATCH 40/49] fix: Reject empty arguments where AnyValue does not
 allow them

---
 core/src/compiler/args.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/args.rs b/core/src/compiler/args.rs
index 5b19204..2c8dee3 100644
--- a/core/src/compiler/args.rs
+++ b/core/src/compiler/args.rs
@@ -346,7 +346,12 @@ pub(super) fn compile_args(
                 let temp_tag = scope.alloc().map_err(|e| Error::from_syms(e, arg_pos))?;
                 arg_linecols.push(arg_pos);
                 let tag = match expr {
-                    None => bytecode::VarArgTag::Missing(sep),
+                    None => {
+                        if !details.allow_missing {
+                            return Err(Error::CallableSyntax(key_pos, md.as_ref().clone()));
+                        }
+                        bytecode::VarArgTag::Missing(sep)
+                    }
                     Some(expr) => {
                         let temp_value = scope.alloc().map_err(|e| Error::from_syms(e, arg_pos))?;
                         arg_linecols.push(arg_pos);
-- 
2.43.0


From b946ac0fbb24b039fbeb1ad4f66dbebe44e62f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 41/49] fix: do not panic on non-ASCII second lines of scripts

---
 cli/src/propline.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/cli/src/propline.rs b/cli/src/propline.rs
index 72edfbb..5cf0ebb 100644
--- a/cli/src/propline.rs
+++ b/cli/src/propline.rs
@@ -43,14 +43,10 @@ fn strip_newline(s: &mut String) {
 fn parse_propline(line: &str) -> io::Result<PropLine> {
     let without_comment = match line.strip_prefix("' ") {
         Some(line) => Some(line),
-        None => {
-            if line.len() <= 4 {
-                None
-            } else {
-                let token = line[0..4].to_ascii_lowercase();
-                if token == "rem " { Some(&line[4..]) } else { None }
-            }
-        }
+        None => match line.split_at_checked(4) {
+            Some((token, rest)) if token.eq_ignore_ascii_case("rem ") => Some(rest),
+            _ => None,
+        },
     };
     let Some(payload) = without_comment else {
         return Ok(PropLine::default());
-- 
2.43.0


From a5975bbc8c93dd6fa885374a048e85627d608d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 42/49] fix: reject an empty console specification without
 panicking

---
 cli/src/console.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/src/console.rs b/cli/src/console.rs
index e24ce59..0f9457c 100644
--- a/cli/src/console.rs
+++ b/cli/src/console.rs
@@ -100,7 +100,14 @@ pub fn setup_console(
     console_spec: Option<&str>,
     signals_tx: Sender<Signal>,
 ) -> io::Result<ConsoleHandles> {
-    let mut console_spec = ConsoleSpec::init(console_spec.unwrap_or("text"));
+    let console_spec = console_spec.unwrap_or("text");
+    if console_spec.is_empty() {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "Invalid --console flag: missing console driver",
+        ));
+    }
+    let mut console_spec = ConsoleSpec::init(console_spec);
     let handles: ConsoleHandles = match console_spec.driver {
         "sdl" => setup_sdl_console(&mut console_spec, signals_tx)?,
         "st7735s" => setup_st7735s_console(&mut console_spec, signals_tx)?,
-- 
2.43.0


From 8e03ab224d1b256fdb454a7d80d798e49665ff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 43/49] fix: keep track of the colors across the terminal's
 alternate screen

---
 terminal/src/lib.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/terminal/src/lib.rs b/terminal/src/lib.rs
index 3cc0d86..d557692 100644
--- a/terminal/src/lib.rs
+++ b/terminal/src/lib.rs
@@ -84,8 +84,12 @@ pub struct TerminalConsole {
     /// Whether the cursor is visible or not.
     cursor_visible: bool,
 
-    /// Whether we are in the alternate console or not.
-    alt_active: bool,
+    /// Colors that were last sent to the terminal.  These can differ from the current ones because
+    /// not all terminals restore the colors when leaving the alternate console.
+    sent_colors: (Option<u8>, Option<u8>),
+
+    /// Colors to restore when leaving the alternate console, if we are in it.
+    alt_backup: Option<(Option<u8>, Option<u8>)>,
 
     /// Whether video syncing is enabled or not.
     sync_enabled: bool,
@@ -142,7 +146,8 @@ impl TerminalConsole {
                 fg_color: None,
                 bg_color: None,
                 cursor_visible: true,
-                alt_active: false,
+                sent_colors: (None, None),
+                alt_backup: None,
                 sync_enabled: true,
                 on_key_rx,
             },
@@ -278,13 +283,14 @@ impl Console for TerminalConsole {
     }
 
     fn set_color(&mut self, fg: Option<u8>, bg: Option<u8>) -> io::Result<()> {
-        if fg == self.fg_color && bg == self.bg_color {
+        let (sent_fg, sent_bg) = self.sent_colors;
+        if (fg, bg) == (self.fg_color, self.bg_color) && (fg, bg) == (sent_fg, sent_bg) {
             return Ok(());
         }
 
         let stdout = io::stdout();
         let mut stdout = stdout.lock();
-        if fg != self.fg_color {
+        if fg != self.fg_color || fg != sent_fg {
             let ct_fg = match fg {
                 None => style::Color::Reset,
                 Some(color) => style::Color::AnsiValue(color),
@@ -292,7 +298,7 @@ impl Console for TerminalConsole {
             stdout.queue(style::SetForegroundColor(ct_fg))?;
             self.fg_color = fg;
         }
-        if bg != self.bg_color {
+        if bg != self.bg_color || bg != sent_bg {
             let ct_bg = match bg {
                 None => style::Color::Reset,
                 Some(color) => style::Color::AnsiValue(color),
@@ -300,15 +306,16 @@ impl Console for TerminalConsole {
             stdout.queue(style::SetBackgroundColor(ct_bg))?;
             self.bg_color = bg;
         }
+        self.sent_colors = (fg, bg);
         self.maybe_flush(stdout)
     }
 
     fn enter_alt(&mut self) -> io::Result<()> {
-        if !self.alt_active {
+        if self.alt_backup.is_none() {
             let stdout = io::stdout();
             let mut stdout = stdout.lock();
             stdout.queue(terminal::EnterAlternateScreen)?;
-            self.alt_active = true;
+            self.alt_backup = Some((self.fg_color, self.bg_color));
             self.maybe_flush(stdout)
         } else {
             Ok(())
@@ -332,15 +339,15 @@ impl Console for TerminalConsole {
     }
 
     fn leave_alt(&mut self) -> io::Result<()> {
-        if self.alt_active {
-            let stdout = io::stdout();
-            let mut stdout = stdout.lock();
-            stdout.queue(terminal::LeaveAlternateScreen)?;
-            self.alt_active = false;
-            self.maybe_flush(stdout)
-        } else {
-            Ok(())
-        }
+        let Some((fg, bg)) = self.alt_backup.take() else {
+            return Ok(());
+        };
+        let stdout = io::stdout();
+        let mut stdout = stdout.lock();
+        stdout.queue(terminal::LeaveAlternateScreen)?;
+        self.fg_color = fg;
+        self.bg_color = bg;
+        self.maybe_flush(stdout)
     }
 
     fn locate(&mut self, pos: CharsXY) -> io::Result<()> {
-- 
2.43.0


From 9f582acb5ffcbde0c9e1cf6bcbee4572e7ffd10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 44/49] fix: clear the LCD on exit even if syncing is disabled

---
 std/src/gfx/lcd/buffered/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/std/src/gfx/lcd/buffered/mod.rs b/std/src/gfx/lcd/buffered/mod.rs
index 441d58b..6d0f7fc 100644
--- a/std/src/gfx/lcd/buffered/mod.rs
+++ b/std/src/gfx/lcd/buffered/mod.rs
@@ -331,6 +331,8 @@ where
     L: Lcd,
 {
     fn drop(&mut self) {
+        // Drop any buffered contents and make sure that the clear operation reaches the LCD.
+        self.sync = true;
         self.set_draw_color((0, 0, 0));
         self.clear().unwrap();
     }
-- 
2.43.0


From 72cd717762e8402140b9975ec2d48406f78f0bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 45/49] fix: don't panic when the host reads an array before
 its DIM is executed

---
 core/src/vm/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 5daf86f..035a2d3 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -220,6 +220,10 @@ impl Vm {
         }
         let raw = read_raw(&self.context, info.reg);
         let ptr = DatumPtr::from(raw);
+        if let DatumPtr::Constant(_) = ptr {
+            // The array is known at compile time but its DIM has not been executed yet.
+            return Ok(None);
+        }
         let heap_idx = ptr.heap_index();
         let HeapDatum::Array(a) = self.heap.get(heap_idx) else {
             panic!("Array variable does not point to an array on the heap");
-- 
2.43.0


From c563b5295a7a7ce7a683b6474474796e1ebf7cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:37 +0000
Subject: [PATCH 46/49] fix: let go of tones that are too long before they
 start on the web

---
 web/src/audio.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/web/src/audio.rs b/web/src/audio.rs
index 842e86b..9139468 100644
--- a/web/src/audio.rs
+++ b/web/src/audio.rs
@@ -47,6 +47,9 @@ impl AudioOps for WebAudioOps {
             ));
         }
 
+        let ms = i32::try_from(tone.duration.as_millis())
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "Tone duration too long"))?;
+
         // Oscillators are one-shot nodes in the Web Audio API, so we must create one per tone.
         let oscillator = self.context.create_oscillator().map_err(js_value_to_io_error)?;
         oscillator.frequency().set_value(tone.frequency_hz as f32);
@@ -57,9 +60,6 @@ impl AudioOps for WebAudioOps {
             .connect_with_audio_node(&self.context.destination())
             .map_err(js_value_to_io_error)?;
         oscillator.start().map_err(js_value_to_io_error)?;
-
-        let ms = i32::try_from(tone.duration.as_millis())
-            .map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "Tone duration too long"))?;
         do_sleep(ms, ()).await;
 
         oscillator.stop().map_err(js_value_to_io_error)?;
-- 
2.43.0


From 3dcfee11774087bcdcac10c5dcefb4dc72f4b4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:37 +0000
Subject: [PATCH 47/49] fix: make all names uppercase when mounting the web
 drive

---
 web/src/store.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/web/src/store.rs b/web/src/store.rs
index f746265..2438823 100644
--- a/web/src/store.rs
+++ b/web/src/store.rs
@@ -153,6 +153,10 @@ impl WebDrive {
             Ok(n) => n,
             Err(e) => return Err(io::Error::other(format!("{:?}", e))),
         };
+
+        // Renaming an entry alters the order of the keys, so we must know about all of the entries
+        // that need fixing before modifying any of them.
+        let mut keys = vec![];
         for i in 0..n {
             let key = match self.storage.key(i) {
                 Ok(Some(key)) => key,
@@ -166,10 +170,14 @@ impl WebDrive {
             };
 
             if let Some(key) = Key::parse(&key) {
-                let canonical = key.canonical();
-                if key != canonical {
-                    self.rename(&key, &canonical)?;
-                }
+                keys.push(key);
+            }
+        }
+
+        for key in keys {
+            let canonical = key.canonical();
+            if key != canonical {
+                self.rename(&key, &canonical)?;
             }
         }
         Ok(())
-- 
2.43.0


From 2ab11cbf1cc0593c23790e5e150c9424be7c4d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 48/49] fix: report names without an extension on the web drive

---
 web/src/store.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/web/src/store.rs b/web/src/store.rs
index 2438823..e33fb84 100644
--- a/web/src/store.rs
+++ b/web/src/store.rs
@@ -53,7 +53,6 @@ impl Key {
     /// The file name is unconditionally converted to uppercase to facilitate case-insensitive
     /// matching.
     fn for_name(name: &str) -> Self {
-        debug_assert!(name.to_ascii_uppercase().ends_with(".BAS"));
         Self(format!("{}{}", Key::PREFIX, name.to_ascii_uppercase()))
     }
 
@@ -296,6 +295,13 @@ impl Drive for WebDrive {
 
     async fn put(&mut self, name: &str, content: &[u8]) -> io::Result<()> {
         let key = Key::for_name(name);
+        if Key::parse(key.serialized()).is_none() {
+            // We would not be able to find the file again when enumerating the drive.
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "File name must have the .BAS extension",
+            ));
+        }
 
         // There is no information we care about the old entry so we can replace it all in one go
         // with a new one.
-- 
2.43.0


From 791642367834e36ee41b238fb98b440c4f5e4df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:17 +0000
Subject: [PATCH 49/49] fix: align lines with pixels on the web

Canvas coordinates lie between pixels, so strokes through integer
coordinates were blended into the pixels at both sides, rectangles were
one pixel too large, and zero-length lines did not show.
---
 web/src/canvas.rs | 81 ++++++++++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 32 deletions(-)

diff --git a/web/src/canvas.rs b/web/src/canvas.rs
index b63d0a7..df45032 100644
--- a/web/src/canvas.rs
+++ b/web/src/canvas.rs
@@ -130,6 +130,8 @@ impl CanvasRasterOps {
         let context = html_canvas_to_2d_context(canvas)?;
         context.set_image_smoothing_enabled(false);
         context.set_text_baseline("middle");
+        // Strokes must fully cover the pixels at the end of the lines.
+        context.set_line_cap("square");
 
         // The actual values are irrelevant but need to be different than the initial values we use
         // below.
@@ -168,16 +170,34 @@ impl CanvasRasterOps {
         }
     }
 
+    /// Returns the coordinates of the center of the pixel at `xy`.
+    ///
+    /// Canvas coordinates designate the boundaries between pixels.  Strokes have to go through the
+    /// centers of the pixels because, otherwise, they would be blended into the pixels at both
+    /// sides of the boundary.
+    fn pixel_center(xy: PixelsXY) -> (f64, f64) {
+        (f64::from(xy.x) + 0.5, f64::from(xy.y) + 0.5)
+    }
+
     /// Defines a canvas path for a polygon.
     fn poly_path(&self, points: &[PixelsXY]) {
         debug_assert!(points.len() > 2);
         self.context.begin_path();
-        self.context.move_to(f64::from(points[0].x), f64::from(points[0].y));
+        let (x, y) = Self::pixel_center(points[0]);
+        self.context.move_to(x, y);
         for point in &points[1..] {
-            self.context.line_to(f64::from(point.x), f64::from(point.y));
+            let (x, y) = Self::pixel_center(*point);
+            self.context.line_to(x, y);
         }
         self.context.close_path();
     }
+
+    /// Defines a canvas path for a circle.
+    fn circle_path(&self, center: PixelsXY, radius: u16) -> io::Result<()> {
+        let (x, y) = Self::pixel_center(center);
+        self.context.begin_path();
+        self.context.arc(x, y, f64::from(radius), 0.0, 2.0 * PI).map_err(js_value_to_io_error)
+    }
 }
 
 #[async_trait(?Send)]
@@ -295,27 +315,28 @@ impl RasterOps for CanvasRasterOps {
     }
 
     fn draw_circle(&mut self, center: PixelsXY, radius: u16) -> io::Result<()> {
-        self.context.begin_path();
-        self.context
-            .arc(f64::from(center.x), f64::from(center.y), f64::from(radius), 0.0, 2.0 * PI)
-            .map_err(js_value_to_io_error)?;
+        self.circle_path(center, radius)?;
         self.context.stroke();
         Ok(())
     }
 
     fn draw_circle_filled(&mut self, center: PixelsXY, radius: u16) -> io::Result<()> {
-        self.context.begin_path();
-        self.context
-            .arc(f64::from(center.x), f64::from(center.y), f64::from(radius), 0.0, 2.0 * PI)
-            .map_err(js_value_to_io_error)?;
+        self.circle_path(center, radius)?;
         self.context.fill();
         Ok(())
     }
 
     fn draw_line(&mut self, x1y1: PixelsXY, x2y2: PixelsXY) -> io::Result<()> {
+        if x1y1 == x2y2 {
+            // Strokes of zero-length lines are empty.
+            return self.draw_pixel(x1y1);
+        }
+
+        let (x1, y1) = Self::pixel_center(x1y1);
+        let (x2, y2) = Self::pixel_center(x2y2);
         self.context.begin_path();
-        self.context.move_to(f64::from(x1y1.x), f64::from(x1y1.y));
-        self.context.line_to(f64::from(x2y2.x), f64::from(x2y2.y));
+        self.context.move_to(x1, y1);
+        self.context.line_to(x2, y2);
         self.context.stroke();
         Ok(())
     }
@@ -326,12 +347,20 @@ impl RasterOps for CanvasRasterOps {
     }
 
     fn draw_poly(&mut self, points: &[PixelsXY]) -> io::Result<()> {
+        if points.iter().all(|point| *point == points[0]) {
+            return self.draw_pixel(points[0]);
+        }
+
         self.poly_path(points);
         self.context.stroke();
         Ok(())
     }
 
     fn draw_poly_filled(&mut self, points: &[PixelsXY]) -> io::Result<()> {
+        if points.iter().all(|point| *point == points[0]) {
+            return self.draw_pixel(points[0]);
+        }
+
         self.poly_path(points);
         self.context.fill();
         self.context.stroke();
@@ -339,12 +368,12 @@ impl RasterOps for CanvasRasterOps {
     }
 
     fn draw_rect(&mut self, xy: PixelsXY, size: SizeInPixels) -> io::Result<()> {
-        self.context.stroke_rect(
-            f64::from(xy.x),
-            f64::from(xy.y),
-            f64::from(size.width),
-            f64::from(size.height),
-        );
+        let (x, y) = (f64::from(xy.x), f64::from(xy.y));
+        let (width, height) = (f64::from(size.width), f64::from(size.height));
+        self.context.fill_rect(x, y, width, 1.0);
+        self.context.fill_rect(x, y + height - 1.0, width, 1.0);
+        self.context.fill_rect(x, y, 1.0, height);
+        self.context.fill_rect(x + width - 1.0, y, 1.0, height);
         Ok(())
     }
 
@@ -359,13 +388,7 @@ impl RasterOps for CanvasRasterOps {
     }
 
     fn draw_tri(&mut self, x1y1: PixelsXY, x2y2: PixelsXY, x3y3: PixelsXY) -> io::Result<()> {
-        self.context.begin_path();
-        self.context.move_to(f64::from(x1y1.x), f64::from(x1y1.y));
-        self.context.line_to(f64::from(x2y2.x), f64::from(x2y2.y));
-        self.context.line_to(f64::from(x3y3.x), f64::from(x3y3.y));
-        self.context.close_path();
-        self.context.stroke();
-        Ok(())
+        self.draw_poly(&[x1y1, x2y2, x3y3])
     }
 
     fn draw_tri_filled(
@@ -374,13 +397,7 @@ impl RasterOps for CanvasRasterOps {
         x2y2: PixelsXY,
         x3y3: PixelsXY,
     ) -> io::Result<()> {
-        self.context.begin_path();
-        self.context.move_to(f64::from(x1y1.x), f64::from(x1y1.y));
-        self.context.line_to(f64::from(x2y2.x), f64::from(x2y2.y));
-        self.context.line_to(f64::from(x3y3.x), f64::from(x3y3.y));
-        self.context.close_path();
-        self.context.fill();
-        Ok(())
+        self.draw_poly_filled(&[x1y1, x2y2, x3y3])
     }
 }
 
-- 
2.43.0

