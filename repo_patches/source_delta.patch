From 95c306e0e3adeef0f9b5586fd5a663362744f2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:01 +0000
Subject: [PATCH 01/72] fix: integer operators with a compound right operand

---
 acaciamc/objects/integer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 8bfe8c7..8847ca3 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -558,10 +558,10 @@ class IntOpGroup(AcaciaExpr):
     def _r_add_mul(self, name: str, other, compiler):
         # a (+ or *) b is b (+ or *) a
         if isinstance(other, (IntLiteral, IntVar)):
-            return getattr(self, name)(other)
+            return getattr(self, name)(other, compiler)
         raise InvalidOpError
 
-    def _r_sub_div_mod(self, other, name, compiler):
+    def _r_sub_div_mod(self, name: str, other, compiler):
         # Convert `other` to `IntOpGroup` and use this to handle this
         # operation.
         if isinstance(other, (IntLiteral, IntVar)):
-- 
2.43.0


From 169fb7ac4147efe5ab2bad3efbe223ed3fbde32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 02/72] fix: negation of a compound integer expression

---
 acaciamc/objects/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 8847ca3..643a318 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -527,7 +527,7 @@ class IntOpGroup(AcaciaExpr):
 
     def unaryneg(self, compiler):
         # -expr = expr * (-1)
-        return self.mul(compiler.add_int_const(-1))
+        return self.mul(compiler.add_int_const(-1), compiler)
 
     ## BINARY (SELF ... OTHER) OPERATORS
 
-- 
2.43.0


From 9764190f567b046213d07cbf7f197e3c960ba833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 03/72] fix: augmented assignment to a type without the
 operator is an error, not a crash

---
 acaciamc/mccmdgen/expr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/expr.py b/acaciamc/mccmdgen/expr.py
index 74fadbe..88d2d10 100644
--- a/acaciamc/mccmdgen/expr.py
+++ b/acaciamc/mccmdgen/expr.py
@@ -186,15 +186,15 @@ class AcaciaExpr:
     def unarynot(self, compiler: "Compiler") -> "AcaciaExpr":
         raise InvalidOpError
 
-    def iadd(self, compiler: "Compiler") -> CMDLIST_T:
+    def iadd(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def isub(self, compiler: "Compiler") -> CMDLIST_T:
+    def isub(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def imul(self, compiler: "Compiler") -> CMDLIST_T:
+    def imul(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def idiv(self, compiler: "Compiler") -> CMDLIST_T:
+    def idiv(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def imod(self, compiler: "Compiler") -> CMDLIST_T:
+    def imod(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
 
 class ConstExpr(AcaciaExpr, metaclass=ABCMeta):
-- 
2.43.0


From c69fdcd01b0ac75da53f16da683a38cde8f0fd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 04/72] fix: comparing with the largest and smallest integer

---
 acaciamc/objects/boolean.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index c28d029..d152339 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -288,10 +288,17 @@ class ScbMatchesCompare(CompareBase):
 
     def as_execute(self, compiler) -> Tuple[CMDLIST_T, List["_ExecuteSubcmd"]]:
         res = []
+        # NOTE `INT_MAX + 1` and `INT_MIN - 1` are not valid in commands
         match_range = {
-            Operator.greater: '%d..' % (self.literal + 1),
+            Operator.greater: (
+                '!..%d' % self.literal if self.literal == INT_MAX
+                else '%d..' % (self.literal + 1)
+            ),
             Operator.greater_equal: '%d..' % self.literal,
-            Operator.less: '..%d' % (self.literal - 1),
+            Operator.less: (
+                '!%d..' % self.literal if self.literal == INT_MIN
+                else '..%d' % (self.literal - 1)
+            ),
             Operator.less_equal: '..%d' % self.literal,
             Operator.equal_to: str(self.literal),
             Operator.unequal_to: '!%d' % self.literal
-- 
2.43.0


From 9b9382dd0f601e4de15dc61c870ac34936ae6390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 05/72] fix: conjunction of contradictory ranges produced an
 inverted range

---
 acaciamc/objects/boolean.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index d152339..e45ab15 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -447,6 +447,8 @@ def new_and_group(operands: List[AcaciaExpr], compiler) -> AcaciaExpr:
                 rng = ranges.setdefault(slot, [INT_MIN, INT_MAX])
                 rng[0] = max(min_, rng[0])
                 rng[1] = min(max_, rng[1])
+                if rng[0] > rng[1]:  # must be False
+                    return BoolLiteral(False)
             operand = None
         elif isinstance(operand, NotWildBool):
             # `a and not (b and c)` needs a tmp var:
-- 
2.43.0


From 5d466af79ff795108e495eec1b1754eaadeae0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 06/72] fix: if-else ran both branches when the first changed
 the condition variable

---
 acaciamc/mccmdgen/generator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 03766b8..e7977f7 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -407,7 +407,15 @@ class Generator(ASTVisitor):
             )
             return
         # Fallback
-        dep, condition_var = to_BoolVar(condition, self.compiler, tmp=False)
+        if has_then and has_else:
+            # The "then" branch may change what the condition is
+            # computed from, so its value must be saved.
+            condition_var = BoolVar.new(self.compiler)
+            dep = condition.export(condition_var, self.compiler)
+        else:
+            dep, condition_var = to_BoolVar(
+                condition, self.compiler, tmp=False
+            )
         self.current_file.extend(dep)
         if has_then:
             self.current_file.write(cmds.Execute(
-- 
2.43.0


From 2cbd635a180e96fd25bb4ca23b968e9a5637fd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 07/72] fix: comparing two 'or' expressions for equality

---
 acaciamc/objects/boolean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index e45ab15..4760079 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -64,7 +64,7 @@ def _bool_compare(self: AcaciaExpr, op: Operator, other: AcaciaExpr, compiler):
     elif isinstance(other, NotBoolVar):
         slot2 = other.slot
         invert = not invert
-    elif isinstance(other, (CompareBase, WildBool)):
+    elif isinstance(other, (CompareBase, WildBool, NotWildBool)):
         _dep, other_var = to_BoolVar(other, compiler)
         dep.extend(_dep)
         slot2 = other_var.slot
-- 
2.43.0


From f5d0b03473a826ae8d0d25b6a9cbf4f8ba376b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 08/72] fix: augmented assignment with a compound right operand

---
 acaciamc/objects/integer.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 643a318..5c3cfa5 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -65,10 +65,6 @@ STR2SCBOP = {
     ">": cmds.ScbOp.MAX,
     "=": cmds.ScbOp.ASSIGN
 }
-STR2METHOD = {
-    '+': "add", '-': "sub",
-    '*': "mul", '/': "div", '%': "mod"
-}
 COMPOP2SCBOP = {
     Operator.greater: cmds.ScbCompareOp.GT,
     Operator.greater_equal: cmds.ScbCompareOp.GTE,
@@ -351,13 +347,11 @@ class IntVar(VarValue):
         """Implementation for augmented assigns where `other` is
         `IntOpGroup`. `operator` is "+", "-", etc.
         """
-        # In this condition, we convert a (op)= b to a = a (op) b
-        ## Calculate
-        value = getattr(self, STR2METHOD[operator])(other, compiler)
-        ## Export
-        tmp = IntVar.new(compiler, tmp=True)
-        res = value.export(tmp, compiler)
-        res.extend(tmp.export(self))
+        # In this condition, we calculate b first, then do a (op)= b
+        res, tmp = to_IntVar(other, compiler)
+        res.append(cmds.ScbOperation(
+            STR2SCBOP[operator], self.slot, tmp.slot
+        ))
         return res
 
     iadd = partialmethod(_iadd_sub, '+')
-- 
2.43.0


From ec936aecb24c9614e01e2a1121f0d08a2d7a3653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 09/72] fix: while condition with commands (e.g. function
 calls) was only evaluated once

---
 acaciamc/mccmdgen/generator.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index e7977f7..42417e4 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -430,7 +430,11 @@ class Generator(ASTVisitor):
 
     def visit_While(self, node: While):
         # condition
-        condition: AcaciaExpr = self.visit(node.condition)
+        # Commands generated by it (e.g. function calls) need to be run
+        # each time the condition is checked.
+        cond_file = cmds.MCFunctionFile()
+        with self.set_mcfunc_file(cond_file):
+            condition: AcaciaExpr = self.visit(node.condition)
         if not condition.data_type.matches_cls(BoolDataType):
             self.error_c(ErrorType.WRONG_WHILE_CONDITION,
                          got=str(condition.data_type))
@@ -444,6 +448,7 @@ class Generator(ASTVisitor):
         if isinstance(condition, BoolLiteral):
             # optimize when condition is known at compile time
             if condition.value is False:
+                self.current_file.extend(cond_file.commands)
                 self.write_debug(
                     'Skipped because the condition always evaluates to False'
                 )
@@ -456,8 +461,12 @@ class Generator(ASTVisitor):
         else:
             dep, cond_var = to_BoolVar(condition, self.compiler, tmp=False)
             subcmds = [cmds.ExecuteScoreMatch(cond_var.slot, "1")]
+        dep = cond_file.commands + dep
         # triggering the function
-        if body_file.has_content():
+        has_body = body_file.has_content()
+        if has_body or cond_file.has_content():
+            if not has_body:
+                self.compiler.add_file(body_file)
             body_file.write_debug('## Part 2. Recursion')
             for file in (body_file, self.current_file):
                 file.extend(dep)
-- 
2.43.0


From 73025e9458f691753eaebb1a32b79e5a03471972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 10/72] fix: int(condition) lost its value when a function call
 followed in the expression

---
 acaciamc/objects/integer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 5c3cfa5..4d35b08 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -135,7 +135,9 @@ class IntType(Type):
             # Fallback: convert `b` to `BoolVar`,
             # Since 0 is used to store False, 1 is for True, just
             # "cast" it to `IntVar`.
-            dependencies, bool_var = to_BoolVar(b, compiler)
+            # The commands run at once while the value may be read after
+            # other function calls, so a temporary score can't be used.
+            dependencies, bool_var = to_BoolVar(b, compiler, tmp=False)
             res = IntVar(bool_var.slot)
             res.is_temporary = True
             return res, dependencies
-- 
2.43.0


From 52e40e95425e9c77f94a55c2bcd4f765c5174bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:10 +0000
Subject: [PATCH 11/72] fix: a variable definition in a while body of a const
 function failed in the second iteration

---
 acaciamc/mccmdgen/ctexecuter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index d582565..68b848c 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -324,7 +324,11 @@ class CTExecuter(ASTVisitor):
                     got=condition.cdata_type.name
                 )
             return condition.value
+        outer_names = set(self.current_scope.all_names())
         while _while_cond():
+            # Names defined by the last iteration are defined again
+            for name in set(self.current_scope.all_names()) - outer_names:
+                self.current_scope.delete(name)
             for stmt in node.body:
                 self.visit(stmt)
 
-- 
2.43.0


From b0cee485e8eb2fe8484f04e981d4e79b1b4aa391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 12/72] fix: const functions took arguments and gave results by
 reference

---
 acaciamc/mccmdgen/ctexecuter.py | 4 +++-
 acaciamc/mccmdgen/generator.py  | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 68b848c..700dbae 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -349,7 +349,9 @@ class CTExecuter(ASTVisitor):
 
     def visit_Result(self, node: Result):
         # Toplevel result
-        self.result = self.visit(node.value)
+        # The value is what it is now, even if the variable is changed
+        # later.
+        self.result = abs(self.visit(node.value))
 
     # TODO compile time struct?
 
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 42417e4..15f8416 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -1259,9 +1259,9 @@ class Generator(ASTVisitor):
         with self.set_ctx(func.context):
             ctexec = CTExecuter(self.ctx.scope, self, self.file_name)
             for arg, value in arg2value.items():
-                if isinstance(value, CTObj):
-                    value = CTObjPtr(value)
-                ctexec.current_scope.set(arg, value)
+                # Arguments are passed by value: do not share the pointer
+                # with the caller.
+                ctexec.current_scope.set(arg, CTObjPtr(abs(value)))
             for stmt in func.node.body:
                 ctexec.visittop(stmt)
             result = ctexec.result
-- 
2.43.0


From e6ed81259fa2f0c01fe43cc90990efb5f5a14d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 13/72] fix: optimizer kept testing a condition that a raw
 command of the branch had changed

---
 acaciamc/mccmdgen/cmds.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 33069a3..1caedc0 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -82,6 +82,12 @@ class Cmd(Command):
     def resolve(self) -> str:
         return self.value
 
+    def scb_did_assign(self, slot: ScbSlot) -> bool:
+        # A raw command is not analyzed; assume that those that are able
+        # to change scores change every score.
+        name = self.value.lstrip(" /").split(" ", 1)[0]
+        return name in ("scoreboard", "execute", "function")
+
 class ScbSetConst(Command):
     def __init__(self, target: ScbSlot, value: int):
         self.target = target
-- 
2.43.0


From f5ea2016398be1f97f5d057d3f6ea27993975dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 14/72] fix: struct constructor assigned fields before reading
 them for the other fields

---
 acaciamc/objects/struct_template.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/acaciamc/objects/struct_template.py b/acaciamc/objects/struct_template.py
index 71ef4a7..f8309df 100644
--- a/acaciamc/objects/struct_template.py
+++ b/acaciamc/objects/struct_template.py
@@ -63,11 +63,28 @@ class StructTemplate(ConstExprCombined, ConstructorFunction):
             for name, type_ in self.field_types.items()
         ])
         def _call_me(compiler, **fields: Optional[AcaciaExpr]):
+            # Fields of `instance` may be read by the values, so all values
+            # need to be computed before `instance` changes.
+            values = {name: value for name, value in fields.items()
+                      if value is not None}
+            need_tmp = sum(not isinstance(value, ConstExpr)
+                           for value in values.values()) > 1
             commands = []
-            for name, value in fields.items():
-                if value is None:
-                    continue
-                commands.extend(value.export(instance.vars[name], compiler))
+            if need_tmp:
+                for name, value in values.items():
+                    if isinstance(value, ConstExpr):
+                        continue
+                    tmp = self.field_types[name].new_var(compiler)
+                    commands.extend(value.export(tmp, compiler))
+                    values[name] = tmp
+            for name, value in sorted(
+                values.items(), key=lambda x: isinstance(x[1], ConstExpr)
+            ):
+                # `instance` may be of a base template of this.
+                if name in instance.vars:
+                    commands.extend(
+                        value.export(instance.vars[name], compiler)
+                    )
             return resultlib.commands(commands)
         _, c = BinaryFunction(_call_me).call(args, keywords, compiler)
         return c
-- 
2.43.0


From ad1d6e8d518fb4b95f5a06f4ba8a0958d224b7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 15/72] fix: crash while reporting a struct field defined twice

---
 acaciamc/mccmdgen/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 15f8416..48d403f 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -939,7 +939,7 @@ class Generator(ASTVisitor):
             if isinstance(decl, StructField):
                 name, type_ = res
                 if name in fields:
-                    self.error_c(ErrorType.SFIELD_MULTIPLE_DEFS, name=name)
+                    self.error_c(ErrorType.SFIELD_MULTIPLE_DEFS, attr=name)
                 fields[name] = type_
             else:
                 assert isinstance(decl, Pass)
-- 
2.43.0


From dc419e8ad1752c5eea216607838d564e62beae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 16/72] fix: crash while reporting a wrong argument of a
 built-in function

---
 acaciamc/tools/axe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 9ce908c..d74c6e0 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -402,7 +402,7 @@ def _exprrepr(expr: _EXPR_T) -> str:
     if isinstance(expr, acacia.AcaciaExpr):
         return str(expr.data_type)
     assert isinstance(expr, (acaciact.CTObj, acaciact.CTObjPtr))
-    return expr.cdata_type.name
+    return abs(expr).cdata_type.name
 
 class LiteralInt(UTyped):
     """Accepts an integer literal and converts it to Python `int`.
@@ -782,7 +782,7 @@ def _get_convert(origin: _EXPR_T, converter: _CONVERTER_T):
         elif isinstance(origin, acacia.ConstExpr):
             convert = lambda: converter.cconvert(origin.to_ctexpr())
         else:
-            raise _PreconvertError(_PE_NOT_CONST)
+            raise _PreconvertError(_PE_NOT_CONST, origin)
     else:
         if isinstance(converter, CTConverter):
             convert = lambda: converter.cconvert(origin)
@@ -790,7 +790,7 @@ def _get_convert(origin: _EXPR_T, converter: _CONVERTER_T):
             try:
                 origin_rt = abs(origin).to_rt()
             except InvalidOpError:
-                raise _PreconvertError(_PE_NOT_RT)
+                raise _PreconvertError(_PE_NOT_RT, origin)
             convert = lambda: converter.convert(origin_rt)
     return convert
 
-- 
2.43.0


From e2fbfd4b44f779f96bbeb7b24058be6dea51e7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 17/72] fix: crash on list.range and slice with step 0

---
 acaciamc/lang/en_US.lang  | 4 ++++
 acaciamc/objects/list_.py | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index b8cd93a..f24a154 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -422,6 +422,10 @@ objects.entityfilter.hasitem.slot = should be None when slot_type is None
 
 objects.externegroup.resolve = <resolve of %s>
 
+### objects/list_.py ###
+
+objects.list.zerostep = must not be zero
+
 ### objects/functions.py ###
 
 ## BinaryFunction (and others) ##
diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index bb0b0c7..8a7434b 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -17,6 +17,7 @@ from .types import Type
 from .integer import IntDataType, IntLiteral
 from acaciamc.tools import axe, cmethod_of
 from acaciamc.error import *
+from acaciamc.localization import localize
 from acaciamc.mccmdgen.expr import *
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTObj, CTObjPtr, CTDataType
@@ -31,6 +32,10 @@ class ListDataType(DefaultDataType):
 ctdt_constlist = CTDataType("const_list")
 ctdt_list = CTDataType("list", (ctdt_constlist,))
 
+def check_step(step: int):
+    if step == 0:
+        raise axe.ArgumentError("step", localize("objects.list.zerostep"))
+
 class ListType(Type):
     def do_init(self):
         @cmethod_of(self, "range")
@@ -56,6 +61,7 @@ class ListType(Type):
             @axe.arg("stop", axe.LiteralInt())
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start: int, stop: int, step: int):
+                check_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "__new__")
         @axe.chop
@@ -128,6 +134,7 @@ class AcaciaList(ConstExpr):
             @axe.arg("stop", axe.Nullable(axe.LiteralInt()))
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start, stop, step: int):
+                check_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "cycle")
         @axe.chop
@@ -205,6 +212,7 @@ class CTConstList(CTObj):
             @axe.arg("stop", axe.Nullable(axe.LiteralInt()))
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start, stop, step: int):
+                check_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "cycle")
         @axe.chop
-- 
2.43.0


From 5c4f0dde5e439653a93767b0eae5f5e201dc33e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 18/72] fix: crash on lists made by list.repeat in const
 functions

---
 acaciamc/objects/list_.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index 8a7434b..2bd4566 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -71,7 +71,7 @@ class ListType(Type):
             return AcaciaList(x)
         @cmethod_of(self, "repeat")
         @axe.chop
-        @axe.arg("object", axe.AnyValue(), rename="obj")
+        @axe.arg("object", axe.AnyRT(), rename="obj")
         @axe.arg("times", axe.LiteralInt())
         def _repeat(compiler, obj: AcaciaExpr, times: int):
             return AcaciaList(repeat(obj, times))
@@ -94,8 +94,14 @@ class ListType(Type):
     def cdatatype_hook(self):
         return ctdt_constlist
 
-def list2ct(x: Iterable[ConstExpr]) -> List[CTObj]:
-    return [i.to_ctexpr() for i in x]
+def list2ct(x: Iterable[AcaciaExpr]) -> List[CTObj]:
+    res = []
+    for item in x:
+        # `list.repeat` can repeat a variable
+        if not isinstance(item, ConstExpr):
+            raise Error(ErrorType.ELEMENT_NOT_CONST)
+        res.append(item.to_ctexpr())
+    return res
 
 class AcaciaList(ConstExpr):
     def __init__(self, items: Iterable[ConstExpr]):
-- 
2.43.0


From 036ba319dc067ac45d73ec99fb3c2db2d9d79b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 19/72] fix: map.update in a const function crashed

---
 acaciamc/objects/map_.py | 2 +-
 acaciamc/tools/axe.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/map_.py b/acaciamc/objects/map_.py
index c582c09..859d377 100644
--- a/acaciamc/objects/map_.py
+++ b/acaciamc/objects/map_.py
@@ -235,7 +235,7 @@ class CTMap(CTConstMap):
             return res
         @cmethod_of(self, "update", runtime=False)
         @axe.chop
-        @axe.arg("other", axe.MapOf(axe.Constant(), axe.Constant()))
+        @axe.arg("other", axe.CTMapOf(axe.Constant(), axe.Constant()))
         def _update(compiler, other: Dict[CTObj, CTObj]):
             for k, v in other.items():
                 self.set(k, v)
diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index d74c6e0..92ec4c0 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -11,7 +11,7 @@ __all__ = [
     "Converter", "AnyValue", "Typed", "Multityped", "LiteralInt",
     "LiteralFloat", "LiteralString", "LiteralBool", "Nullable", "AnyOf",
     "Iterator", "Selector", "LiteralIntEnum", "LiteralStringEnum", "ListOf",
-    "MapOf", "PlayerSelector", "RangedLiteralInt", "Callable", "PosXZ",
+    "MapOf", "CTMapOf", "PlayerSelector", "RangedLiteralInt", "Callable", "PosXZ",
     "CTConverter", "UConverter", "CTTyped", "CTIterator", "CTReference",
     "Constant", "AnyRT",
     # Exception
-- 
2.43.0


From b03c4d5b3dd204f701d8f68d56a4eb10b9ae2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:36 +0000
Subject: [PATCH 20/72] fix: map keys of different types (1 and True) collided
 in const functions

---
 acaciamc/objects/boolean.py | 3 ++-
 acaciamc/objects/float_.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index 4760079..4335b13 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -152,7 +152,8 @@ class BoolLiteral(ConstExprCombined):
         return [cmds.RawtextText("1" if self.value else "0")], []
 
     def chash(self):
-        return self.value
+        # Python True == 1, but they are different values in Acacia
+        return (bool, self.value)
 
     def compare(self, op: Operator, other: AcaciaExpr, compiler):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
diff --git a/acaciamc/objects/float_.py b/acaciamc/objects/float_.py
index c86c08c..2513c91 100644
--- a/acaciamc/objects/float_.py
+++ b/acaciamc/objects/float_.py
@@ -44,7 +44,8 @@ class Float(ConstExprCombined):
         return str(self)
 
     def chash(self):
-        return self.value
+        # Python 1.0 == 1, but they are different values in Acacia
+        return (float, self.value)
 
     @classmethod
     def from_int(cls, integer: IntLiteral):
-- 
2.43.0


From 8ac710deaf06ffdb2d7b296c785bc5280c36740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 21/72] fix: extending a list with itself in a const function
 never ended

---
 acaciamc/objects/list_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index 2bd4566..3da5663 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -266,7 +266,7 @@ class CTList(CTConstList):
         @axe.arg("values", axe.CTIterator())
         @axe.slash
         def _extend(compiler, values: List["CTExpr"]):
-            self.ptrs.extend(map(self._new_element, values))
+            self.ptrs.extend(list(map(self._new_element, values)))
         @cmethod_of(self, "append", runtime=False)
         @axe.chop
         @axe.arg("value", axe.Constant())
-- 
2.43.0


From 0383ed493ed9e52f60569d5af724c88e17fc088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:04 +0000
Subject: [PATCH 22/72] fix: assigning a new entity to a variable cleared it
 before the constructor arguments were read

---
 acaciamc/objects/entity_template.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 054ec5a..60110d8 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -466,12 +466,8 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
         for name, impl in template.static_methods.items():
             entity.attribute_table.set(name, impl)
 
-    def initialize(self, instance: "TaggedEntity", compiler: "Compiler",
-                   args, keywords):
-        """
-        Calling an entity template summons a new entity, the arguments
-        are passed to the constructor.
-        """
+    def _construct(self, instance: "TaggedEntity", compiler: "Compiler",
+                   args, keywords) -> CMDLIST_T:
         return [
             *instance.clear(),
             *self.method_new(
@@ -480,6 +476,22 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
             )
         ]
 
+    def call(self, args, keywords, compiler: "Compiler"):
+        instance = TaggedEntity.new_tag(self, compiler)
+        return instance, self._construct(instance, compiler, args, keywords)
+
+    def initialize(self, instance: "TaggedEntity", compiler: "Compiler",
+                   args, keywords):
+        """
+        Calling an entity template summons a new entity, the arguments
+        are passed to the constructor.
+        """
+        # `instance` may be used by the arguments or by the constructor,
+        # so it must keep pointing to the old entity until the new one
+        # is ready.
+        new, commands = self.call(args, keywords, compiler)
+        return [*commands, *new.export(instance, compiler)]
+
     def is_subtemplate_of(self, other: "EntityTemplate") -> bool:
         # Return whether `self` is a subtemplate of `other`. A
         # template itself is considered as a subtemplate of itself.
-- 
2.43.0


From 60377b427b52b85ef3fa73afc822433b49741633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 23/72] fix: entity fields read and written through different
 selectors were treated as unrelated

---
 acaciamc/mccmdgen/cmds.py      | 36 +++++++++++++++++++++++-----------
 acaciamc/mccmdgen/optimizer.py |  3 +++
 acaciamc/modules/math.py       |  2 +-
 acaciamc/objects/boolean.py    |  7 ++++++-
 acaciamc/objects/integer.py    |  2 +-
 5 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 1caedc0..28877b0 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -42,6 +42,20 @@ class ScbSlot(NamedTuple):
             mc_str(self.objective)
         )
 
+    def may_alias(self, other: "ScbSlot") -> bool:
+        """
+        Whether `self` and `other` may be the same score. Note that
+        different selectors may select the same entity.
+        """
+        return self.objective == other.objective and (
+            self.target == other.target
+            or self.is_dynamic() or other.is_dynamic()
+        )
+
+    def is_dynamic(self) -> bool:
+        """Whether the target is resolved when the command runs."""
+        return self.target.startswith("@") or self.target == "*"
+
 class Command(metaclass=ABCMeta):
 
     is_debug = False  # only write when -d is set
@@ -99,7 +113,7 @@ class ScbSetConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbAddConst(Command):
     def __init__(self, target: ScbSlot, value: int):
@@ -112,7 +126,7 @@ class ScbAddConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbRemoveConst(Command):
     def __init__(self, target: ScbSlot, value: int):
@@ -125,7 +139,7 @@ class ScbRemoveConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbOp(Enum):
     ADD_EQ = "+="
@@ -153,15 +167,15 @@ class ScbOperation(Command):
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
         if self.operator is ScbOp.SWAP:
-            return slot == self.operand1 or slot == self.operand2
+            return slot.may_alias(self.operand1) or slot.may_alias(self.operand2)
         else:
-            return slot == self.operand1
+            return slot.may_alias(self.operand1)
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
         if self.operator is ScbOp.SWAP:
-            return slot == self.operand1 or slot == self.operand2
+            return slot.may_alias(self.operand1) or slot.may_alias(self.operand2)
         else:
-            return slot == self.operand2
+            return slot.may_alias(self.operand2)
 
 class ScbRandom(Command):
     def __init__(self, target: ScbSlot, min_: int, max_: int):
@@ -176,7 +190,7 @@ class ScbRandom(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbObjAdd(Command):
     def __init__(self, name: str, display_name: Optional[str] = None):
@@ -383,7 +397,7 @@ class ExecuteScoreComp(_ExecuteSubcmd):
         self.invert = invert
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot == self.operand1 or slot == self.operand2
+        return slot.may_alias(self.operand1) or slot.may_alias(self.operand2)
 
     def resolve(self) -> str:
         return "%s score %s %s %s" % (
@@ -401,7 +415,7 @@ class ExecuteScoreMatch(_ExecuteSubcmd):
         self.invert = invert
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot == self.operand
+        return slot.may_alias(self.operand)
 
     def resolve(self) -> str:
         return "%s score %s matches %s" % (
@@ -555,7 +569,7 @@ class RawtextOutput(Command):
         )
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot in self.score_slots
+        return any(map(slot.may_alias, self.score_slots))
 
 class TitlerawTimes(Command):
     def __init__(self, player: str, fade_in: int, stay: int, fade_out: int):
diff --git a/acaciamc/mccmdgen/optimizer.py b/acaciamc/mccmdgen/optimizer.py
index 8345daf..084d837 100644
--- a/acaciamc/mccmdgen/optimizer.py
+++ b/acaciamc/mccmdgen/optimizer.py
@@ -125,6 +125,9 @@ class Optimizer(cmds.FunctionsManager, metaclass=ABCMeta):
                     slots.add(subcmd.operand)
                 else:
                     unreachable()
+            # Commands may change what a selector means.
+            if any(slot.is_dynamic() for slot in slots):
+                return True
             for command in commands:
                 for slot in slots:
                     if command.scb_did_assign(slot):
diff --git a/acaciamc/modules/math.py b/acaciamc/modules/math.py
index 4a448fc..71dbf71 100644
--- a/acaciamc/modules/math.py
+++ b/acaciamc/modules/math.py
@@ -36,7 +36,7 @@ class IntXOpSelf(IntOp):
         self.x = x
 
     def scb_did_assign(self, slot: cmds.ScbSlot) -> bool:
-        return slot == self.x
+        return slot.may_alias(self.x)
 
     def resolve(self, var: IntVar) -> CMDLIST_T:
         return [cmds.ScbOperation(STR2SCBOP[self.op], self.x, var.slot)]
diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index 4335b13..ed4aced 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -229,9 +229,14 @@ class NotBoolVar(AcaciaExpr):
         return [], [cmds.ExecuteScoreMatch(self.slot, '0')]
 
     def export(self, var: BoolVar, compiler):
-        if var.slot == self.slot:
+        if var.slot.may_alias(self.slot):
             # negation of self
+            copy = (
+                [] if var.slot == self.slot
+                else BoolVar(self.slot).export(var, compiler)
+            )
             return [
+                *copy,
                 cmds.ScbAddConst(var.slot, 1),
                 cmds.Execute([cmds.ExecuteScoreMatch(var.slot, "2")],
                              cmds.ScbSetConst(var.slot, 0))
diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 4d35b08..f0adb96 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -421,7 +421,7 @@ class IntOpVar(IntOp):
         self.slot = slot
 
     def scb_did_read(self, slot: cmds.ScbSlot) -> bool:
-        return slot == self.slot
+        return slot.may_alias(self.slot)
 
     def resolve(self, var: IntVar) -> CMDLIST_T:
         return [cmds.ScbOperation(self.op, var.slot, self.slot)]
-- 
2.43.0


From 4aaf42b6c6ffb171aa5b00152edb4c1d2ad46b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:44 +0000
Subject: [PATCH 24/72] fix: calling a virtual method that is inline failed to
 compile

---
 acaciamc/objects/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index f228af1..043305d 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -551,7 +551,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                 file.extend(_call_bm(args, keywords, only_bm))
                 continue
             # Fallback
-            for impl, (_, templates, get_self_var) in self.impls.items():
+            for bm, templates, get_self_var in self.impls.values():
                 file.write_debug(
                     "# For %s"
                     % (", ".join(template.name for template in templates))
@@ -561,7 +561,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     sel.scores(compiler.etemplate_id_scb,
                                f"!{template.runtime_id}")
                 sel_s = sel.to_str()
-                commands = _call_bm(args, keywords, impl)
+                commands = _call_bm(args, keywords, bm)
                 if not commands:
                     continue
                 f = cmds.MCFunctionFile()
-- 
2.43.0


From c13a93f30d75f2948b67cbce40332b2d8c680f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:31 +0000
Subject: [PATCH 25/72] fix: self in an inline method overriding a virtual one
 had the template of the base

---
 acaciamc/objects/entity_template.py | 12 +++++++++---
 acaciamc/objects/functions.py       | 26 ++++++++++++++++++++++----
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 60110d8..43d6cc3 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -101,7 +101,9 @@ class _MethodDispatcher:
                 return _sv
         self.impls[implementation] = ([template], get_self_var)
         for bound in self.bound:
-            bound.add_implementation(template, implementation, get_self_var)
+            bound.add_implementation(
+                template, implementation, template, get_self_var
+            )
 
     def register_inherit(self, template: "EntityTemplate",
                          parent: "EntityTemplate"):
@@ -109,7 +111,9 @@ class _MethodDispatcher:
             if parent in templates:
                 templates.append(template)
                 for bound in self.bound:
-                    bound.add_implementation(template, impl, get_self)
+                    bound.add_implementation(
+                        template, impl, templates[0], get_self
+                    )
                 break
         else:
             unreachable("Base not found")
@@ -121,7 +125,9 @@ class _MethodDispatcher:
         self.bound.append(res)
         for impl, (templates, get_self_var) in self.impls.items():
             for template in templates:
-                res.add_implementation(template, impl, get_self_var)
+                res.add_implementation(
+                    template, impl, templates[0], get_self_var
+                )
         return res
 
     def bind_to_cast(self, entity: "_EntityBase"):
diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 043305d..bb9f974 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -428,10 +428,16 @@ class _BoundMethod(ConstExprCombined, AcaciaCallable):
     cdata_type = ctdt_function
 
     def __init__(self, object_: "_EntityBase", method_name: str,
-                 definition: METHODDEF_T):
+                 definition: METHODDEF_T,
+                 self_template: Optional["EntityTemplate"] = None):
+        """
+        `self_template`: the template of `self` in inline methods, by
+        default same as that of `object_`.
+        """
         super().__init__(FunctionDataType())
         self.name = method_name
         self.object = object_
+        self.self_template = self_template
         self.definition = definition
         self.is_inline = isinstance(definition, InlineFunction)
         self.func_repr = self.name
@@ -443,8 +449,13 @@ class _BoundMethod(ConstExprCombined, AcaciaCallable):
                    "Unexpected target function %r" % self.definition
             # `EntityReference` is needed so that `self` is not
             # assignable.
-            self.definition.context.self_value = \
-                EntityReference.from_other(self.object)
+            if self.self_template is None:
+                self_value = EntityReference.from_other(self.object)
+            else:
+                self_value = EntityReference(
+                    self.object.get_selector(), self.self_template
+                )
+            self.definition.context.self_value = self_value
         result, commands = self.definition.call(args, keywords, compiler)
         # `BinaryFunction`s cannot be method implementation
         # because we are not sure about their result data type
@@ -500,13 +511,20 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
 
     def add_implementation(
         self, template: "EntityTemplate", definition: METHODDEF_T,
+        owner: "EntityTemplate",
         get_self_var: Optional[Callable[[], "TaggedEntity"]]
     ):
+        """
+        `owner`: the template that defines this implementation, while
+        `template` may have inherited it.
+        """
         if definition in self.impls:
             _, templates, _ = self.impls[definition]
             templates.append(template)
         elif template.is_subtemplate_of(self.object.template):
-            bound_method = _BoundMethod(self.object, self.name, definition)
+            bound_method = _BoundMethod(
+                self.object, self.name, definition, self_template=owner
+            )
             self.impls[definition] = (bound_method, [template], get_self_var)
 
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
-- 
2.43.0


From ac7c7550a0c7a42dc7e74e7b1429fc7d5cace09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:25 +0000
Subject: [PATCH 26/72] fix: compiling the dispatcher of a virtual method
 crashed when a temporary was needed, and its errors had no location

---
 acaciamc/compiler.py          | 26 ++++++++++++++++++++++++++
 acaciamc/objects/functions.py | 22 +++++++++++++---------
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index ab6c4e3..39ec5b8 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -301,6 +301,32 @@ class Compiler:
         """Add a callback before compilation finishes."""
         self._before_finish_cbs.append(callback)
 
+    def current_location(self):
+        """Return the current location for later use in `at_location`."""
+        generator = self.current_generator
+        return generator, generator.processing_node, self._current_file
+
+    @contextmanager
+    def at_location(self, location):
+        """
+        Go back to a location returned by `current_location`. This allows
+        `before_finish` callbacks to do what can only be done when a
+        source file is being visited.
+        """
+        old_generator = self.current_generator
+        old_file = self._current_file
+        generator, node, self._current_file = location
+        self.current_generator = generator
+        old_node = generator.processing_node
+        generator.processing_node = node
+        try:
+            yield
+        except Error as err:
+            generator.error(err)
+        generator.processing_node = old_node
+        self.current_generator = old_generator
+        self._current_file = old_file
+
     def find_module(self, meta: ModuleMeta) -> Union[str, None]:
         """Find a module.
         Return path of module or None is not found
diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index bb9f974..02cb4c1 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -503,8 +503,9 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                 _BoundMethod, List["EntityTemplate"],
                 Optional[Callable[[], "TaggedEntity"]]
             ]] = {}
+        # Arguments, file of dispatcher and location of each call
         self.files: \
-            List[Tuple[ARGS_T, KEYWORDS_T, cmds.MCFunctionFile]] = []
+            List[Tuple[ARGS_T, KEYWORDS_T, cmds.MCFunctionFile, tuple]] = []
         self.result_var = result_var
         self.func_repr = self.name
         compiler.before_finish(self._generate)
@@ -529,7 +530,9 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
 
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
         file = cmds.MCFunctionFile()
-        self.files.append((args, keywords, file))
+        self.files.append(
+            (args, keywords, file, compiler.current_location())
+        )
         compiler.add_file(file)
         return self.result_var, [
             cmds.Execute(
@@ -541,12 +544,13 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
     def _generate(self, compiler: "Compiler"):
         def _call_bm(args: ARGS_T, keywords: KEYWORDS_T,
                      bm: _BoundMethod) -> CMDLIST_T:
-            result, commands = bm.call_withframe(
-                args, keywords, compiler,
-                location=
-                    localize("objects.function.bvm.dispatcher") % self.name
-            )
-            commands.extend(result.export(self.result_var, compiler))
+            with compiler.at_location(location):
+                result, commands = bm.call_withframe(
+                    args, keywords, compiler,
+                    location=
+                        localize("objects.function.bvm.dispatcher") % self.name
+                )
+                commands.extend(result.export(self.result_var, compiler))
             return commands
 
         if len(self.impls) == 1:
@@ -554,7 +558,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             only_selfvar = None if _getself is None else _getself()
         else:
             only_bm = only_selfvar = None
-        for args, keywords, file in self.files:
+        for args, keywords, file, location in self.files:
             file.write_debug(
                 "## Virtual method dispatcher for %s.%s()"
                 % (self.object.template.name, self.name)
-- 
2.43.0


From 19e5f24d32a5d8e569bd706190fd0b8ef8187511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:33 +0000
Subject: [PATCH 27/72] fix: calls of one virtual method in an expression
 shared the result

---
 acaciamc/objects/functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 02cb4c1..799ed8a 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -534,11 +534,15 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             (args, keywords, file, compiler.current_location())
         )
         compiler.add_file(file)
-        return self.result_var, [
+        # Make a copy of `result_var`, as all calls share it.
+        result = self.result_var.data_type.new_var(compiler)
+        result.is_temporary = True
+        return result, [
             cmds.Execute(
                 [cmds.ExecuteEnv("as", self.object.to_str())],
                 cmds.InvokeFunction(file)
-            )
+            ),
+            *self.result_var.export(result, compiler)
         ]
 
     def _generate(self, compiler: "Compiler"):
-- 
2.43.0


From 6d38f093ca6649577261762302e77cbaa00cc8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 28/72] fix: multiple inheritance: crashes, wrong choice of
 inherited methods and refusal of shared base attributes

---
 acaciamc/objects/entity_template.py | 32 ++++++++++++++++-------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 43d6cc3..72850f6 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -293,16 +293,14 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                 raise Error(ErrorType.MRO)
         ## Check attribute name conlicts
         # Attributes may appear only once
-        attr_list = list(chain(
-            field_types,
-            chain.from_iterable(t.field_types for t in parents)
-        ))
-        seen = set()
-        for attr in attr_list:
-            if attr in seen:
+        # (There is exactly one meta object for each definition, so that
+        # an attribute inherited in more than one way is still fine.)
+        seen = field_metas.copy()
+        for attr, meta in chain.from_iterable(
+            t.field_metas.items() for t in parents
+        ):
+            if seen.setdefault(attr, meta) is not meta:
                 raise Error(ErrorType.EFIELD_MULTIPLE_DEFS, attr=attr)
-            else:
-                seen.add(attr)
         ## Inherit attributes
         for parent in parents:
             self.field_types.update(parent.field_types)
@@ -320,7 +318,11 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
         m_virtual: Dict[str, _MethodDispatcher] = {}
         m_simple: Dict[str, _SimpleMethod] = {}
         m_static: Dict[str, AcaciaCallable] = {}
+        # `m_owner`: the template whose definition gets inherited.
+        m_owner: Dict[str, EntityTemplate] = {}
+        self.own_methods = frozenset(methods)
         for parent in reversed(self.mro_[1:]):
+            m_owner.update((method, parent) for method in parent.own_methods)
             for method, disp in parent.method_dispatchers.items():
                 _check(m_simple, m_static, method)
                 if m_virtual.setdefault(method, disp) is not disp:
@@ -328,12 +330,14 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                                 method=method)
             for method, mgr in parent.simple_methods.items():
                 _check(m_virtual, m_static, method)
-                m_simple[method] = mgr
+                if method in parent.own_methods:
+                    m_simple[method] = mgr
             for method, impl in parent.static_methods.items():
                 _check(m_virtual, m_simple, method)
-                m_static[method] = impl
+                if method in parent.own_methods:
+                    m_static[method] = impl
         ## Make sure field names do not conflict with method names
-        for attr in attr_list:
+        for attr in self.field_types:
             if attr in m_virtual or attr in m_simple or attr in m_static:
                 raise Error(ErrorType.METHOD_ATTR_CONFLICT, name=attr)
         ## Handle methods
@@ -346,7 +350,7 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                     raise Error(ErrorType.OVERRIDE_QUALIFIER,
                                 got=qualifier.localized, name=method)
                 _check_override(implementation, method)
-                disp = parent.method_dispatchers[method]
+                disp = m_virtual[method]
                 self.method_dispatchers[method] = disp
                 disp.register(self, implementation)
                 continue
@@ -379,7 +383,7 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
             if method not in self.method_dispatchers:
                 # Inherited override methods
                 self.method_dispatchers[method] = disp
-                disp.register_inherit(self, parent)
+                disp.register_inherit(self, m_owner[method])
         for method, mgr in m_simple.items():
             if method not in self.simple_methods:
                 # Inherited simple methods
-- 
2.43.0


From 7096256134ecb834db88aa5dc6dc5ea4136ce295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:05 +0000
Subject: [PATCH 29/72] fix: do not print empty selector brackets when no tag
 is listed

---
 acaciamc/mccmdgen/mcselector.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/acaciamc/mccmdgen/mcselector.py b/acaciamc/mccmdgen/mcselector.py
index c0f0d62..e502f24 100644
--- a/acaciamc/mccmdgen/mcselector.py
+++ b/acaciamc/mccmdgen/mcselector.py
@@ -81,12 +81,10 @@ class MCSelector:
         var = self.var
         if var is None:
             var = "e"  # when var is not set it should be all entities
-        return "@%s%s" % (
-            var,
-            "[%s]" % ",".join(self.arg_to_str(arg, value)
-                              for arg, value in self.args.items())
-            if self.args else ""
-        )
+        # Arguments that have got an empty list of values are left out.
+        args = [arg_str for arg, value in self.args.items()
+                if (arg_str := self.arg_to_str(arg, value))]
+        return "@%s%s" % (var, "[%s]" % ",".join(args) if args else "")
 
     def player_type(self):
         if self.has_arg("type"):
-- 
2.43.0


From ca621be5da554519ba9a09508f918d20583aefbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:28 +0000
Subject: [PATCH 30/72] fix: an entity filter applied after a limit was merged
 into it

---
 acaciamc/objects/entity_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index a893ae4..8e746fd 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -398,7 +398,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
     def need_set_selector_var(
         self, compiler, var: SELECTORVAR_T
     ) -> MCSelector:
-        if self.data[-1].selector.is_var_set():
+        if self.next_use_new_data or self.data[-1].selector.is_var_set():
             self._new_data(compiler)
         res = self.data[-1].selector
         res.var = var
@@ -407,7 +407,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
     def need_set_context(
         self, compiler, *context: "_ExecuteSubcmd"
     ) -> MCSelector:
-        if self.context_occupied:
+        if self.next_use_new_data or self.context_occupied:
             self._new_data(compiler)
         self.data[-1].subcmds.extend(context)
         self.context_occupied = True
-- 
2.43.0


From 48c25ad6857ebf1731b0a736ee26afb4ab1fd4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:28 +0000
Subject: [PATCH 31/72] fix: random() on a filter of known entity type selected
 type=None

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 8e746fd..a13230c 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -139,7 +139,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
                             % (type_, self.entity_type)
                     )
             if not selector.has_arg("type"):
-                selector.type(type_)
+                selector.type(self.entity_type)
             selector.limit(limit)
             # There should be a difference between these two:
             # (Supporse there are more than 5 entities with name "xxx")
-- 
2.43.0


From 85452a40af214fa9b72414e3c41d49e6eccd958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:28 +0000
Subject: [PATCH 32/72] fix: is_game_mode() replaced the game mode required
 before

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index a13230c..7a35e96 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -319,7 +319,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
         @axe.arg("mode", axe.LiteralString())
         @transform_immutable(self)
         def _is_game_mode(self: EntityFilter, compiler, mode: str):
-            selector = self.last_selector(compiler)
+            selector = self.new_if_got(compiler, "m")
             selector.game_mode(mode)
             self.entity_type = PLAYER
             return self
-- 
2.43.0


From d71f65bb7e915c6cc4382b376b4d736ef61f3387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:28 +0000
Subject: [PATCH 33/72] fix: a negated range in an entity filter lost its
 negation

---
 acaciamc/objects/entity_filter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 7a35e96..6e2b2b4 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -47,10 +47,12 @@ class IntRange(axe.AnyOf):
             return str(origin_py)
         assert isinstance(origin_py, str)
         origin_py = origin_py.lstrip()
+        prefix = ""
         if origin_py.startswith("!"):
-            origin_py = origin_py[1:]
+            prefix = "!"
+            origin_py = origin_py[1:].lstrip()
         if ".." in origin_py:
-            min_, max_ = origin_py.split("..")
+            min_, max_ = origin_py.split("..", maxsplit=1)
             min_ = min_.strip()
             max_ = max_.strip()
             if not min_ and not max_:
@@ -58,10 +60,10 @@ class IntRange(axe.AnyOf):
             if (min_ and not self.check_int(min_)
                 or max_ and not self.check_int(max_)):
                 self.wrong_argument()
-            return "%s..%s" % (min_, max_)
+            return "%s%s..%s" % (prefix, min_, max_)
         else:
             if self.check_int(origin_py):
-                return origin_py
+                return prefix + origin_py
             else:
                 self.wrong_argument()
 
-- 
2.43.0


From d64ca2290ab8dce33d179330d7404791672287b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:28 +0000
Subject: [PATCH 34/72] fix: has_permission() without arguments gave an empty
 selector option

---
 acaciamc/mccmdgen/mcselector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/mcselector.py b/acaciamc/mccmdgen/mcselector.py
index e502f24..d904d80 100644
--- a/acaciamc/mccmdgen/mcselector.py
+++ b/acaciamc/mccmdgen/mcselector.py
@@ -70,10 +70,11 @@ class MCSelector:
                 "%s=%s" % (scb, range_) for scb, range_ in value
             )
         elif arg == "haspermission":
-            return "haspermission={%s}" % ",".join(
+            options = (
                 [("%s=enabled" % p) for p in value[0]]
                 + [("%s=disabled" % p) for p in value[1]]
             )
+            return "haspermission={%s}" % ",".join(options) if options else ""
         else:
             raise ValueError("Unknown selector argument: %r" % arg)
 
-- 
2.43.0


From 03174afcaed6a3e53199fbf4ef58b2f1a74d2c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:15 +0000
Subject: [PATCH 35/72] fix: a range with a space after its sign or a newline
 gave a malformed selector

---
 acaciamc/objects/entity_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 6e2b2b4..7f5e0cc 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -24,7 +24,7 @@ if TYPE_CHECKING:
     from acaciamc.mccmdgen.cmds import _ExecuteSubcmd
     from acaciamc.compiler import Compiler
 
-RE_INT = re.compile(r"^[+-]?\s*\d+$")
+RE_INT = re.compile(r"[+-]?\d+")
 PLAYER = "player"  # ID of player entity
 
 class IntRange(axe.AnyOf):
@@ -39,7 +39,7 @@ class IntRange(axe.AnyOf):
 
     @staticmethod
     def check_int(value: str) -> bool:
-        return RE_INT.match(value) is not None
+        return RE_INT.fullmatch(value) is not None
 
     def convert(self, origin: AcaciaExpr) -> str:
         origin_py = super().convert(origin)
-- 
2.43.0


From f23f44c8d4e7f92afca0ece591654d551840a298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:18 +0000
Subject: [PATCH 36/72] fix: the order of the optimizer's files, and so the
 output, depended on addresses

---
 acaciamc/mccmdgen/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/optimizer.py b/acaciamc/mccmdgen/optimizer.py
index 084d837..762e906 100644
--- a/acaciamc/mccmdgen/optimizer.py
+++ b/acaciamc/mccmdgen/optimizer.py
@@ -41,7 +41,8 @@ class Optimizer(cmds.FunctionsManager, metaclass=ABCMeta):
                 _visit(ref)
         for file in self.entry_files():
             _visit(file)
-        self.files = list(visited)
+        # A set has no defined order; keep the order of the files.
+        self.files = [file for file in self.files if file in visited]
 
     @property
     @abstractmethod
-- 
2.43.0


From dca05cca5732a0a50341967a6f6240adcdef8ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:18 +0000
Subject: [PATCH 37/72] fix: which of several files of one module name is found
 depended on directory order

---
 acaciamc/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index 39ec5b8..9f1be17 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -358,7 +358,7 @@ class Compiler:
                 # meaning this `root` is invalid; continue
                 continue
             ## Step 3
-            for child in os.listdir(final):
+            for child in sorted(os.listdir(final)):
                 path = os.path.join(final, child)
                 if not os.path.isfile(path):
                     continue
-- 
2.43.0


From 572b9e7e21a671ff2c8ad030a9071d80b83e10ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:20 +0000
Subject: [PATCH 38/72] fix: failing to create an output folder crashed instead
 of being an I/O error

---
 acaciamc/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index 9f1be17..2e538f2 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -497,8 +497,8 @@ class Compiler:
 
     def _write_file(self, content: str, path: str):
         """Write `content` to `path`."""
-        os.makedirs(os.path.dirname(path), exist_ok=True)
         try:
+            os.makedirs(os.path.dirname(path), exist_ok=True)
             with open(path, 'w', encoding=self.cfg.encoding) as f:
                 f.write(content)
         except Exception as err:
-- 
2.43.0


From f6292bb7e4259bbce24622b3a5572f204115faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:20 +0000
Subject: [PATCH 39/72] fix: an interface path could name . or .., overwriting
 other functions or leaving the output folder

---
 acaciamc/error.py              | 1 +
 acaciamc/lang/en_US.lang       | 1 +
 acaciamc/mccmdgen/generator.py | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/acaciamc/error.py b/acaciamc/error.py
index fabea2c..be12abe 100644
--- a/acaciamc/error.py
+++ b/acaciamc/error.py
@@ -147,6 +147,7 @@ class ErrorType(LocalizedEnum):
     INTERFACE_PATH_SLASH_END = "error.errortype.interfacepathslashend"
     INTERFACE_PATH_DOUBLE_SLASH = "error.errortype.interfacepathdoubleslash"
     INTERFACE_PATH_INVALID_CHAR = "error.errortype.interfacepathinvalidchar"
+    INTERFACE_PATH_DOTS = "error.errortype.interfacepathdots"
     # Compiler
     IO = "error.errortype.io"
     MODULE_NOT_FOUND = "error.errortype.modulenotfound"
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index f24a154..8928095 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -220,6 +220,7 @@ error.errortype.interfacepathslashend = An interface path cannot end with a slas
 error.errortype.interfacepathdoubleslash = Double slashes found in interface path
 error.errortype.interfacepathempty = Empty interface path
 error.errortype.interfacepathinvalidchar = Invalid character {char!r} in interface path
+error.errortype.interfacepathdots = An interface path cannot contain "." or ".." as a folder or file name
 error.errortype.io = I/O Error: {message}
 error.errortype.modulenotfound = Module not found: "{module}"
 error.errortype.circularparse = File {file_!r} seems to call itself
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 48d403f..544ec57 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -494,6 +494,8 @@ class Generator(ASTVisitor):
         for c in path:
             if c not in FUNCTION_PATH_CHARS:
                 self.error_c(ErrorType.INTERFACE_PATH_INVALID_CHAR, char=c)
+        if any(part in ('.', '..') for part in path.split('/')):
+            self.error_c(ErrorType.INTERFACE_PATH_DOTS)
         # Make sure the path is unique and not reserved
         if self.compiler.is_reserved_path(path):
             self.error_c(ErrorType.RESERVED_INTERFACE_PATH, path=path)
-- 
2.43.0


From 261137186fd8be29e17791a6fbcb82c49bc5670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:45 +0000
Subject: [PATCH 40/72] fix: a line break in text used in a command split the
 command in two

---
 acaciamc/error.py            |  1 +
 acaciamc/lang/en_US.lang     |  1 +
 acaciamc/mccmdgen/cmds.py    | 16 ++++++++++++----
 acaciamc/modules/builtins.py |  4 +++-
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/acaciamc/error.py b/acaciamc/error.py
index be12abe..98419cb 100644
--- a/acaciamc/error.py
+++ b/acaciamc/error.py
@@ -148,6 +148,7 @@ class ErrorType(LocalizedEnum):
     INTERFACE_PATH_DOUBLE_SLASH = "error.errortype.interfacepathdoubleslash"
     INTERFACE_PATH_INVALID_CHAR = "error.errortype.interfacepathinvalidchar"
     INTERFACE_PATH_DOTS = "error.errortype.interfacepathdots"
+    LINE_BREAK_IN_COMMAND = "error.errortype.linebreakincommand"
     # Compiler
     IO = "error.errortype.io"
     MODULE_NOT_FOUND = "error.errortype.modulenotfound"
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 8928095..2aceb53 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -221,6 +221,7 @@ error.errortype.interfacepathdoubleslash = Double slashes found in interface pat
 error.errortype.interfacepathempty = Empty interface path
 error.errortype.interfacepathinvalidchar = Invalid character {char!r} in interface path
 error.errortype.interfacepathdots = An interface path cannot contain "." or ".." as a folder or file name
+error.errortype.linebreakincommand = A command cannot contain a line break
 error.errortype.io = I/O Error: {message}
 error.errortype.modulenotfound = Module not found: "{module}"
 error.errortype.circularparse = File {file_!r} seems to call itself
diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 28877b0..93d964a 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -6,8 +6,16 @@ from typing import List, NamedTuple, Optional, Union, Iterable, Callable, Dict
 import json
 
 from acaciamc.constants import TERMINATOR_CHARS
+from acaciamc.error import Error, ErrorType
+
+def check_line(s: str) -> str:
+    """Make sure that `s` can be a part of a command; return `s`."""
+    if "\n" in s or "\r" in s:
+        raise Error(ErrorType.LINE_BREAK_IN_COMMAND)
+    return s
 
 def mc_str(s: str) -> str:
+    check_line(s)
     if not s:
         return '""'
     if any(char in TERMINATOR_CHARS for char in s):
@@ -80,7 +88,7 @@ class Command(metaclass=ABCMeta):
 
 class Cmd(Command):
     def __init__(self, cmd: str, suppress_special_cmd=False):
-        self.value = cmd
+        self.value = check_line(cmd)
         # Read command name
         if cmd and not suppress_special_cmd:
             for i, char in enumerate(cmd):
@@ -343,7 +351,7 @@ class InvokeFunction(_InvokeFunction):
 class ScheduleFunction(_InvokeFunction):
     def __init__(self, file: "MCFunctionFile", args: str):
         super().__init__(file)
-        self.args = args
+        self.args = check_line(args)
 
     def resolve(self) -> str:
         return "schedule %s %s" % (self.args, self.file.get_path())
@@ -369,7 +377,7 @@ class ExecuteEnv(_ExecuteSubcmd):
                        "in", "positioned", "rotated"):
             raise ValueError("Invalid env subcommand: %s" % cmd)
         self.cmd = cmd
-        self.args = args
+        self.args = check_line(args)
 
     def resolve(self) -> str:
         return "%s %s" % (self.cmd, self.args)
@@ -379,7 +387,7 @@ class ExecuteCond(_ExecuteSubcmd):
         if cond not in ("entity", "block", "blocks"):
             raise ValueError("Invalid condition: %s" % cond)
         self.cond = cond
-        self.args = args
+        self.args = check_line(args)
         self.invert = invert
 
     def resolve(self) -> str:
diff --git a/acaciamc/modules/builtins.py b/acaciamc/modules/builtins.py
index 60baaf8..2b0da51 100644
--- a/acaciamc/modules/builtins.py
+++ b/acaciamc/modules/builtins.py
@@ -72,7 +72,9 @@ def scb(compiler, target: Union["_EntityBase", str], objective: str):
     used to interact with scores on scoreboard.
     """
     tg = target if isinstance(target, str) else target.to_str()
-    return IntVar(cmds.ScbSlot(tg, objective))
+    return IntVar(cmds.ScbSlot(
+        cmds.check_line(tg), cmds.check_line(objective)
+    ))
 
 @axe.chop
 @axe.arg("object", EntityDataType, rename="obj")
-- 
2.43.0


From c1e9d133bdc17063525a2c101a0fcf291613354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:47 +0000
Subject: [PATCH 41/72] fix: quote the name of a ticking area when it needs it

---
 acaciamc/modules/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/modules/schedule.py b/acaciamc/modules/schedule.py
index 2e00f21..c7a3343 100644
--- a/acaciamc/modules/schedule.py
+++ b/acaciamc/modules/schedule.py
@@ -169,7 +169,7 @@ class Task(ConstExprCombined):
             return resultlib.commands([
                 cmds.ScheduleFunction(
                     self.target_file,
-                    "on_area_loaded add tickingarea %s" % name
+                    "on_area_loaded add tickingarea %s" % cmds.mc_str(name)
                 ),
             ])
         self.attribute_table.set("_timer", self.timer)
-- 
2.43.0


From 3ade9dc2f160bab5d2a2597839cc02c8ddacd8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 42/72] fix: escapes of surrogates were accepted but could not
 be written

---
 acaciamc/tokenizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/tokenizer.py b/acaciamc/tokenizer.py
index 0758b6d..71e4cdf 100644
--- a/acaciamc/tokenizer.py
+++ b/acaciamc/tokenizer.py
@@ -664,7 +664,8 @@ class Tokenizer:
                 code.append(self.current_char)
                 self.forward()
             unicode = int(''.join(code), base=16)
-            if unicode >= 0x110000:
+            # Surrogates are no characters and can't be written to files
+            if unicode >= 0x110000 or 0xD800 <= unicode <= 0xDFFF:
                 _err()
             return chr(unicode)
         # when escape can't be recognized, just return "\\"
-- 
2.43.0


From d6d1d746ae4a68f61194ab5e4226131cd615d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 43/72] fix: importing a name of a module under two names bound
 only the last

---
 acaciamc/ast.py                | 10 ++++++----
 acaciamc/mccmdgen/generator.py |  6 ++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/acaciamc/ast.py b/acaciamc/ast.py
index 0af1052..35c3fbf 100644
--- a/acaciamc/ast.py
+++ b/acaciamc/ast.py
@@ -2,7 +2,7 @@
 
 from typing import (
     Union as _Union, List as _List, Optional as _Optional, Dict as _Dict,
-    Iterable as _Iterable
+    Iterable as _Iterable, Tuple as _Tuple
 )
 
 from acaciamc.localization import LocalizedEnum as _LocalizedEnum
@@ -334,9 +334,11 @@ class FromImport(Statement):  # import specific things from a module
     ):
         super().__init__(lineno, col)
         self.meta = meta
-        self.id2name: _Dict[str, str] = {}
-        for name, alias in zip(names, aliases):
-            self.id2name[name] = name if alias is None else alias
+        # (name in the module, name here); a name may occur repeatedly
+        self.id2name: _List[_Tuple[str, str]] = list(dict.fromkeys(
+            (name, name if alias is None else alias)
+            for name, alias in zip(names, aliases)
+        ))
 
 class FromImportAll(Statement):  # import everything in a module
     def __init__(self, meta: ModuleMeta, lineno, col):
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 544ec57..8533e51 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -722,13 +722,15 @@ class Generator(ASTVisitor):
     def visit_FromImport(self, node: FromImport):
         module, path = self.module_traced(node.meta, node.lineno, node.col)
         self.write_debug("Import from %s" % path)
-        for name, alias in node.id2name.items():
+        for name, alias in node.id2name:
             value = self.attribute_of(module, name)
             if value is None:
                 self.error_c(ErrorType.MODULE_NO_ATTRIBUTE,
                              attr=name, module=str(node.meta))
             self.register_symbol(alias, value)
-        self.ctx.scope.no_export.update(node.id2name.values())
+        self.ctx.scope.no_export.update(
+            alias for _, alias in node.id2name
+        )
 
     def visit_FromImportAll(self, node: FromImportAll):
         module, path = self.module_traced(node.meta, node.lineno, node.col)
-- 
2.43.0


From 9dbf8afdc2ad7089b52186d8d5999b94504c403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 44/72] fix: any token was accepted as the name of an argument

---
 acaciamc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/parser.py b/acaciamc/parser.py
index 41f886e..b04ddab 100644
--- a/acaciamc/parser.py
+++ b/acaciamc/parser.py
@@ -937,7 +937,7 @@ class Parser:
             qualifier = self._func_port_qualifier(allowed_ports)
             # read name
             name = self.current_token.value
-            self.eat()  # eat identifier
+            self.eat(TokenType.identifier)
             # read type
             type_ = None
             if self.current_token.type is TokenType.colon:
-- 
2.43.0


From ac7e03248a39b361765b7718965aa2d8ae7d63fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 45/72] fix: crash on an absolute position in a const function

---
 acaciamc/objects/position.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acaciamc/objects/position.py b/acaciamc/objects/position.py
index 15e9b99..f2cce8e 100644
--- a/acaciamc/objects/position.py
+++ b/acaciamc/objects/position.py
@@ -64,9 +64,9 @@ class PosType(Type):
                 offset.set(1, y, CoordinateType.ABSOLUTE)
                 offset.set(2, z, CoordinateType.ABSOLUTE)
                 inst = Position()
-                new_inst, cmds = (inst.attribute_table.lookup("apply")
-                                  .call([offset], {}, compiler))
-                return new_inst, cmds
+                new_inst, _cmds = (inst.attribute_table.lookup("apply")
+                                   .call([offset], {}, compiler))
+                return new_inst
 
     def datatype_hook(self):
         return PosDataType()
-- 
2.43.0


From ab2d3f500b3ff7ca6739b9393656ca53f5b878bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 46/72] fix: crash on a result statement out of functions

---
 acaciamc/mccmdgen/generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 8533e51..9fdb232 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -953,6 +953,8 @@ class Generator(ASTVisitor):
         ))
 
     def visit_Result(self, node: Result):
+        if self.ctx.function_state == FUNC_NONE:
+            self.error_c(ErrorType.RESULT_OUT_OF_SCOPE)
         rt = self.ctx.current_function.result_type
         def _check(t: "DataType"):
             if rt is not None and not rt.matches(t):
@@ -976,7 +978,8 @@ class Generator(ASTVisitor):
                 _check(value.data_type)
                 commands = value.export(rv, self.compiler)
             self.current_file.extend(commands)
-        elif self.ctx.function_state == FUNC_INLINE:
+        else:
+            assert self.ctx.function_state == FUNC_INLINE
             value: AcaciaExpr = self.visit(node.value)
             _check(value.data_type)
             p = self.ctx.current_function.result_port
@@ -1004,9 +1007,6 @@ class Generator(ASTVisitor):
                 if not isinstance(value, ConstExpr):
                     self.error_c(ErrorType.RESULT_NOT_CONST)
                 self.ctx.inline_result = value
-        else:
-            assert self.ctx.function_state == FUNC_NONE
-            self.error_c(ErrorType.RESULT_OUT_OF_SCOPE)
 
     def visit_NewCall(self, node: NewCall):
         if self.ctx.entity_new_data is None:
-- 
2.43.0


From 76b04721a9b50a90166ee87d3a5576f9f7cb92f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 47/72] fix: crash on a decimal integer of too many digits

---
 acaciamc/tokenizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acaciamc/tokenizer.py b/acaciamc/tokenizer.py
index 71e4cdf..2587bc9 100644
--- a/acaciamc/tokenizer.py
+++ b/acaciamc/tokenizer.py
@@ -579,7 +579,10 @@ class Tokenizer:
         else:  # integer
             if not res:
                 self.error(ErrorType.INTEGER_REQUIRED, base=base)
-            value = int(''.join(res), base=base)
+            try:
+                value = int(''.join(res), base=base)
+            except ValueError:  # Python limits number of decimal digits
+                self.error(ErrorType.INT_OVERFLOW, lineno=ln, col=col)
             return Token(TokenType.integer, value=value, lineno=ln, col=col)
 
     def handle_name(self):
-- 
2.43.0


From d6f12a948a87e94f7dbf83f6961a5df694d9861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 48/72] fix: virtual calls in dispatchers were lost when the
 dispatcher of the callee had been generated

---
 acaciamc/objects/functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 799ed8a..d52aa1d 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -508,7 +508,6 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             List[Tuple[ARGS_T, KEYWORDS_T, cmds.MCFunctionFile, tuple]] = []
         self.result_var = result_var
         self.func_repr = self.name
-        compiler.before_finish(self._generate)
 
     def add_implementation(
         self, template: "EntityTemplate", definition: METHODDEF_T,
@@ -530,6 +529,10 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
 
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
         file = cmds.MCFunctionFile()
+        if not self.files:
+            # This may be called after `_generate` has run, by the
+            # dispatcher of another method.
+            compiler.before_finish(self._generate)
         self.files.append(
             (args, keywords, file, compiler.current_location())
         )
@@ -562,7 +565,8 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             only_selfvar = None if _getself is None else _getself()
         else:
             only_bm = only_selfvar = None
-        for args, keywords, file, location in self.files:
+        files, self.files = self.files, []
+        for args, keywords, file, location in files:
             file.write_debug(
                 "## Virtual method dispatcher for %s.%s()"
                 % (self.object.template.name, self.name)
-- 
2.43.0


From c9a29168915d1181784084f1f4fce734b40248f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 49/72] fix: crash or endless compilation on endless recursion
 of inline and const functions

---
 acaciamc/compiler.py            | 23 ++++++++++++++++++-----
 acaciamc/error.py               |  1 +
 acaciamc/lang/en_US.lang        |  1 +
 acaciamc/mccmdgen/ctexecuter.py |  4 +++-
 acaciamc/mccmdgen/generator.py  |  5 ++++-
 5 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index 2e538f2..5df2d2e 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -27,6 +27,9 @@ import acaciamc.mccmdgen.cmds as cmds
 if TYPE_CHECKING:
     from acaciamc.tools.versionlib import VERSION_T
 
+# Limit of `before_finish` callbacks that are added by other callbacks
+MAX_CALLBACK_DEPTH = 100
+
 class OutputManager(cmds.FunctionsManager):
     def __init__(self, cfg: "Config"):
         super().__init__(cfg.scoreboard)
@@ -148,6 +151,7 @@ class Compiler:
         self._cached_modules: List[CachedModule] = []
         self._loading_files = []  # paths of Acacia modules that are loading
         self._before_finish_cbs = []  # callbacks to run before finish
+        self._callback_depth = 0  # how deep callbacks add callbacks
         self._entity_template_id_max = 0  # max id of entity template
         self.etemplate_id_scb = self.add_scoreboard()
 
@@ -172,8 +176,8 @@ class Compiler:
         with self._load_generator(main_path, self.file_main) as generator:
             generator.parse()
         ## callback
-        for cb in self._before_finish_cbs:
-            cb(self)
+        while self._before_finish_cbs:
+            self._before_finish_cbs.pop()(self)
         ## add tick.mcfunction
         if self.file_tick.has_content():
             self.output_mgr.new_file(
@@ -304,7 +308,8 @@ class Compiler:
     def current_location(self):
         """Return the current location for later use in `at_location`."""
         generator = self.current_generator
-        return generator, generator.processing_node, self._current_file
+        return (generator, generator.processing_node, self._current_file,
+                self._callback_depth + 1)
 
     @contextmanager
     def at_location(self, location):
@@ -315,17 +320,21 @@ class Compiler:
         """
         old_generator = self.current_generator
         old_file = self._current_file
-        generator, node, self._current_file = location
+        old_depth = self._callback_depth
+        generator, node, self._current_file, self._callback_depth = location
         self.current_generator = generator
         old_node = generator.processing_node
         generator.processing_node = node
         try:
+            if self._callback_depth > MAX_CALLBACK_DEPTH:
+                raise Error(ErrorType.NESTED_TOO_DEEP)
             yield
         except Error as err:
             generator.error(err)
         generator.processing_node = old_node
         self.current_generator = old_generator
         self._current_file = old_file
+        self._callback_depth = old_depth
 
     def find_module(self, meta: ModuleMeta) -> Union[str, None]:
         """Find a module.
@@ -460,7 +469,11 @@ class Compiler:
         self._current_file = path
         self._loading_files.append(path)
         try:
-            node = Parser(Tokenizer(src_file, self.cfg.mc_version)).module()
+            parser = Parser(Tokenizer(src_file, self.cfg.mc_version))
+            try:
+                node = parser.module()
+            except RecursionError:
+                parser.error(ErrorType.NESTED_TOO_DEEP)
         except Error as err:
             if not err.location.file_set():
                 err.location.file = path
diff --git a/acaciamc/error.py b/acaciamc/error.py
index 98419cb..794ac64 100644
--- a/acaciamc/error.py
+++ b/acaciamc/error.py
@@ -153,6 +153,7 @@ class ErrorType(LocalizedEnum):
     IO = "error.errortype.io"
     MODULE_NOT_FOUND = "error.errortype.modulenotfound"
     CIRCULAR_PARSE = "error.errortype.circularparse"
+    NESTED_TOO_DEEP = "error.errortype.nestedtoodeep"
     # Any; should only be used by binary modules
     ANY = "error.errortype.any"
 
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 2aceb53..71d35a6 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -225,6 +225,7 @@ error.errortype.linebreakincommand = A command cannot contain a line break
 error.errortype.io = I/O Error: {message}
 error.errortype.modulenotfound = Module not found: "{module}"
 error.errortype.circularparse = File {file_!r} seems to call itself
+error.errortype.nestedtoodeep = Nested too deeply, maybe a function is expanded endlessly
 error.errortype.any = {message}
 
 ## fullmsg ##
diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 700dbae..3341d44 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -55,6 +55,8 @@ class CTExecuter(ASTVisitor):
         except Error as e:
             if not e.location.linecol_set():
                 e.location.linecol = (self.curnode.lineno, self.curnode.col)
+            if not e.location.file_set():
+                e.location.file = self.file_name
             raise
 
     def node_location(self, node: AST):
@@ -62,7 +64,7 @@ class CTExecuter(ASTVisitor):
 
     def error_node(self, node: AST, *args, **kwds):
         err = Error(*args, **kwds)
-        # `err.location.file` is to be done by `Generator`
+        # `err.location.file` is to be done by `visittop`
         err.location.linecol = (node.lineno, node.col)
         raise err
 
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 9fdb232..89d1b0c 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -209,7 +209,10 @@ class Generator(ASTVisitor):
         if node.show_debug:
             self.write_debug(type(node).__name__)
         # visit the node
-        res = super().visit(node, **kwargs)
+        try:
+            res = super().visit(node, **kwargs)
+        except RecursionError:
+            self.error_c(ErrorType.NESTED_TOO_DEEP)
         # set back node info
         self.processing_node = old_node
         self.node_depth -= 1
-- 
2.43.0


From a3ef9615575ad092eda75228ff65f62681564880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 50/72] fix: errors in const functions showed internal names of
 operators

---
 acaciamc/mccmdgen/ctexecuter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 3341d44..0bb17ea 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -161,7 +161,7 @@ class CTExecuter(ASTVisitor):
             return meth()
         except InvalidOpError:
             self.error_node(node, ErrorType.INVALID_OPERAND,
-                            operator=node.operator.value,
+                            operator=node.operator.localized,
                             operand=f'"{obj.cdata_type.name}"')
 
     def visit_BinOp(self, node: BinOp):
@@ -177,7 +177,7 @@ class CTExecuter(ASTVisitor):
                 rs = right.cdata_type.name
                 self.error_node(
                     node, ErrorType.INVALID_OPERAND,
-                    operator=node.operator.value,
+                    operator=node.operator.localized,
                     operand=f'"{ls}", "{rs}"'
                 )
         return res
@@ -198,7 +198,7 @@ class CTExecuter(ASTVisitor):
                     rs = right.cdata_type.name
                     self.error_node(
                         node, ErrorType.INVALID_OPERAND,
-                        operator=operator.value,
+                        operator=operator.localized,
                         operand=f'"{ls}", "{rs}"'
                     )
             if not res:
@@ -216,7 +216,7 @@ class CTExecuter(ASTVisitor):
                 self.error_node(
                     node.operands[i],
                     ErrorType.INVALID_BOOLOP_OPERAND,
-                    operator=operator.value,
+                    operator=operator.localized,
                     operand=operand.cdata_type.name
                 )
             if operand.value and operator is Operator.or_:
@@ -287,7 +287,7 @@ class CTExecuter(ASTVisitor):
             t1 = abs(target).cdata_type.name
             t2 = value.cdata_type.name
             self.error_node(node, ErrorType.INVALID_OPERAND,
-                            operator=f'{node.operator.value}=',
+                            operator=f'{node.operator.localized}=',
                             operand=f'"{t1}", "{t2}"')
         target.set(res)
 
-- 
2.43.0


From 22f130ef311ac4abcd8c6eaf07a783f7cb07c11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 51/72] fix: crash on comparison of a boolean constant with
 other types

---
 acaciamc/objects/boolean.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index ed4aced..497bc36 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -163,6 +163,7 @@ class BoolLiteral(ConstExprCombined):
         true = self.value == (op is Operator.equal_to)
         if self.data_type.is_type_of(other):
             return other if true else other.unarynot(compiler)
+        raise InvalidOpError
 
     def ccompare(self, op: Operator, other: "CTObj"):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
-- 
2.43.0


From c74e5428aff9d385534437f7e239b9cad801d71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 52/72] fix: crash when the output directory cannot be created

---
 acaciamc/cli.py          | 6 +++++-
 acaciamc/lang/en_US.lang | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index e5423b4..564b7da 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -194,7 +194,11 @@ def run(args):
         out_up = os.path.dirname(out_path)
         if not os.path.exists(out_up):
             fatal(localize("cli.run.outputnotfound") % out_up)
-        os.mkdir(out_path)
+        try:
+            os.mkdir(out_path)
+        except OSError as e:
+            fatal(localize("cli.run.mkdirfailure")
+                  .format(path=out_path, message=e.strerror))
 
     try:
         compiler = Compiler(args.file, cfg)
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 71d35a6..295e96f 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -98,6 +98,7 @@ cli.tryrmtree.failure = failed to remove {path}: {message}
 cli.run.filenotfound = file not found: %s
 cli.run.notafile = not a file: %s
 cli.run.outputnotfound = output directory not found: %s
+cli.run.mkdirfailure = failed to create {path}: {message}
 cli.run.aboveunexpectederror = the above unexpected error occurred when compiling
 cli.run.unexpectederror = unexpected error when compiling: %s
 
-- 
2.43.0


From 7a5e76624bdea5ce26d9d6d058a7d97f4236655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 53/72] fix: main file and init file of the same name overwrote
 each other

---
 acaciamc/cli.py          | 6 +++++-
 acaciamc/lang/en_US.lang | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index 564b7da..f7e25d0 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -162,7 +162,11 @@ def get_config(args) -> Config:
     if args.internal_folder:
         assert_id(args.internal_folder, '--internal-folder')
         kwds["internal_folder"] = args.internal_folder
-    return Config(**kwds)
+    cfg = Config(**kwds)
+    # Minecraft paths are case-insensitive
+    if cfg.split_init and cfg.init_file.lower() == cfg.main_file.lower():
+        fatal(localize("cli.getconfig.initismain") % cfg.init_file)
+    return cfg
 
 def try_rmtree(path: str):
     """
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 295e96f..f2cee81 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -87,6 +87,7 @@ cli.assertid.fatal = option {option}: {msg}
 cli.getconfig.invalidfunctionfolder = invalid name {name} in function folder path: {msg}
 cli.getconfig.invalidmcversion = invalid Minecraft version: %s
 cli.getconfig.mcversiontooold = Minecraft version is too low: %s, at least 1.19.50 expected
+cli.getconfig.initismain = init file and main file can't have the same name: %s
 cli.getconfig.maxinlinetoolow = max inline file size must >= 0: %s
 
 ## try_rmtree ##
-- 
2.43.0


From 9cf28db3a04ac959b407de3ddd51c56ceb3be1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 54/72] fix: request made by a task for the very next tick was
 lost

---
 acaciamc/modules/schedule.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/acaciamc/modules/schedule.py b/acaciamc/modules/schedule.py
index c7a3343..a8f613c 100644
--- a/acaciamc/modules/schedule.py
+++ b/acaciamc/modules/schedule.py
@@ -102,6 +102,13 @@ class Task(ConstExprCombined):
             other_arg, other_kw, compiler, location="<schedule.Task>"
         )
         self.target_file.extend(call_cmds)
+        # Allocate a file that handles a request when its time has come:
+        # clear the request *before* calling the function, so that a new
+        # request sent by the function itself is not lost.
+        fire_file = cmds.MCFunctionFile()
+        compiler.add_file(fire_file)
+        fire_file.extend(self.timer_reset())
+        fire_file.write(cmds.InvokeFunction(self.target_file))
 
         @method_of(self, "after")
         @axe.chop
@@ -178,11 +185,11 @@ class Task(ConstExprCombined):
         compiler.file_tick.write(
             cmds.Execute(
                 [cmds.ExecuteScoreMatch(self.timer.slot, "0")],
-                runs=cmds.InvokeFunction(self.target_file)
+                runs=cmds.InvokeFunction(fire_file)
             ),
             # Decrease the timer by 1
             cmds.Execute(
-                [cmds.ExecuteScoreMatch(self.timer.slot, "0..")],
+                [cmds.ExecuteScoreMatch(self.timer.slot, "1..")],
                 runs=cmds.ScbRemoveConst(self.timer.slot, 1)
             )
         )
-- 
2.43.0


From bae87183fbcc97327177ed45d74834f02c510b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 55/72] fix: register_loop with a computed interval ran at the
 wrong ticks

---
 acaciamc/modules/schedule.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/acaciamc/modules/schedule.py b/acaciamc/modules/schedule.py
index a8f613c..1fe059b 100644
--- a/acaciamc/modules/schedule.py
+++ b/acaciamc/modules/schedule.py
@@ -224,7 +224,14 @@ def register_loop(compiler: "Compiler", target: AcaciaCallable,
     init_cmds = [cmds.ScbSetConst(timer.slot, 0)]
     # Tick loop
     ## Call on times up AND reset timer
-    tick_commands.extend(interval.export(timer, compiler))
+    reset_cmds = interval.export(timer, compiler)
+    if len(reset_cmds) > 1:
+        # All of the commands are conditioned on `timer`, so only the
+        # last one can change it.
+        new_timer = IntVar.new(compiler)
+        reset_cmds = interval.export(new_timer, compiler)
+        reset_cmds.extend(new_timer.export(timer, compiler))
+    tick_commands.extend(reset_cmds)
     compiler.file_tick.extend(
         cmds.execute(
             [cmds.ExecuteScoreMatch(timer.slot, "..0")], runs=cmd
-- 
2.43.0


From dff6e5dc23e4c495ee5085c22cc8dbf06bdcd5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 56/72] fix: expressions in different fstrings overwrote each
 other's value

---
 acaciamc/objects/boolean.py | 4 +++-
 acaciamc/objects/integer.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index 497bc36..a96ea24 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -99,7 +99,9 @@ def _export_bool(subcmds: List["_ExecuteSubcmd"], var: "BoolVar",
 
 def _bool_rawtextify(self: AcaciaExpr, compiler: "Compiler"):
     """A generic `rawtextify` implementation for bool."""
-    dependencies, var = to_BoolVar(self, compiler)
+    # The rawtext may be kept and used together with others later, so a
+    # temporary variable is not enough.
+    dependencies, var = to_BoolVar(self, compiler, tmp=False)
     return [cmds.RawtextScore(var.slot)], dependencies
 
 class BoolDataType(DefaultDataType, Storable, SupportsEntityField):
diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index f0adb96..cd56b0c 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -100,7 +100,9 @@ STR2PYINTOP: Dict[str, Callable[[int, int], int]] = {
 
 def _int_rawtextify(self: AcaciaExpr, compiler: "Compiler"):
     """A generic `rawtextify` implementation for int."""
-    dependencies, var = to_IntVar(self, compiler)
+    # The rawtext may be kept and used together with others later, so a
+    # temporary variable is not enough.
+    dependencies, var = to_IntVar(self, compiler, tmp=False)
     return [cmds.RawtextScore(var.slot)], dependencies
 
 class IntDataType(DefaultDataType, Storable, SupportsEntityField):
-- 
2.43.0


From a7060c68f1254d46df77a10629628d60e7c969c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 57/72] fix: crash on print.format("%{}")

---
 acaciamc/modules/print.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index d8771ce..36729a5 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -78,7 +78,7 @@ class _FStrParser:
         """Get the expr from an format
         e.g. "0" -> args[0]; "key" -> keywords["key"]
         """
-        if all(c in DIGITS for c in name):
+        if name and all(c in DIGITS for c in name):
             index = int(name)
             try:
                 expr = self.args[index]
-- 
2.43.0


From 5ac1053ff7f307ccfca707476200f4855bf44c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 58/72] fix: sum of fstrings lost the commands of the right one

---
 acaciamc/modules/print.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index 36729a5..8fec645 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -167,6 +167,7 @@ class FString(ConstExprCombined):
         if isinstance(other, String):
             res.rawtext.append(cmds.RawtextText(other.value))
         elif isinstance(other, FString):
+            res.dependencies.extend(other.dependencies)
             res.rawtext.extend(other.rawtext)
         else:
             raise InvalidOpError
-- 
2.43.0


From f14c7bc7d156ddd85686d5052daaa34e18e7add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 59/72] fix: outer font leaked into a font at the start or end
 of a text

---
 acaciamc/modules/print.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index 8fec645..6a64980 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -285,8 +285,9 @@ def _with_font(compiler: "Compiler", text: FString, color: str,
         if isinstance(component, _FontComponent):
             if component.label == "start":
                 start_levels += 1
-                if start_levels == 1 and i > start_i:
-                    scopes.append((start_i, i))
+                if start_levels == 1:
+                    if i > start_i:
+                        scopes.append((start_i, i))
                     start_i = -1
             if component.label == "end":
                 start_levels -= 1
-- 
2.43.0


From 2730728410068c923dbf0551db3447697ee34e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 60/72] fix: math.mod overflowed with divisors beyond 2^30

---
 acaciamc/modules/_math.aca | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acaciamc/modules/_math.aca b/acaciamc/modules/_math.aca
index 7415838..7725394 100644
--- a/acaciamc/modules/_math.aca
+++ b/acaciamc/modules/_math.aca
@@ -8,7 +8,10 @@ def mod(x: int, y: int) -> int:
      * -10 % 3 == -1 while mod(-10, 3) == 2
      * -10 % -3 == mod(-10, -3) == -1
      *#
-    result (x % y + y) % y
+    res := x % y
+    if res != 0 and (res >= 0) != (y >= 0):
+        res += y
+    result res
 
 def floordiv(x: int, y: int) -> int:
     #**
-- 
2.43.0


From a241eb448c05755d67c4a5fc2531d2fa70a826ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 61/72] fix: math.pow of literals computed gigantic numbers
 before refusing them

---
 acaciamc/modules/math.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acaciamc/modules/math.py b/acaciamc/modules/math.py
index 71dbf71..8760c58 100644
--- a/acaciamc/modules/math.py
+++ b/acaciamc/modules/math.py
@@ -7,6 +7,7 @@ from acaciamc.objects.integer import (
     IntRandom, IntCmdOp, IntOpSelf, IntOpVar, IntOp, STR2SCBOP
 )
 from acaciamc.ast import ModuleMeta
+from acaciamc.error import Error, ErrorType
 from acaciamc.tools import axe
 from acaciamc.constants import INT_MIN, INT_MAX
 from acaciamc.localization import localize
@@ -60,6 +61,9 @@ def _pow(compiler: "Compiler", base, exp):
         return IntLiteral(1)
     # Optimize when base is a literal
     if isinstance(base, IntLiteral):
+        if abs(base.value) > 1 and exp.value > 31:
+            # Do not compute a huge number just to find that out
+            raise Error(ErrorType.INT_OVERFLOW)
         return IntLiteral(base.value ** exp.value)
     # Base is a variable but exp is a literal
     # Reference: https://en.wikipedia.org/wiki/Exponentiation_by_squaring
-- 
2.43.0


From 6f7791afecd49df702dac8f9ef55bb9ff1f6ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 62/72] fix: floats were written in scientific notation in
 commands

---
 acaciamc/mccmdgen/cmds.py           | 11 +++++++++++
 acaciamc/modules/world.py           |  2 +-
 acaciamc/objects/position_offset.py |  3 ++-
 acaciamc/objects/rotation.py        |  6 ++++--
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 93d964a..fdfaae3 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -1,6 +1,7 @@
 """Abstraction of Minecraft commands."""
 
 from abc import ABCMeta, abstractmethod
+from decimal import Decimal
 from enum import Enum
 from typing import List, NamedTuple, Optional, Union, Iterable, Callable, Dict
 import json
@@ -28,6 +29,16 @@ def mc_str(s: str) -> str:
     else:
         return s
 
+def mc_float(value: float) -> str:
+    """
+    Convert a floating-point number to a number in command.
+    Commands don't support scientific notation.
+    """
+    res = str(value)
+    if "e" in res:
+        res = format(Decimal(res), "f")
+    return res
+
 def mc_selector(s: str) -> str:
     if s.startswith("@"):
         return s
diff --git a/acaciamc/modules/world.py b/acaciamc/modules/world.py
index 0643344..8de733f 100644
--- a/acaciamc/modules/world.py
+++ b/acaciamc/modules/world.py
@@ -697,7 +697,7 @@ def spread(compiler, target: "MCSelector", center: Position,
         )
     cmd = cmds.Execute(
         center.context, "spreadplayers ~ ~ %s %s %s" % (
-            interval, range_, target.to_str()
+            cmds.mc_float(interval), cmds.mc_float(range_), target.to_str()
         )
     )
     return resultlib.commands([cmd])
diff --git a/acaciamc/objects/position_offset.py b/acaciamc/objects/position_offset.py
index 778205e..6f972e0 100644
--- a/acaciamc/objects/position_offset.py
+++ b/acaciamc/objects/position_offset.py
@@ -15,6 +15,7 @@ from acaciamc.tools import axe, cmethod_of, ImmutableMixin, transform_immutable
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTDataType
 from acaciamc.mccmdgen.expr import *
+import acaciamc.mccmdgen.cmds as cmds
 from .types import Type
 
 class CoordinateType(Enum):
@@ -121,7 +122,7 @@ class PosOffset(ConstExprCombined, ImmutableMixin):
 
     def __str__(self) -> str:
         return " ".join(
-            type_.value + str(value)
+            type_.value + cmds.mc_float(value)
             for type_, value in zip(self.value_types, self.values)
         )
 
diff --git a/acaciamc/objects/rotation.py b/acaciamc/objects/rotation.py
index 98014d5..6e7b769 100644
--- a/acaciamc/objects/rotation.py
+++ b/acaciamc/objects/rotation.py
@@ -51,7 +51,9 @@ class RotType(Type):
             def absolute(cls, compiler, vertical: float, horizontal: float):
                 inst = Rotation()
                 inst.context.append(cmds.ExecuteEnv(
-                    "rotated", "%s %s" % (vertical, horizontal)
+                    "rotated", "%s %s" % (
+                        cmds.mc_float(vertical), cmds.mc_float(horizontal)
+                    )
                 ))
                 return inst
         @cmethod_of(self, "face_entity")
@@ -104,7 +106,7 @@ class Rotation(ConstExprCombined, ImmutableMixin):
                 if arg is None:
                     vh.append("~")
                 else:
-                    vh.append(type_prefix + str(arg))
+                    vh.append(type_prefix + cmds.mc_float(arg))
             self.context.append(cmds.ExecuteEnv("rotated", " ".join(vh)))
             return self
         return _setter
-- 
2.43.0


From 6913a065223a65e5fae193ffd30269a1e09a6afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 63/72] fix: infinite floats were accepted and written in
 commands

---
 acaciamc/objects/float_.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acaciamc/objects/float_.py b/acaciamc/objects/float_.py
index 2513c91..a0a311a 100644
--- a/acaciamc/objects/float_.py
+++ b/acaciamc/objects/float_.py
@@ -3,6 +3,7 @@
 __all__ = ["FloatDataType", "Float", "FloatType"]
 
 from functools import partialmethod
+from math import isfinite
 
 from acaciamc.error import Error, ErrorType
 from acaciamc.tools import axe, cmethod_of
@@ -39,6 +40,9 @@ class Float(ConstExprCombined):
     def __init__(self, value: float):
         super().__init__(FloatDataType())
         self.value = value
+        # check overflow
+        if not isfinite(value):
+            raise Error(ErrorType.CONST_ARITHMETIC, message="float overflow")
 
     def cstringify(self) -> str:
         return str(self)
-- 
2.43.0


From 45117171107efcee3f41b39672dc4730c05ef00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 64/72] fix: any string was accepted as an anchor and written
 in commands

---
 acaciamc/objects/position.py | 2 +-
 acaciamc/objects/rotation.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/position.py b/acaciamc/objects/position.py
index f2cce8e..88741b8 100644
--- a/acaciamc/objects/position.py
+++ b/acaciamc/objects/position.py
@@ -42,7 +42,7 @@ class PosType(Type):
             """
             @axe.overload
             @axe.arg("target", entity_module.EntityDataType)
-            @axe.arg("anchor", axe.LiteralString())
+            @axe.arg("anchor", axe.LiteralStringEnum("feet", "eyes"))
             def from_entity(cls, compiler, target: "_EntityBase", anchor: str):
                 inst = Position()
                 inst.context.append(cmds.ExecuteEnv("at", target.to_str()))
diff --git a/acaciamc/objects/rotation.py b/acaciamc/objects/rotation.py
index 6e7b769..fbdbde4 100644
--- a/acaciamc/objects/rotation.py
+++ b/acaciamc/objects/rotation.py
@@ -59,7 +59,8 @@ class RotType(Type):
         @cmethod_of(self, "face_entity")
         @axe.chop
         @axe.arg("target", entity_module.EntityDataType)
-        @axe.arg("anchor", axe.LiteralString(), default=DEFAULT_ANCHOR)
+        @axe.arg("anchor", axe.LiteralStringEnum("feet", "eyes"),
+                 default=DEFAULT_ANCHOR)
         def _face_entity(compiler, target: "_EntityBase", anchor: str):
             inst = Rotation()
             inst.context.append(cmds.ExecuteEnv(
-- 
2.43.0


From 2dbb8ca19dae91f7000f947c18b2d6c6a849f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 65/72] fix: aligning a position on no axis gave a malformed
 command

---
 acaciamc/objects/position.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/position.py b/acaciamc/objects/position.py
index 88741b8..80f78e2 100644
--- a/acaciamc/objects/position.py
+++ b/acaciamc/objects/position.py
@@ -131,7 +131,8 @@ class Position(ConstExprCombined, ImmutableMixin):
             `Pos(10.5, 9.8, 10.5).align("xz")` gives `Pos(10, 9.8, 10)`.
             """
             axis_set = set(axis)
-            if len(axis) != len(axis_set) or not axis_set.issubset(XYZ):
+            if (not axis or len(axis) != len(axis_set)
+                    or not axis_set.issubset(XYZ)):
                 raise Error(ErrorType.INVALID_POS_ALIGN, align=axis)
             self.context.append(cmds.ExecuteEnv("align", axis))
             return self
-- 
2.43.0


From 5e037c9105a6b3cac0f326cb264ad7ca151dc2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 66/72] fix: the result of an inline function set inside a for
 loop was lost

---
 acaciamc/mccmdgen/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 89d1b0c..07eaca3 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -907,6 +907,9 @@ class Generator(ASTVisitor):
                     self.register_symbol(node.name, value)
                     for stmt in node.body:
                         self.visit(stmt)
+                    inline_result = self.ctx.inline_result
+                # The result of the function may have been set in body
+                self.ctx.inline_result = inline_result
         else:
             assert isinstance(iterable, EntityGroup)
             with self.new_mcfunc_file() as body_file, \
@@ -919,6 +922,8 @@ class Generator(ASTVisitor):
                 self.register_symbol(node.name, this)
                 for stmt in node.body:
                     self.visit(stmt)
+                inline_result = self.ctx.inline_result
+            self.ctx.inline_result = inline_result
             self.write_debug("Entity group iteration at %s"
                              % body_file.get_path())
             self.current_file.write(cmds.Execute(
-- 
2.43.0


From 8b2dedf31b4845627adce662d36e1be47507d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 67/72] fix: simultaneous messages of a MIDI track were played
 one MIDI tick after another

---
 acaciamc/modules/music.py | 40 +++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/acaciamc/modules/music.py b/acaciamc/modules/music.py
index 24d6143..3a7a2d1 100644
--- a/acaciamc/modules/music.py
+++ b/acaciamc/modules/music.py
@@ -397,26 +397,26 @@ class Music(ConstExprCombined):
     def main_loop(self):
         # Read messages
         for i, track in enumerate(self.tracks):
-            if not track:
-                continue
-            message = track[0]
-            if message.time > self.mt - self.last_msg_mt[i]:
-                continue
-            # Handle message
-            mtype = message.type
-            if mtype == "note_on":
-                if message.velocity != 0:
-                    self.play_note(message)
-            elif mtype == "set_tempo":
-                self.bpm = 6E+7 / message.tempo
-            elif message.is_cc():
-                if message.control == 7:  # Volume
-                    self.channel_volume[message.channel] = message.value
-            elif mtype == "program_change":
-                self.channel_instrument[message.channel] = message.program
-            # Reset timer
-            self.last_msg_mt[i] = self.mt
-            track.pop(0)
+            # A track may have several messages at the same time.
+            while track:
+                message = track[0]
+                if message.time > self.mt - self.last_msg_mt[i]:
+                    break
+                # Handle message
+                mtype = message.type
+                if mtype == "note_on":
+                    if message.velocity != 0:
+                        self.play_note(message)
+                elif mtype == "set_tempo":
+                    self.bpm = 6E+7 / message.tempo
+                elif message.is_cc():
+                    if message.control == 7:  # Volume
+                        self.channel_volume[message.channel] = message.value
+                elif mtype == "program_change":
+                    self.channel_instrument[message.channel] = message.program
+                # Reset timer
+                self.last_msg_mt[i] = self.mt
+                track.pop(0)
         # Time increment
         self.mt += 1
         # bpm * mt_per_beat is MT per minute. Divide it by 1200 to get MT
-- 
2.43.0


From 781b00a34c5c6c608637db490793a13c30c999f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 68/72] fix: a reference of a wrong type in a constant function
 crashed the compiler

---
 acaciamc/mccmdgen/ctexecuter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 0bb17ea..96deadf 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -299,7 +299,7 @@ class CTExecuter(ASTVisitor):
             dt: CTDataType = self.visit(node.type)
             if not dt.is_typeof(value):
                 self.error_node(node.type, ErrorType.WRONG_REF_TYPE,
-                                anno=dt.name, got=value.cdata_type.name)
+                                anno=dt.name, got=abs(value).cdata_type.name)
         self.register_symbol(node.name, value)
 
     def visit_ExprStatement(self, node: ExprStatement):
-- 
2.43.0


From 5f81f1fac21874689094b8eeebc664502da4bb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 69/72] fix: source files that cannot be decoded and folders
 that cannot be listed crashed the compiler

---
 acaciamc/compiler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index 5df2d2e..7fbfa1e 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -10,6 +10,7 @@ from typing import (
 )
 import os
 from contextlib import contextmanager
+from io import StringIO
 
 from acaciamc.ast import ModuleMeta
 from acaciamc.error import *
@@ -367,7 +368,11 @@ class Compiler:
                 # meaning this `root` is invalid; continue
                 continue
             ## Step 3
-            for child in sorted(os.listdir(final)):
+            try:
+                children = sorted(os.listdir(final))
+            except OSError as err:
+                self.raise_error(Error(ErrorType.IO, message=str(err)))
+            for child in children:
                 path = os.path.join(final, child)
                 if not os.path.isfile(path):
                     continue
@@ -463,7 +468,9 @@ class Compiler:
         for p in self._loading_files:
             if os.path.samefile(p, path):
                 self.raise_error(Error(ErrorType.CIRCULAR_PARSE, file_=path))
-        src_file = self._open_file(path)
+        # Read everything at once so that what cannot be decoded is an
+        # IO error
+        src_file = StringIO(self._read_file(path))
         oldf = self._current_file
         oldg = self.current_generator
         self._current_file = path
-- 
2.43.0


From 76e9f127703c27d60423a21475a26902db477973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 70/72] fix: later results of an inline function were not
 checked against the variable holding the first

---
 acaciamc/mccmdgen/generator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 07eaca3..eef3fdd 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -999,6 +999,12 @@ class Generator(ASTVisitor):
                 if self.ctx.inline_result is None:
                     self.ctx.inline_result = dt.new_var(self.compiler)
                     self.ctx.inline_result.is_temporary = True
+                # When there are several results, the first one decides
+                # which type of values can be held
+                expect = self.ctx.inline_result.data_type
+                if not expect.matches(dt):
+                    self.error_c(ErrorType.WRONG_RESULT_TYPE,
+                                 expect=str(expect), got=str(dt))
                 self.current_file.extend(
                     value.export(self.ctx.inline_result, self.compiler)
                 )
-- 
2.43.0


From 71597358e0fb6ee559571972869fb460b99756d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:23 +0000
Subject: [PATCH 71/72] fix: a list or map modified by a constant function
 stayed modified when it was the default of an argument

---
 acaciamc/mccmdgen/ctexpr.py   |  7 +++++++
 acaciamc/objects/functions.py | 10 +++++++++-
 acaciamc/objects/list_.py     |  3 +++
 acaciamc/objects/map_.py      |  4 ++++
 4 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/ctexpr.py b/acaciamc/mccmdgen/ctexpr.py
index e2f5624..f062d36 100644
--- a/acaciamc/mccmdgen/ctexpr.py
+++ b/acaciamc/mccmdgen/ctexpr.py
@@ -92,6 +92,13 @@ class CTObj:
     def chash(self) -> Hashable:
         raise InvalidOpError
 
+    def ccopy(self) -> "CTObj":
+        """
+        Return an object that does not change when this is modified.
+        Only objects that can be modified need to implement this.
+        """
+        return self
+
 class CTObjPtr:
     def __init__(self, value: CTObj):
         self.set(value)
diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index d52aa1d..3d33281 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -123,6 +123,10 @@ class ArgumentHandler(Generic[IT, T, DT]):
         """
         raise NotImplementedError
 
+    def get_default(self, arg: str) -> T:
+        """Get the default value of argument for a call."""
+        return self.arg_defaults[arg]
+
     def __type_check(self, arg: str, value: T, type_: Optional[DT]) -> T:
         if type_ is None:
             return value
@@ -154,7 +158,7 @@ class ArgumentHandler(Generic[IT, T, DT]):
         for arg, value in res.copy().items():
             if value is None:
                 if arg in self.arg_defaults:
-                    res[arg] = self.arg_defaults[arg]
+                    res[arg] = self.get_default(arg)
                 else:
                     raise Error(ErrorType.MISSING_ARG, arg=arg)
         return res
@@ -335,6 +339,10 @@ class CTArgHandler(ArgumentHandler[
             else:
                 return new_value
 
+    def get_default(self, arg: str):
+        # The call may modify it, e.g. when it is a list.
+        return abs(super().get_default(arg)).ccopy()
+
 class AcaciaCTFunction(ConstExprCombined, AcaciaCallable, CTCallable):
     cdata_type = ctdt_function
 
diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index 3da5663..f2ec159 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -291,3 +291,6 @@ class CTList(CTConstList):
         def _pop(compiler, index: int):
             self._validate_index(index)
             return self.ptrs.pop(index)
+
+    def ccopy(self):
+        return CTList(abs(x).ccopy() for x in self.ptrs)
diff --git a/acaciamc/objects/map_.py b/acaciamc/objects/map_.py
index 859d377..65ed48d 100644
--- a/acaciamc/objects/map_.py
+++ b/acaciamc/objects/map_.py
@@ -266,6 +266,10 @@ class CTMap(CTConstMap):
         def _clear(compiler):
             self.data.clear()
 
+    def ccopy(self):
+        return CTMap(self.citerate(),
+                     [abs(v).ccopy() for v in self.values()])
+
     def pop(self, key: "CTExpr") -> Optional[CTObj]:
         py_key = self.get_key(key)
         if py_key in self.data:
-- 
2.43.0


From d294f33026865b4fd8aab6c9e77c2d45f324d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:23 +0000
Subject: [PATCH 72/72] fix: a for loop in a constant function skipped
 elements, or never ended, when its body changed the list

---
 acaciamc/mccmdgen/ctexecuter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 96deadf..f7f3835 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -343,7 +343,8 @@ class CTExecuter(ASTVisitor):
                 node.expr, ErrorType.NOT_ITERABLE,
                 type_=iterable.cdata_type.name
             )
-        for value in values:
+        # The body may add or remove elements
+        for value in list(values):
             with self.new_scope():
                 self.register_symbol(node.name, abs(value))
                 for stmt in node.body:
-- 
2.43.0

