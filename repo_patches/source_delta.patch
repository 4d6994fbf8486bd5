From 277822b119124e080a8a7a5df5bdeff05d5f4260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:57 +0000
Subject: [PATCH 01/32] fix: adding a number to or subtracting it from an
 infinite Range keeps it infinite

---
 execution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/execution.py b/execution.py
index d1c0b2b..6b20521 100644
--- a/execution.py
+++ b/execution.py
@@ -780,6 +780,8 @@ class ProgramState:
                 lower += int(lhs)
                 if upper is not None:
                     upper += int(lhs)
+                else:
+                    upper = nil
                 return Range(lower, upper)
             else:
                 return List(self.ADD(lhs, item) for item in rhs)
@@ -3860,6 +3862,8 @@ class ProgramState:
             lower -= int(rhs)
             if upper is not None:
                 upper -= int(rhs)
+            else:
+                upper = nil
             return Range(lower, upper)
         elif isinstance(lhs, Scalar) and isinstance(rhs, Range):
             return List(self.SUB(lhs, item) for item in rhs)
-- 
2.43.0


From 2d693c43c836bd1f62618325a851faf7e787da83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:13 +0000
Subject: [PATCH 02/32] fix: assignment and argument passing copy values, so
 in-place modification can't affect other values

---
 execution.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/execution.py b/execution.py
index 6b20521..e7da502 100644
--- a/execution.py
+++ b/execution.py
@@ -353,7 +353,9 @@ class ProgramState:
         varTable = self.varTable(base)
         if not lval.sliceList:
             # This is a simple name; just make the assignment
-            varTable[base] = rval
+            # (copy the value, so that modifying this variable in place can't
+            # modify anything else)
+            varTable[base] = rval.copy()
             return
         elif base not in varTable:
             # If there is a slicelist, the variable must exist
@@ -388,7 +390,7 @@ class ProgramState:
             # Test for this case and warning message TODO?
             index = lval.sliceList[-1]
             try:
-                currentVal[index] = rval
+                currentVal[index] = rval.copy()
             except (IndexError, ZeroDivisionError):
                 self.err.warn(f"Invalid index into {currentVal!r}:", index)
             #!print(f"After assign, variable {base!r} is", varTable[base])
@@ -616,7 +618,7 @@ class ProgramState:
             }
         self.vars["\\g"] = List(self.args)
         for name, arg in zip("abcde", self.args):
-            self.vars["\\" + name] = arg
+            self.vars["\\" + name] = arg.copy()
         if self.mainFunction is not None:
             self.vars["\\f"] = self.mainFunction
         else:
@@ -4388,7 +4390,7 @@ class LocalScope:
         self.vars = {}
         if self.argList is not None:
             for name, arg in zip("abcde", argList):
-                self.vars[name] = arg
+                self.vars[name] = arg.copy()
             self.vars["f"] = function
             self.vars["g"] = List(argList)
 
-- 
2.43.0


From f55070766e084fe4accdfa1284f643dc5382dda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:14 +0000
Subject: [PATCH 03/32] fix: restore the caller's local scope after a fatal
 error inside a function

---
 execution.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/execution.py b/execution.py
index e7da502..a3736eb 100644
--- a/execution.py
+++ b/execution.py
@@ -405,18 +405,22 @@ class ProgramState:
                    for arg in argList]
         # Open a new scope for the function's local variables
         self.openScope(function, argList)
-        for statement in function.getStatements():
-            statementValue = self.executeStatement(statement)
-            # If the statement was actually an expression, store its
-            # value in the history variables ($_ etc.)
-            if statementValue is not None:
-                self.updateHistoryVars(statementValue)
-        returnExpr = function.getReturnExpr()
-        if returnExpr is not None:
-            returnVal = self.getRval(returnExpr)
-        else:
-            returnVal = nil
-        self.closeScope()
+        try:
+            for statement in function.getStatements():
+                statementValue = self.executeStatement(statement)
+                # If the statement was actually an expression, store its
+                # value in the history variables ($_ etc.)
+                if statementValue is not None:
+                    self.updateHistoryVars(statementValue)
+            returnExpr = function.getReturnExpr()
+            if returnExpr is not None:
+                returnVal = self.getRval(returnExpr)
+            else:
+                returnVal = nil
+        finally:
+            # Even if there was a fatal error, the caller's scope must be
+            # restored (the repl continues execution after a fatal error)
+            self.closeScope()
         return returnVal
 
     def openScope(self, function, argList):
-- 
2.43.0


From ccef05d2eec179ee92083b2a677d3985c84c3ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:16 +0000
Subject: [PATCH 04/32] fix: NameError when assigning through an invalid
 intermediate index

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index a3736eb..2b5323d 100644
--- a/execution.py
+++ b/execution.py
@@ -378,7 +378,7 @@ class ProgramState:
                 try:
                     currentVal = currentVal[index]
                 except IndexError:
-                    self.err.warn(f"Invalid index into {result!r}: {index}")
+                    self.err.warn(f"Invalid index into {currentVal!r}: {index}")
                     return
                 
             # Final level--do the assignment
-- 
2.43.0


From 146bfc90edd0e61588c7c3193b5e275724eb7e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:38 +0000
Subject: [PATCH 05/32] fix: an escaped backslash in an escaped string does not
 start an interpolation

---
 parsing.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parsing.py b/parsing.py
index ab910da..ae229d8 100644
--- a/parsing.py
+++ b/parsing.py
@@ -213,7 +213,15 @@ def parseOperand(tokenList):
         # Strip off \" delimiters
         rawText = token[2:-2]
         # Parse any interpolation sequences (for now, just names)
-        litOrInterpolation = re.split(r"\\([a-z_]|[A-Z]{1,2})", rawText)
+        # (a doubled backslash is an escaped backslash, not the start of an
+        # interpolation)
+        litOrInterpolation = [""]
+        pieces = re.split(r"(\\\\|\\(?:[a-z_]|[A-Z]{1,2}))", rawText)
+        for i, piece in enumerate(pieces):
+            if i % 2 == 1 and piece != r"\\":
+                litOrInterpolation.extend((piece[1:], ""))
+            else:
+                litOrInterpolation[-1] += piece
         if len(litOrInterpolation) == 1:
             # No interpolations--return the token unchanged
             return token
-- 
2.43.0


From e9788ba66d7a01241dd784cf3ef397d0703981ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:40 +0000
Subject: [PATCH 06/32] fix: repr of a Scalar like -05 needs quotes to evaluate
 to the same value

---
 ptypes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ptypes.py b/ptypes.py
index cd42463..651bad7 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -55,9 +55,12 @@ class Scalar(PipIterable):
 
     def __repr__(self):
         m = pipFloatRgx.match(self._value) or intRgx.match(self._value)
-        if m and m.end() == len(self._value):
+        if (m and m.end() == len(self._value)
+                and (self._value[0] != "-"
+                     or str(Scalar(self.toNumber())) == self._value)):
             # Scalars that match the format of Pip numeric literals
-            # can be displayed without quotes
+            # can be displayed without quotes (but a negative number is an
+            # expression, so only if it would evaluate to this same Scalar)
             return self._value
         else:
             # Other Scalars, even those that can evaluate to a number,
-- 
2.43.0


From 58b05f29c0b3bebd746aae81d8b1f30df812af17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:14 +0000
Subject: [PATCH 07/32] fix: unparse must not strip a trailing semicolon or
 space character literal

---
 parsing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsing.py b/parsing.py
index ae229d8..36dafe9 100644
--- a/parsing.py
+++ b/parsing.py
@@ -333,8 +333,9 @@ def parseOperand(tokenList):
 
 def unparse(tree, statementSep=""):
     "Convert parse tree back to string of code."
-    code = ""
+    statements = []
     for statement in tree:
+        code = ""
         if isinstance(statement, list):
             # A parse tree
             if isinstance(statement[0], operators.Operator):
@@ -353,9 +354,8 @@ def unparse(tree, statementSep=""):
         else:
             # Not a parse tree, probably a literal or name
             code += unparseExpr(statement, statementSep)
-        code += "; "
-        code += statementSep
-    return code.strip("; " + statementSep)
+        statements.append(code)
+    return ("; " + statementSep).join(statements)
 
 def unparseExpr(tree, statementSep):
     "Convert parse tree of expression back to string of code."
-- 
2.43.0


From 7a320df91deedf3df88d686a236964446fcb1e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:16 +0000
Subject: [PATCH 08/32] fix: unparse separates the two expressions of an LR
 command

---
 parsing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parsing.py b/parsing.py
index 36dafe9..0c25944 100644
--- a/parsing.py
+++ b/parsing.py
@@ -348,6 +348,10 @@ def unparse(tree, statementSep=""):
                         code += " EL"
                         argtype = "CODE"
                     if argtype == "LOOPVAR" or argtype == "EXPR":
+                        if i > 0 and argtype == statement[0].argtypes[i-1]:
+                            # Keep two consecutive expressions from running
+                            # together
+                            code += ";"
                         code += " " + unparseExpr(arg, statementSep)
                     elif argtype == "CODE":
                         code += " {" + unparse(arg, statementSep) + "}"
-- 
2.43.0


From 5b3d3ab974d89b9d33ac59dc2ce4a50f1662d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:17 +0000
Subject: [PATCH 09/32] fix: unparse parenthesizes values whose representation
 is an expression

---
 parsing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parsing.py b/parsing.py
index 0c25944..4956910 100644
--- a/parsing.py
+++ b/parsing.py
@@ -402,5 +402,9 @@ def unparseExpr(tree, statementSep):
         # Assume that this is a Pip type, which can get into a parse
         # tree via lambda-building operators
         code = repr(tree)
+        if code[0] in "-A,.":
+            # A negative number or a Pattern with flags is an expression with
+            # a unary operator, which might bind differently as an operand
+            code = "(" + code + ")"
     return code
 
-- 
2.43.0


From 5eff5089a3ed7b340993cc104b340691a73f98f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:19 +0000
Subject: [PATCH 10/32] fix: functions differing only in a meta-operator are
 not equal

---
 operators.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/operators.py b/operators.py
index b739261..fb8b668 100644
--- a/operators.py
+++ b/operators.py
@@ -59,6 +59,18 @@ class Operator(tokens.Token):
         return (f"Operator({self},{self.function},{self.arity},"
                 f"{self.precedence},{self.associativity})")
 
+    def __eq__(self, rhs):
+        if isinstance(rhs, Operator):
+            # Operators modified by different meta-operators aren't equal
+            return (self._text == rhs._text
+                    and self.assign == rhs.assign
+                    and self.map == rhs.map
+                    and self.fold == rhs.fold
+                    and self.scan == rhs.scan)
+        return super().__eq__(rhs)
+
+    __hash__ = tokens.Token.__hash__
+
     def copy(self):
         cpy = Operator(self._text,
                        self.function,
-- 
2.43.0


From 78d18365c693473fa30d411ef3d547bb048f4d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:21 +0000
Subject: [PATCH 11/32] fix: lambdas built by folding or scanning contain
 binary operations

---
 execution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/execution.py b/execution.py
index 2b5323d..d2a3a02 100644
--- a/execution.py
+++ b/execution.py
@@ -636,6 +636,7 @@ class ProgramState:
         iterable = self.getRval(iterable)
         normalOp = operator.copy()
         normalOp.fold = False
+        normalOp.arity = 2
         if isinstance(iterable, Block):
             # Create a lambda expression instead
             statements = iterable.getStatements()
@@ -702,6 +703,7 @@ class ProgramState:
         iterable = self.getRval(iterable)
         normalOp = operator.copy()
         normalOp.scan = False
+        normalOp.arity = 2
         if isinstance(iterable, Block):
             # Create a lambda expression instead
             statements = iterable.getStatements()
-- 
2.43.0


From c905b8bccdb0536fcec80affa4e9c89224c2676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:46 +0000
Subject: [PATCH 12/32] fix: mapping an operator that returns an lvalue puts
 its value in the resulting List

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index d2a3a02..e8980ad 100644
--- a/execution.py
+++ b/execution.py
@@ -692,7 +692,7 @@ class ProgramState:
             newReturnExpr = [operator, returnExpr]
             return Block(statements, newReturnExpr)
         elif isinstance(iterable, PipIterable):
-            return List(self.evaluate([normalOp, item]) for item in iterable)
+            return List(self.getRval([normalOp, item]) for item in iterable)
         elif iterable is nil:
             return nil
         else:
-- 
2.43.0


From 1b5d7b62649c342a17a891965eff741afa08fb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:06 +0000
Subject: [PATCH 13/32] fix: taking a slice of a list of variables returns the
 slice, not the whole list

---
 execution.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index e8980ad..1ccd1ca 100644
--- a/execution.py
+++ b/execution.py
@@ -4353,7 +4353,12 @@ class ProgramState:
 class Lval:
     def __init__(self, base, sliceValue=None):
         if isinstance(base, Lval):
-            self.base = base.base
+            if isinstance(base.base, List) and sliceValue is not None:
+                # A slice of a list of lvals is a shorter list of lvals
+                self.base = base.base[sliceValue]
+                sliceValue = None
+            else:
+                self.base = base.base
             # Make sure to copy the slicelist so changes here don't modify the
             # original
             self.sliceList = base.sliceList[:]
-- 
2.43.0


From 941531f5b328aac70e265168b7412d9a83ccd0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 14/32] fix: RA on a Range replaces items instead of failing

---
 execution.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 1ccd1ca..0cb9aed 100644
--- a/execution.py
+++ b/execution.py
@@ -3255,7 +3255,14 @@ class ProgramState:
     def REPLACEAT(self, lhs, index, new):
         if (isinstance(lhs, PipIterable)
                 and isinstance(index, PipIterable)):
-            result = lhs.copy()
+            if isinstance(lhs, Range):
+                # Can't modify a Range... cast it to a List first
+                if not lhs.isFinite():
+                    self.err.warn("Can't replace items of infinite Range")
+                    return nil
+                result = List(lhs)
+            else:
+                result = lhs.copy()
             if isinstance(index, List):
                 if isinstance(new, List):
                     # Both are lists--replace at corresponding indices
-- 
2.43.0


From 4bcce1eeebdb8a616f0441ea7063dd12611ed3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 15/32] fix: NameErrors when warning about wrong argument types
 for ZD and MM

---
 execution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 0cb9aed..3af826e 100644
--- a/execution.py
+++ b/execution.py
@@ -2264,7 +2264,7 @@ class ProgramState:
             return List(self.MAP(lhs, item) for item in iterable)
         else:
             self.err.warn("Unimplemented argtypes for MAPMAP:",
-                          type(function), "and", type(iterable))
+                          type(lhs), "and", type(iterable))
             return nil
 
     def MAPPAIRS(self, function, iterable):
@@ -4327,7 +4327,7 @@ class ProgramState:
                 return List(List(tuple) for tuple in
                             itertools.zip_longest(*lists, fillvalue=default))
         else:
-            self.err.warn("Trying to zip non-iterable:", type(list1))
+            self.err.warn("Trying to zip non-iterable:", type(lists))
             return nil
 
     def ZIPJOIN(self, line1, line2=None):
-- 
2.43.0


From 504d36befdf2de0a73181d5106cd6a05fb9dee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:31 +0000
Subject: [PATCH 16/32] fix: \, checks the type of its right operand

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 3af826e..c06f137 100644
--- a/execution.py
+++ b/execution.py
@@ -1903,7 +1903,7 @@ class ProgramState:
 
     def INCLRANGE(self, lhs, rhs):
         """Like RANGE, but include upper bound."""
-        if isinstance(lhs, (Scalar, Nil)) and isinstance(lhs, (Scalar, Nil)):
+        if isinstance(lhs, (Scalar, Nil)) and isinstance(rhs, (Scalar, Nil)):
             if isinstance(rhs, Scalar):
                 return Range(lhs, int(rhs) + 1)
             elif rhs is nil:
-- 
2.43.0


From f1aaf66462316fdd1da912aafc6a49af1fa51931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:00 +0000
Subject: [PATCH 17/32] fix: WV of an empty List or a non-iterable

---
 execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index c06f137..bbe319f 100644
--- a/execution.py
+++ b/execution.py
@@ -4219,7 +4219,7 @@ class ProgramState:
                         self.err.warn("Cannot weave object of type",
                                       type(iterable))
                         return nil
-                for i in range(max(map(len, iterables))):
+                for i in range(max(map(len, iterables), default=0)):
                     for iterable in iterables:
                         if i < len(iterable):
                             result.append(iterable[i])
@@ -4227,6 +4227,10 @@ class ProgramState:
                     return Scalar(self.JOIN(result))
                 else:
                     return List(result)
+            else:
+                self.err.warn("Unimplemented argtype for WEAVE:",
+                              type(iterables))
+                return nil
         else:
             # Binary version: two iterables to be woven together
             if iterable1 is nil:
-- 
2.43.0


From e6e8dc96e5d78e0b12756378225e9e9c07993ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:02 +0000
Subject: [PATCH 18/32] fix: choosing from an empty iterable or range is a
 warning, not a crash

---
 execution.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/execution.py b/execution.py
index bbe319f..775a417 100644
--- a/execution.py
+++ b/execution.py
@@ -3085,6 +3085,9 @@ class ProgramState:
 
     def RANDCHOICE(self, iterable):
         if isinstance(iterable, PipIterable):
+            if iterable.isEmpty():
+                self.err.warn("Cannot choose from empty iterable")
+                return nil
             index = random.randrange(len(iterable))
             return iterable[index]
         else:
@@ -3099,6 +3102,9 @@ class ProgramState:
             else:
                 lhs = int(lhs)
             rhs = int(rhs)
+            if lhs >= rhs:
+                self.err.warn("Cannot choose from empty range")
+                return nil
             return Scalar(random.randrange(lhs, rhs))
         else:
             self.err.warn("Unimplemented argtypes for RANDRANGE:",
@@ -3108,6 +3114,9 @@ class ProgramState:
     def RANDRANGETO(self, rhs):
         """Unary version of RANDRANGE."""
         if isinstance(rhs, Scalar):
+            if int(rhs) <= 0:
+                self.err.warn("Cannot choose from empty range")
+                return nil
             return Scalar(random.randrange(int(rhs)))
         else:
             self.err.warn("Unimplemented argtype for RANDRANGETO:",
-- 
2.43.0


From d9032b75783ffc643dc9722c38b6361ba538171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 19/32] fix: C of an invalid character code is a warning, not a
 crash

---
 execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 775a417..df11618 100644
--- a/execution.py
+++ b/execution.py
@@ -1129,7 +1129,11 @@ class ProgramState:
 
     def CHR(self, rhs):
         if isinstance(rhs, Scalar):
-            result = chr(int(rhs))
+            try:
+                result = chr(int(rhs))
+            except (ValueError, OverflowError):
+                self.err.warn("Invalid character code:", rhs)
+                return nil
             return Scalar(result)
         elif isinstance(rhs, Pattern):
             # Given a Pattern, C wraps the regex in a capturing group
-- 
2.43.0


From 52fcd50a8f217b50376c62a410d54e37974aee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:06 +0000
Subject: [PATCH 20/32] fix: CS and CT of zero are warnings, not crashes

---
 execution.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index df11618..4a6a624 100644
--- a/execution.py
+++ b/execution.py
@@ -1171,7 +1171,12 @@ class ProgramState:
 
     def COSEC(self, rhs):
         if isinstance(rhs, Scalar):
-            return Scalar(1/math.sin(rhs.toNumber()))
+            try:
+                result = 1 / math.sin(rhs.toNumber())
+            except ZeroDivisionError:
+                self.err.warn("Dividing by zero")
+                return nil
+            return Scalar(result)
         else:
             self.err.warn("Unimplemented argtype for COSEC:", type(rhs))
             return nil
@@ -1185,7 +1190,12 @@ class ProgramState:
 
     def COTAN(self, rhs):
         if isinstance(rhs, Scalar):
-            return Scalar(1/math.tan(rhs.toNumber()))
+            try:
+                result = 1 / math.tan(rhs.toNumber())
+            except ZeroDivisionError:
+                self.err.warn("Dividing by zero")
+                return nil
+            return Scalar(result)
         else:
             self.err.warn("Unimplemented argtype for COTAN:", type(rhs))
             return nil
-- 
2.43.0


From 3a40e8fc3304f358e2543101cbf6309433310d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 21/32] fix: CB with a negative number of items is a warning,
 not a crash

---
 execution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/execution.py b/execution.py
index 4a6a624..3fbf894 100644
--- a/execution.py
+++ b/execution.py
@@ -1145,6 +1145,9 @@ class ProgramState:
     def COMBINATIONS(self, iterable, num):
         """Return List of all ways to choose num items from iterable."""
         if isinstance(iterable, PipIterable) and isinstance(num, Scalar):
+            if int(num) < 0:
+                self.err.warn("Cannot choose a negative number of items:", num)
+                return nil
             result = itertools.combinations(iterable, int(num))
             if isinstance(iterable, Scalar):
                 return List(self.JOIN(comb) for comb in result)
-- 
2.43.0


From 626b11722ee10e1776e707d895bfa46b4f6293a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:11 +0000
Subject: [PATCH 22/32] fix: numeric overflow in EX, ** and EE is a warning,
 not a crash

---
 execution.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 3fbf894..fd4d73a 100644
--- a/execution.py
+++ b/execution.py
@@ -1447,7 +1447,11 @@ class ProgramState:
     def EXPONENTIAL(self, number):
         """Take e to the power of number."""
         if isinstance(number, Scalar):
-            result = math.exp(number.toNumber())
+            try:
+                result = math.exp(number.toNumber())
+            except OverflowError:
+                self.err.warn("Result of EX is too large:", number)
+                return nil
             return Scalar(result)
         else:
             self.err.warn("Unimplemented argtype for EXPONENTIAL:",
@@ -2962,6 +2966,9 @@ class ProgramState:
             except ZeroDivisionError:
                 self.err.warn("Can't raise zero to negative power")
                 return nil
+            except OverflowError:
+                self.err.warn("Result of exponentiation is too large")
+                return nil
             if lhs < 0 and int(rhs) != rhs:
                 # Negative number to fractional power would be a complex
                 # number; for now, return nil
@@ -2983,7 +2990,11 @@ class ProgramState:
         if isinstance(lhs, Scalar) and isinstance(rhs, Scalar):
             lhs = lhs.toNumber()
             rhs = rhs.toNumber()
-            result = lhs * 10 ** rhs
+            try:
+                result = lhs * 10 ** rhs
+            except OverflowError:
+                self.err.warn("Result of exponentiation is too large")
+                return nil
             return Scalar(result)
         else:
             self.err.warn("Unimplemented argtypes for POWEROFTEN:",
-- 
2.43.0


From c3e57295e5e4fb2f22f3288117492679beff79bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:13 +0000
Subject: [PATCH 23/32] fix: RA on an empty iterable is a warning, not a crash

---
 execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index fd4d73a..c914c72 100644
--- a/execution.py
+++ b/execution.py
@@ -3319,7 +3319,11 @@ class ProgramState:
                     index = int(index)
                 elif isinstance(index, Range):
                     index = index.toSlice()
-                result[index] = new
+                try:
+                    result[index] = new
+                except ZeroDivisionError:
+                    self.err.warn("Cannot replace at index of empty iterable")
+                    return nil
                 return result
         elif index is nil:
             # Replacing at nil index leaves lhs unchanged
-- 
2.43.0


From 792eb9a27462b522d606f77d66f11d99d64d991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 24/32] fix: an argument given with -x is passed by value

---
 pip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pip.py b/pip.py
index 80b5c11..38a08b1 100644
--- a/pip.py
+++ b/pip.py
@@ -294,7 +294,7 @@ def pip(code=None, argv=None, interactive=True):
                 raise
             parsed_arg = arg_parse_tree[0]
             try:
-                program_args.append(state.evaluate(parsed_arg))
+                program_args.append(state.getRval(parsed_arg))
             except (FatalError, RuntimeError) as err:
                 # RuntimeError probably means we exceeded Python's
                 # max recursion depth
-- 
2.43.0


From 5ea66c181acf03b63e61709a495df36348003c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 25/32] fix: a Python exception during execution is a fatal
 error of the Pip program, not a crash

---
 pip.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pip.py b/pip.py
index 38a08b1..5781edb 100644
--- a/pip.py
+++ b/pip.py
@@ -292,12 +292,12 @@ def pip(code=None, argv=None, interactive=True):
                       err, file=sys.stderr)
                 print("Execution aborted.", file=sys.stderr)
                 raise
-            parsed_arg = arg_parse_tree[0]
             try:
+                parsed_arg = arg_parse_tree[0]
                 program_args.append(state.getRval(parsed_arg))
-            except (FatalError, RuntimeError) as err:
-                # RuntimeError probably means we exceeded Python's
-                # max recursion depth
+            except Exception as err:
+                # Either a FatalError or something that Python can't do, such
+                # as exceeding the max recursion depth
                 print(f"Fatal error while evaluating argument {arg!r}:",
                       err, file=sys.stderr)
                 print("Execution aborted.", file=sys.stderr)
@@ -314,9 +314,9 @@ def pip(code=None, argv=None, interactive=True):
         print("Executing...")
     try:
         state.executeProgram(parse_tree, program_args)
-    except (FatalError, RuntimeError) as err:
-        # RuntimeError probably means we exceeded Python's max
-        # recursion depth
+    except Exception as err:
+        # Either a FatalError or something that Python can't do, such as
+        # exceeding the max recursion depth
         print("Fatal error during execution:", err, file=sys.stderr)
         print("Program terminated.", file=sys.stderr)
         raise FatalError(str(err))
@@ -384,9 +384,9 @@ def repl(list_format=None, warnings=False):
                     if result is not None:
                         state.PRINT(state.REPR(result))
                         state.updateHistoryVars(result)
-            except (FatalError, RuntimeError) as err:
-                # RuntimeError probably means we exceeded Python's
-                # max recursion depth
+            except Exception as err:
+                # Either a FatalError or something that Python can't do, such
+                # as exceeding the max recursion depth
                 print("Fatal error:", err, file=sys.stderr)
             except KeyboardInterrupt:
                 print("Execution interrupted by user.", file=sys.stderr)
-- 
2.43.0


From 3f5e50eaa104d52a9f89dd9e2c14e189ae0fe28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:55 +0000
Subject: [PATCH 26/32] fix: end of input exits the repl cleanly

---
 pip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pip.py b/pip.py
index 5781edb..619d85a 100644
--- a/pip.py
+++ b/pip.py
@@ -390,7 +390,7 @@ def repl(list_format=None, warnings=False):
                 print("Fatal error:", err, file=sys.stderr)
             except KeyboardInterrupt:
                 print("Execution interrupted by user.", file=sys.stderr)
-    except KeyboardInterrupt:
+    except (KeyboardInterrupt, EOFError):
         pass
     print("Bye!")
 
-- 
2.43.0


From abec5acae2cbb51119cdb991f31264c839cc51b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:44 +0000
Subject: [PATCH 27/32] fix: TM trimming more characters than there are from
 the right

---
 execution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index c914c72..b854790 100644
--- a/execution.py
+++ b/execution.py
@@ -4152,7 +4152,9 @@ class ProgramState:
             front = max(front, 0)
             back = max(back, 0)
             string = str(string)
-            return Scalar(string[front:len(string)-back])
+            # Trimming more than the length of the string leaves nothing (the
+            # end index must not go negative)
+            return Scalar(string[front:max(len(string)-back, 0)])
         else:
             self.err.warn("Unimplemented argtype for lhs of TRIM:",
                           type(string))
-- 
2.43.0


From cf3bd3c52f83cc220b299c80f0e610aa0ee77236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 28/32] fix: CH must produce the requested number of slices

---
 execution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index b854790..5909293 100644
--- a/execution.py
+++ b/execution.py
@@ -1,4 +1,5 @@
 
+from fractions import Fraction
 import itertools
 import math
 import random
@@ -1099,7 +1100,9 @@ class ProgramState:
             return List(self.CHOP(iterable, count) for count in rhs)
         if isinstance(iterable, PipIterable) and isinstance(rhs, Scalar):
             result = List()
-            chunks = rhs.toNumber()
+            # Use exact arithmetic: with floats, accumulated rounding errors
+            # can lead to an extra chunk or misplaced boundaries
+            chunks = Fraction(rhs.toNumber())
             if chunks > 0:
                 index = 0
                 jump = len(iterable) / chunks
-- 
2.43.0


From 1975a201b2db973c71c894d5bf0f8735f6f001c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:55 +0000
Subject: [PATCH 29/32] fix: halving and rounding long integers go through
 floating point

---
 execution.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/execution.py b/execution.py
index 5909293..5f9281a 100644
--- a/execution.py
+++ b/execution.py
@@ -22,6 +22,14 @@ SCALAR_ONE = Scalar("1")
 SCALAR_TWO = Scalar("2")
 
 
+def quotient(lhs, rhs):
+    """Divide two numbers (integers, of whatever size, exactly)."""
+    if isinstance(lhs, int) and isinstance(rhs, int):
+        return Fraction(lhs, rhs)
+    else:
+        return lhs / rhs
+
+
 class ProgramState:
     """The internal state of a program during execution."""
     
@@ -1062,7 +1070,7 @@ class ProgramState:
                 return Scalar(math.ceil(lhs))
             else:
                 lhs = lhs.toNumber()
-                return Scalar(math.ceil(lhs / precision) * precision)
+                return Scalar(math.ceil(quotient(lhs, precision)) * precision)
         else:
             if rhs is None:
                 self.err.warn("Unimplemented argtype for CEIL:",
@@ -1734,7 +1742,7 @@ class ProgramState:
                 return Scalar(math.floor(lhs))
             else:
                 lhs = lhs.toNumber()
-                return Scalar(math.floor(lhs / precision) * precision)
+                return Scalar(math.floor(quotient(lhs, precision)) * precision)
         else:
             if rhs is None:
                 self.err.warn("Unimplemented argtype for FLOOR:",
@@ -1852,7 +1860,7 @@ class ProgramState:
     def HALVE(self, rhs):
         """Halve and round down."""
         if isinstance(rhs, Scalar):
-            return Scalar(math.floor(rhs.toNumber() / 2))
+            return Scalar(math.floor(quotient(rhs.toNumber(), 2)))
         else:
             self.err.warn("Unimplemented argtype for HALVE:",
                           type(rhs))
@@ -1861,7 +1869,7 @@ class ProgramState:
     def HALVEUP(self, rhs):
         """Halve and round up."""
         if isinstance(rhs, Scalar):
-            return Scalar(math.ceil(rhs.toNumber() / 2))
+            return Scalar(math.ceil(quotient(rhs.toNumber(), 2)))
         else:
             self.err.warn("Unimplemented argtype for HALVEUP:",
                           type(rhs))
@@ -3441,13 +3449,18 @@ class ProgramState:
                 return lhs
             elif precision == 1:
                 lhs = lhs.toNumber()
-                if math.remainder(lhs, 1) > 0:
+                if isinstance(lhs, int):
+                    return Scalar(lhs)
+                elif math.remainder(lhs, 1) > 0:
                     return Scalar(math.floor(lhs))
                 else:
                     return Scalar(math.ceil(lhs))
             else:
                 lhs = lhs.toNumber()
-                return Scalar(lhs - math.remainder(lhs, precision))
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    return Scalar(round(quotient(lhs, precision)) * precision)
+                else:
+                    return Scalar(lhs - math.remainder(lhs, precision))
         else:
             if rhs is None:
                 self.err.warn("Unimplemented argtype for ROUNDNEAREST:",
@@ -3473,7 +3486,7 @@ class ProgramState:
                 return Scalar(math.trunc(lhs))
             else:
                 lhs = lhs.toNumber()
-                return Scalar(math.trunc(lhs / precision) * precision)
+                return Scalar(math.trunc(quotient(lhs, precision)) * precision)
         else:
             if rhs is None:
                 self.err.warn("Unimplemented argtype for ROUNDZERO:",
-- 
2.43.0


From 2f2b4d210d507a40508a0e66be7efe89bef45bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:29 +0000
Subject: [PATCH 30/32] fix: end quietly when input ends at the command-line
 prompt

---
 pip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pip.py b/pip.py
index 619d85a..ee3026d 100644
--- a/pip.py
+++ b/pip.py
@@ -73,7 +73,11 @@ def pip(code=None, argv=None, interactive=True):
         print(f"=== Welcome to Pip, version {version.VERSION} ===")
         print("Enter command-line args, terminated by newline "
               "(-h for help, -R for repl):")
-        argv = input()
+        try:
+            argv = input()
+        except EOFError:
+            # No command line was entered, so there is nothing to do
+            return
     if argv is not None:
         # Artificial command-line input was provided
         if isinstance(argv, list):
-- 
2.43.0


From 3962fb478966c912798952fffa2f738cd3768e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:59 +0000
Subject: [PATCH 31/32] fix: strip a Pattern only at the ends of the text, as a
 whole and with its flags

---
 execution.py | 8 ++++----
 ptypes.py    | 8 ++++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/execution.py b/execution.py
index 5f9281a..bfd85e5 100644
--- a/execution.py
+++ b/execution.py
@@ -2184,7 +2184,7 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                beginning = re.compile("^" + patternStr)
+                beginning = extra.asPrefix()
                 newString = beginning.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
@@ -3521,7 +3521,7 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                end = re.compile(patternStr + "$")
+                end = extra.asSuffix()
                 newString = end.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
@@ -3845,12 +3845,12 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                beginning = re.compile("^" + patternStr)
+                beginning = extra.asPrefix()
                 newString = beginning.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
                     newString = beginning.sub("", oldString)
-                end = re.compile(patternStr + "$")
+                end = extra.asSuffix()
                 newString = end.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
diff --git a/ptypes.py b/ptypes.py
index 651bad7..c7001ec 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -207,6 +207,14 @@ class Pattern(PipType):
             self._separator = re.compile(self._raw, self._flags)
         return self._separator
 
+    def asPrefix(self):
+        # Matches only at the very beginning of a string
+        return re.compile(rf"\A(?:{self._raw})", self._flags)
+
+    def asSuffix(self):
+        # Matches only at the very end of a string
+        return re.compile(rf"(?:{self._raw})\Z", self._flags)
+
     def asReplacement(self):
         # Increment all back-references
         pyReplace = re.sub(r"(?<!\\)((?:\\{2})*)\\([1-9]\d?)",
-- 
2.43.0


From 17566f257433eca3b89e956802cfe77909eab253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:01 +0000
Subject: [PATCH 32/32] fix: X on a Pattern keeps its flags

---
 execution.py | 4 +++-
 ptypes.py    | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index bfd85e5..115fdea 100644
--- a/execution.py
+++ b/execution.py
@@ -3907,7 +3907,9 @@ class ProgramState:
         if isinstance(lhs, (Scalar, Pattern)) and isinstance(rhs, Scalar):
             string = str(lhs)
             num = int(rhs)
-            return type(lhs)(string*num)
+            if isinstance(lhs, Pattern):
+                return lhs.repeatText(num)
+            return Scalar(string*num)
         else:
             self.err.warn("Unimplemented argtypes for STRMUL:",
                           type(lhs), "and", type(rhs))
diff --git a/ptypes.py b/ptypes.py
index c7001ec..94561f9 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -258,6 +258,9 @@ class Pattern(PipType):
         else:
             raise TypeError(f"Cannot repeat Pattern by {type(count)}")
 
+    def repeatText(self, count):
+        return Pattern(self._raw * count, self._flags)
+
     def concat(self, other):
         return Pattern(f"{self._raw}{other._raw}",
                        self._flags | other._flags)
-- 
2.43.0

