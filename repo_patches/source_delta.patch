From 9ae6e85133a58ff9738c70a46933d50c196e9dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 001/107] fix: write_gerber_value: emit exactly the digits of
 the format when it has 0 integer or 0 decimal digits

---
 gerber/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerber/utils.py b/gerber/utils.py
index 3d39df9..c7cae15 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -144,9 +144,9 @@ def write_gerber_value(value, format=(2, 5), zero_suppression='trailing'):
     if negative:
         value = -1.0 * value
 
-    # Format string for padding out in both directions
-    fmtstring = '%%0%d.0%df' % (MAX_DIGITS + 1, decimal_digits)
-    digits = [val for val in fmtstring % value if val != '.']
+    # Pad out in both directions to exactly the number of digits in the format
+    digits = ('%.*f' % (decimal_digits, value)).replace('.', '')
+    digits = list(digits.lstrip('0').zfill(MAX_DIGITS))
 
     # If all the digits are 0, return '0'.
     digit_sum = sum([int(digit) for digit in digits])
-- 
2.43.0


From 1fa7496f62b0ff7346d8d7e2653f9652d5cfb217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 002/107] fix: compute counterclockwise sweep angles modulo a
 full turn

abs(theta1 - theta0) is wrong for arcs crossing 0 degrees and made the
single-quadrant centre selection pick a mirrored centre.
---
 gerber/primitives.py | 2 +-
 gerber/rs274x.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 757f117..8744f04 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -400,7 +400,7 @@ class Arc(Primitive):
         theta0 = (self.start_angle + two_pi) % two_pi
         theta1 = (self.end_angle + two_pi) % two_pi
         if self.direction == 'counterclockwise':
-            return abs(theta1 - theta0)
+            return (theta1 - theta0) % two_pi
         else:
             theta0 += two_pi
             return abs(theta0 - theta1) % two_pi
diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index afdf45f..8aee439 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -757,7 +757,7 @@ class GerberParser(object):
 
                 # Determine sweep angle in the current arc direction
                 if self.direction == 'counterclockwise':
-                    sweep_angle = abs(theta1 - theta0)
+                    sweep_angle = (theta1 - theta0) % two_pi
                 else:
                     theta0 += two_pi
                     sweep_angle = abs(theta0 - theta1) % two_pi
-- 
2.43.0


From 15d60a082041965566905a7ded8c36c6e3579fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 003/107] fix: keep the interpolation mode modal after an arc
 inside a region

The Gerber format has no implicit return to linear interpolation; the
second of two arcs sharing one G02/G03 was turned into a straight line.
---
 gerber/rs274x.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 8aee439..8c9549e 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -690,9 +690,6 @@ class GerberParser(object):
                                                        quadrant_mode=self.quadrant_mode,
                                                        level_polarity=self.level_polarity,
                                                        units=self.settings.units))
-                    # Gerbv seems to reset interpolation mode in regions..
-                    # TODO: Make sure this is right.
-                    self.interpolation = 'linear'
 
         elif self.op == "D02" or self.op == "D2":
 
-- 
2.43.0


From 41886d8ec82e087129d8a10b6c12d5c3e3fdeb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 004/107] fix: a region contour made of one full-circle arc is
 not dropped at D02

---
 gerber/rs274x.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 8c9549e..abb838c 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -695,7 +695,9 @@ class GerberParser(object):
 
             if self.region_mode == "on":
                 # D02 in the middle of a region finishes that region and starts a new one
-                if self.current_region and len(self.current_region) > 1:
+                # (a single straight segment does not enclose anything, a single arc can)
+                if self.current_region and (len(self.current_region) > 1 or
+                                            isinstance(self.current_region[0], Arc)):
                     self.primitives.append(Region(self.current_region,
                                                   level_polarity=self.level_polarity,
                                                   units=self.settings.units))
-- 
2.43.0


From 8fb8d1795c4c9ad80dadabbbe3b6046a4f7882e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 005/107] fix: subtract the right operand in aperture macro
 expressions

---
 gerber/am_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/am_eval.py b/gerber/am_eval.py
index 3a7e1ed..e517ecd 100644
--- a/gerber/am_eval.py
+++ b/gerber/am_eval.py
@@ -92,7 +92,7 @@ def eval_macro(instructions, parameters={}):
         elif opcode == OpCode.SUB:
             op1 = pop()
             op2 = pop()
-            push(op2 - op2)
+            push(op2 - op1)
 
         elif opcode == OpCode.MUL:
             op1 = pop()
-- 
2.43.0


From 9cc79a2830af19f1879ce2a89346aef68616fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 006/107] fix: eval_macro does not modify its parameters (or
 the shared default)

---
 gerber/am_eval.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/am_eval.py b/gerber/am_eval.py
index e517ecd..dc3dd7e 100644
--- a/gerber/am_eval.py
+++ b/gerber/am_eval.py
@@ -59,6 +59,9 @@ def eval_macro(instructions, parameters={}):
             p[i + 1] = val
 
         parameters = p
+    else:
+        # variables stored by the macro must not leak into the caller's dict
+        parameters = dict(parameters)
 
     stack = []
 
-- 
2.43.0


From 910ded3514edf50f0b775542432d3d04a56d5bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 007/107] fix: aperture macro expressions: signs, zeros and
 comments containing '='

A '-' was taken as a sign anywhere in the rest of a modifier once the first
operator was still due ('$1-2', '1-2'), never before a variable or a
parenthesis, and '-0' negated the next number; a comment containing '='
was evaluated as an assignment and could overwrite a parameter.
---
 gerber/am_read.py | 60 ++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/gerber/am_read.py b/gerber/am_read.py
index 4aff00b..bd937f5 100644
--- a/gerber/am_read.py
+++ b/gerber/am_read.py
@@ -33,6 +33,7 @@ class Token:
     LEFT_PARENS = "("
     RIGHT_PARENS = ")"
     EQUALS = "="
+    NEG = "NEG"
     EOF = "EOF"
 
 
@@ -54,12 +55,14 @@ def precedence(token):
         return 1
     elif token in Token.MULT or token == Token.DIV:
         return 2
+    elif token == Token.NEG:
+        return 3
     else:
         return 0
 
 
 def is_op(token):
-    return token in Token.OPERATORS
+    return token in Token.OPERATORS or token == Token.NEG
 
 
 class Scanner:
@@ -131,10 +134,11 @@ def read_macro(macro):
         equation_left_side = 0
         primitive_code = 0
 
-        unary_minus_allowed = False
-        unary_minus = False
+        # a "-" or "+" is a sign, not an operator, wherever an operand is due
+        operand_due = True
 
-        if Token.EQUALS in block:
+        # comments and malformed primitives may contain "=", too
+        if Token.EQUALS in block and block.lstrip().startswith("$"):
             is_equation = True
         else:
             is_primitive = True
@@ -156,6 +160,12 @@ def read_macro(macro):
         def empty():
             return len(op_stack) == 0
 
+        def emit(op):
+            if op == Token.NEG:
+                instructions.append((OpCode.PUSH, -1))
+                op = Token.MULT[0]
+            instructions.append((token_to_opcode(op), None))
+
         while not scanner.eof():
 
             c = scanner.getc()
@@ -165,27 +175,30 @@ def read_macro(macro):
 
                 # add all instructions on the stack to finish last modifier
                 while not empty():
-                    instructions.append((token_to_opcode(pop()), None))
+                    emit(pop())
 
-                unary_minus_allowed = True
+                operand_due = True
 
             elif c in Token.OPERATORS:
-                if c == Token.SUB and unary_minus_allowed:
-                    unary_minus = True
-                    unary_minus_allowed = False
+                if operand_due and c in (Token.SUB, Token.ADD):
+                    if c == Token.SUB:
+                        push(Token.NEG)
                     continue
 
                 while not empty() and is_op(top()) and precedence(top()) >= precedence(c):
-                    instructions.append((token_to_opcode(pop()), None))
+                    emit(pop())
 
                 push(c)
+                operand_due = True
 
             elif c == Token.LEFT_PARENS:
                 push(c)
+                operand_due = True
 
             elif c == Token.RIGHT_PARENS:
                 while not empty() and top() != Token.LEFT_PARENS:
-                    instructions.append((token_to_opcode(pop()), None))
+                    emit(pop())
+                operand_due = False
 
                 if empty():
                     raise ValueError("unbalanced parentheses")
@@ -200,38 +213,31 @@ def read_macro(macro):
                     equation_left_side = n
                 else:
                     instructions.append((OpCode.LOAD, n))
+                operand_due = False
 
             elif c == Token.EQUALS:
                 found_equation_left_side = True
+                operand_due = True
 
-            elif c == "0":
-                if is_primitive and not found_primitive_code:
-                    instructions.append((OpCode.PUSH, scanner.readstr("*")))
-                    found_primitive_code = True
-                else:
-                    # decimal or integer disambiguation
-                    if scanner.peek() not in '.' or scanner.peek() == Token.EOF:
-                        instructions.append((OpCode.PUSH, 0))
+            elif c == "0" and is_primitive and not found_primitive_code:
+                instructions.append((OpCode.PUSH, scanner.readstr("*")))
+                found_primitive_code = True
 
-            elif c in "123456789.":
+            elif c in "0123456789.":
                 scanner.ungetc()
 
                 if is_primitive and not found_primitive_code:
                     primitive_code = scanner.readint()
                 else:
-                    n = scanner.readfloat()
-                    if unary_minus:
-                        unary_minus = False
-                        n *= -1
-
-                    instructions.append((OpCode.PUSH, n))
+                    instructions.append((OpCode.PUSH, scanner.readfloat()))
+                    operand_due = False
             else:
                 # whitespace or unknown char
                 pass
 
         # add all instructions on the stack to finish last modifier (if any)
         while not empty():
-            instructions.append((token_to_opcode(pop()), None))
+            emit(pop())
 
         # at end, we either have a primitive or a equation
         if is_primitive and found_primitive_code:
-- 
2.43.0


From a20d06a67409116a757970ca1deb3d749e3f7a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 008/107] fix: connect the edges of vector line, center line
 and thermal outlines

prev_point was never advanced, so every edge started at the same corner.
---
 gerber/am_statements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index bf25484..d25555b 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -328,6 +328,7 @@ class AMVectorLinePrimitive(AMPrimitive):
             cur_point = rotate_point(point, self.rotation, (0, 0))
 
             lines.append(Line(prev_point, cur_point, aperture))
+            prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
@@ -822,8 +823,7 @@ class AMThermalPrimitive(AMPrimitive):
                 cur_point = rotate_point(point, rotation, self.position)
 
                 lines.append(Line(prev_point, cur_point, aperture))
-
-            prev_point = cur_point
+                prev_point = cur_point
 
             outlines.append(Outline(lines, units=units, level_polarity=self._level_polarity))
 
@@ -941,6 +941,7 @@ class AMCenterLinePrimitive(AMPrimitive):
             cur_point = rotate_point(point, self.rotation, self.center)
 
             lines.append(Line(prev_point, cur_point, aperture))
+            prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
-- 
2.43.0


From 6c9e129cb72ce0ac078c39ad8d9d11c0696e156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 009/107] fix: rotate macro center lines about the macro
 origin, as the format defines

---
 gerber/am_statements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index d25555b..934c311 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -936,9 +936,9 @@ class AMCenterLinePrimitive(AMPrimitive):
         aperture = Circle((0, 0), 0)
 
         lines = []
-        prev_point = rotate_point(points[3], self.rotation, self.center)
+        prev_point = rotate_point(points[3], self.rotation)
         for point in points:
-            cur_point = rotate_point(point, self.rotation, self.center)
+            cur_point = rotate_point(point, self.rotation)
 
             lines.append(Line(prev_point, cur_point, aperture))
             prev_point = cur_point
-- 
2.43.0


From 80f4ec6d6d6503e82d873e29a05a49391196e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 010/107] fix: macro vector lines are rectangles of the given
 width with square ends

The hull of two axis-aligned squares extends past both end points and has
the wrong width unless the line is axis-aligned.
---
 gerber/am_statements.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 934c311..be68a82 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -316,9 +316,16 @@ class AMVectorLinePrimitive(AMPrimitive):
         when rotated.
         """
 
-        # Use a line to generate our vertices easily
-        line = Line(self.start, self.end, Rectangle(None, self.width, self.width))
-        vertices = line.vertices
+        # A rectangle along the line, which ends square at the start and end points
+        length = math.hypot(self.end[0] - self.start[0], self.end[1] - self.start[1])
+        if length == 0:
+            return None
+        dx = (self.end[1] - self.start[1]) * self.width / (2.0 * length)
+        dy = (self.end[0] - self.start[0]) * self.width / (2.0 * length)
+        vertices = [(self.start[0] + dx, self.start[1] - dy),
+                    (self.end[0] + dx, self.end[1] - dy),
+                    (self.end[0] - dx, self.end[1] + dy),
+                    (self.start[0] - dx, self.start[1] + dy)]
 
         aperture = Circle((0, 0), 0)
 
-- 
2.43.0


From 07efb00779971a232e20b87224a5babe4d9b2ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 011/107] fix: convert the units of macro outlines and of
 groups of a single primitive

---
 gerber/am_statements.py | 8 ++++----
 gerber/primitives.py    | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index be68a82..8a41218 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -334,7 +334,7 @@ class AMVectorLinePrimitive(AMPrimitive):
         for point in vertices:
             cur_point = rotate_point(point, self.rotation, (0, 0))
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
             prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
@@ -451,7 +451,7 @@ class AMOutlinePrimitive(AMPrimitive):
         for point in self.points:
             cur_point = rotate_point(point, self.rotation)
 
-            lines.append(Line(prev_point, cur_point, Circle((0,0), 0)))
+            lines.append(Line(prev_point, cur_point, Circle((0,0), 0), units=units))
 
             prev_point = cur_point
 
@@ -829,7 +829,7 @@ class AMThermalPrimitive(AMPrimitive):
             for point in points[1:]:
                 cur_point = rotate_point(point, rotation, self.position)
 
-                lines.append(Line(prev_point, cur_point, aperture))
+                lines.append(Line(prev_point, cur_point, aperture, units=units))
                 prev_point = cur_point
 
             outlines.append(Outline(lines, units=units, level_polarity=self._level_polarity))
@@ -947,7 +947,7 @@ class AMCenterLinePrimitive(AMPrimitive):
         for point in points:
             cur_point = rotate_point(point, self.rotation)
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
             prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
diff --git a/gerber/primitives.py b/gerber/primitives.py
index 8744f04..5fa2f10 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -135,7 +135,7 @@ class Primitive(object):
                     value.to_inch()
                 else:
                     try:
-                        if len(value) > 1:
+                        if len(value) > 0:
                             if hasattr(value[0], 'to_inch'):
                                 for v in value:
                                     v.to_inch()
@@ -160,7 +160,7 @@ class Primitive(object):
                     value.to_metric()
                 else:
                     try:
-                        if len(value) > 1:
+                        if len(value) > 0:
                             if hasattr(value[0], 'to_metric'):
                                 for v in value:
                                     v.to_metric()
-- 
2.43.0


From ce9f8605aaa9eb34af5e28001e42d5523c907254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 012/107] fix: apertures using a macro whose name starts with C
 and has no parameters

'%ADD10CROSS*%' was read as a circle with diameter 'ROSS' and failed.
---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index abb838c..c87bd30 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -188,7 +188,7 @@ class GerberParser(object):
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>[^,%]*)"
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)(,(?P<modifiers>[^,%]*))?"
     AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%]*)"
     AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%]*)"
     AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%]*)"
-- 
2.43.0


From 2fdbdec449f24844c0a62cadd58106afee3381b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 013/107] fix: operations on parsed Gerber files (aperture list
 can be deep copied)

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index c87bd30..972bfda 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -274,7 +274,7 @@ class GerberParser(object):
         for stmt in self.statements:
             stmt.units = self.settings.units
 
-        return GerberFile(self.statements, self.settings, self.primitives, self.apertures.values(), filename)
+        return GerberFile(self.statements, self.settings, self.primitives, list(self.apertures.values()), filename)
 
     def _split_commands(self, data):
         """
-- 
2.43.0


From b92bb0951e76f6d318dc6945ebc34be36c882554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 014/107] fix: convert the aperture list with the rest of the
 Gerber file

---
 gerber/rs274x.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 972bfda..007cb0d 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -161,6 +161,8 @@ class GerberFile(CamFile):
                 statement.to_inch()
             for primitive in self.primitives:
                 primitive.to_inch()
+            for aperture in self.apertures:
+                aperture.to_inch()
 
     def to_metric(self):
         if self.units != 'metric':
@@ -169,6 +171,8 @@ class GerberFile(CamFile):
                 statement.to_metric()
             for primitive in self.primitives:
                 primitive.to_metric()
+            for aperture in self.apertures:
+                aperture.to_metric()
 
     def offset(self, x_offset=0,  y_offset=0):
         for statement in self.statements:
-- 
2.43.0


From ca6b3225a3c30a9c7b8bf66bf889b330cc5238b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:33 +0000
Subject: [PATCH 015/107] fix: unit conversion of aperture definitions scales
 only lengths

---
 gerber/gerber_statements.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 28f5e81..ad9fbc5 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -358,13 +358,21 @@ class ADParamStmt(ParamStmt):
     def to_inch(self):
         if self.units == 'metric':
             self.units = 'inch'
-            self.modifiers = [tuple([inch(x) for x in modifier])
-                              for modifier in self.modifiers]
+            self._convert_modifiers(inch)
 
     def to_metric(self):
         if self.units == 'inch':
             self.units = 'metric'
-            self.modifiers = [tuple([metric(x) for x in modifier])
+            self._convert_modifiers(metric)
+
+    def _convert_modifiers(self, convert):
+        # The number of vertices and the rotation of a polygon are not lengths,
+        # and only the macro itself knows what its parameters are.
+        if self.shape == 'P':
+            self.modifiers = [tuple([x if i in (1, 2) else convert(x) for i, x in enumerate(modifier)])
+                              for modifier in self.modifiers]
+        elif self.shape in ('C', 'R', 'O'):
+            self.modifiers = [tuple([convert(x) for x in modifier])
                               for modifier in self.modifiers]
 
     def to_gerber(self, settings=None):
-- 
2.43.0


From 6cf27d3aedb3b05be5e14e532b4e5056ce56143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 016/107] fix: write aperture and macro dimensions without
 losing digits

---
 gerber/am_statements.py     | 83 +++++++++++++++++++++----------------
 gerber/gerber_statements.py |  4 +-
 gerber/utils.py             | 25 +++++++++++
 3 files changed, 74 insertions(+), 38 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 8a41218..ef68834 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -20,7 +20,7 @@ from math import asin
 import math
 
 from .primitives import *
-from .utils import validate_coordinates, inch, metric, rotate_point
+from .utils import validate_coordinates, exact_decimal, inch, metric, rotate_point
 
 
 
@@ -31,6 +31,17 @@ __all__ = ['AMPrimitive', 'AMCommentPrimitive', 'AMCirclePrimitive',
            'AMLowerLeftLinePrimitive', 'AMUnsupportPrimitive']
 
 
+def _exact(*values):
+    # macros are written in plain decimal notation, without loss of digits
+    return ','.join([exact_decimal(value) for value in values])
+
+
+def _plain(value):
+    # the usual representation, except that Gerber files do not have exponents
+    text = str(value)
+    return exact_decimal(value) if 'e' in text else text
+
+
 class AMPrimitive(object):
     """ Aperture Macro Primitive Base Class
 
@@ -212,9 +223,9 @@ class AMCirclePrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(code=self.code,
                     exposure='1' if self.exposure == 'on' else 0,
-                    diameter=self.diameter,
-                    x=self.position[0],
-                    y=self.position[1])
+                    diameter=_plain(self.diameter),
+                    x=_plain(self.position[0]),
+                    y=_plain(self.position[1]))
         return '{code},{exposure},{diameter},{x},{y}*'.format(**data)
 
     def to_primitive(self, units):
@@ -301,12 +312,12 @@ class AMVectorLinePrimitive(AMPrimitive):
         fmtstr = '{code},{exp},{width},{startx},{starty},{endx},{endy},{rotation}*'
         data = dict(code=self.code,
                     exp=1 if self.exposure == 'on' else 0,
-                    width=self.width,
-                    startx=self.start[0],
-                    starty=self.start[1],
-                    endx=self.end[0],
-                    endy=self.end[1],
-                    rotation=self.rotation)
+                    width=_plain(self.width),
+                    startx=_plain(self.start[0]),
+                    starty=_plain(self.start[1]),
+                    endx=_plain(self.end[0]),
+                    endy=_plain(self.end[1]),
+                    rotation=_plain(self.rotation))
         return fmtstr.format(**data)
 
     def to_primitive(self, units):
@@ -434,9 +445,9 @@ class AMOutlinePrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             n_points=len(self.points),
-            start_point="%.6g,%.6g" % self.start_point,
-            points=",\n".join(["%.6g,%.6g" % point for point in self.points]),
-            rotation=str(self.rotation)
+            start_point=_exact(*self.start_point),
+            points=",\n".join([_exact(*point) for point in self.points]),
+            rotation=_plain(self.rotation)
         )
         return "{code},{exposure},{n_points},{start_point},{points},{rotation}*".format(**data)
 
@@ -547,9 +558,9 @@ class AMPolygonPrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             vertices=self.vertices,
-            position="%.4g,%.4g" % self.position,
-            diameter='%.4g' % self.diameter,
-            rotation=str(self.rotation)
+            position=_exact(*self.position),
+            diameter=_exact(self.diameter),
+            rotation=_plain(self.rotation)
         )
         fmt = "{code},{exposure},{vertices},{position},{diameter},{rotation}*"
         return fmt.format(**data)
@@ -656,14 +667,14 @@ class AMMoirePrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.4g,%.4g" % self.position,
-            diameter=self.diameter,
-            ring_thickness=self.ring_thickness,
-            gap=self.gap,
+            position=_exact(*self.position),
+            diameter=_plain(self.diameter),
+            ring_thickness=_plain(self.ring_thickness),
+            gap=_plain(self.gap),
             max_rings=self.max_rings,
-            crosshair_thickness=self.crosshair_thickness,
-            crosshair_length=self.crosshair_length,
-            rotation=self.rotation
+            crosshair_thickness=_plain(self.crosshair_thickness),
+            crosshair_length=_plain(self.crosshair_length),
+            rotation=_plain(self.rotation)
         )
         fmt = "{code},{position},{diameter},{ring_thickness},{gap},{max_rings},{crosshair_thickness},{crosshair_length},{rotation}*"
         return fmt.format(**data)
@@ -749,11 +760,11 @@ class AMThermalPrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.4g,%.4g" % self.position,
-            outer_diameter=self.outer_diameter,
-            inner_diameter=self.inner_diameter,
-            gap=self.gap,
-            rotation=self.rotation
+            position=_exact(*self.position),
+            outer_diameter=_plain(self.outer_diameter),
+            inner_diameter=_plain(self.inner_diameter),
+            gap=_plain(self.gap),
+            rotation=_plain(self.rotation)
         )
         fmt = "{code},{position},{outer_diameter},{inner_diameter},{gap},{rotation}*"
         return fmt.format(**data)
@@ -919,10 +930,10 @@ class AMCenterLinePrimitive(AMPrimitive):
         data = dict(
             code=self.code,
             exposure = '1' if self.exposure == 'on' else '0',
-            width = self.width,
-            height = self.height,
-            center="%.4g,%.4g" % self.center,
-            rotation=self.rotation
+            width = _plain(self.width),
+            height = _plain(self.height),
+            center=_exact(*self.center),
+            rotation=_plain(self.rotation)
         )
         fmt = "{code},{exposure},{width},{height},{center},{rotation}*"
         return fmt.format(**data)
@@ -1026,10 +1037,10 @@ class AMLowerLeftLinePrimitive(AMPrimitive):
         data = dict(
             code=self.code,
             exposure = '1' if self.exposure == 'on' else '0',
-            width = self.width,
-            height = self.height,
-            lower_left="%.4g,%.4g" % self.lower_left,
-            rotation=self.rotation
+            width = _plain(self.width),
+            height = _plain(self.height),
+            lower_left=_exact(*self.lower_left),
+            rotation=_plain(self.rotation)
         )
         fmt = "{code},{exposure},{width},{height},{lower_left},{rotation}*"
         return fmt.format(**data)
diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index ad9fbc5..3b3b6d9 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -21,7 +21,7 @@ Gerber (RS-274X) Statements
 
 """
 from .utils import (parse_gerber_value, write_gerber_value, decimal_string,
-                    inch, metric)
+                    exact_decimal, inch, metric)
 
 from .am_statements import *
 from .am_read import read_macro
@@ -377,7 +377,7 @@ class ADParamStmt(ParamStmt):
 
     def to_gerber(self, settings=None):
         if any(self.modifiers):
-            return '%ADD{0}{1},{2}*%'.format(self.d, self.shape, ','.join(['X'.join(["%.4g" % x for x in modifier]) for modifier in self.modifiers]))
+            return '%ADD{0}{1},{2}*%'.format(self.d, self.shape, ','.join(['X'.join([exact_decimal(x) for x in modifier]) for modifier in self.modifiers]))
         else:
             return '%ADD{0}{1}*%'.format(self.d, self.shape)
 
diff --git a/gerber/utils.py b/gerber/utils.py
index c7cae15..1c5369a 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -205,6 +205,31 @@ def decimal_string(value, precision=6, padding=False):
         return int(floatstr)
 
 
+def exact_decimal(value, precision=10):
+    """ Write a number in plain decimal notation, without needless zeros.
+
+    Unlike the %g formats this neither limits the number of significant digits
+    nor uses an exponent, which Gerber files do not have.
+
+    Parameters
+    ----------
+    value : float
+        A floating point value.
+
+    precision :
+        Number of decimal places to keep
+
+    Returns
+    -------
+    value : string
+        The specified value as a string.
+    """
+    text = '%.*f' % (precision, value)
+    if '.' in text:
+        text = text.rstrip('0').rstrip('.')
+    return '0' if text == '-0' else text
+
+
 def detect_file_format(data):
     """ Determine format of a file
 
-- 
2.43.0


From 74166a7b3f73167340c783c36ee83adb34c8e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 017/107] fix: a macro used with several parameter sets keeps
 them apart when written

---
 gerber/gerber_statements.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 3b3b6d9..a2afe00 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -20,6 +20,8 @@ Gerber (RS-274X) Statements
 **Gerber RS-274X file statement classes**
 
 """
+import copy
+
 from .utils import (parse_gerber_value, write_gerber_value, decimal_string,
                     exact_decimal, inch, metric)
 
@@ -428,12 +430,15 @@ class AMParamStmt(ParamStmt):
 
         self.instructions = self.read(macro)
         self.primitives = []
+        # True while `primitives` stands for every use of the macro
+        self.evaluated = False
 
     def read(self, macro):
         return read_macro(macro)
 
     def build(self, modifiers=[[]]):
         self.primitives = []
+        self.evaluated = not any(modifiers)
 
         for primitive in eval_macro(self.instructions, modifiers[0]):
             if primitive[0] == '0':
@@ -459,21 +464,31 @@ class AMParamStmt(ParamStmt):
                 self.primitives.append(
                     AMUnsupportPrimitive.from_gerber(primitive))
 
-        return AMGroup(self.primitives, stmt=self, units=self.units)
+        # The group keeps what this evaluation gave: other apertures may use the
+        # macro with other parameters.
+        stmt = copy.copy(self)
+        stmt.primitives = copy.deepcopy(self.primitives)
+        stmt.evaluated = True
+        return AMGroup(self.primitives, stmt=stmt, units=self.units)
 
     def to_inch(self):
         if self.units == 'metric':
             self.units = 'inch'
+            self.evaluated = True
             for primitive in self.primitives:
                 primitive.to_inch()
 
     def to_metric(self):
         if self.units == 'inch':
             self.units = 'metric'
+            self.evaluated = True
             for primitive in self.primitives:
                 primitive.to_metric()
 
     def to_gerber(self, settings=None):
+        if not self.evaluated:
+            # Each aperture evaluates the macro with its own parameters
+            return '%AM{0}*{1}*%'.format(self.name, self.macro.rstrip('*'))
         return '%AM{0}*{1}%'.format(self.name, "".join([primitive.to_gerber() for primitive in self.primitives]))
 
     def __str__(self):
-- 
2.43.0


From 754fd6d76a7a6eecf8d883882f7cf916b43c560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 018/107] fix: image and layer names do not swallow the
 commands that follow in the same block

---
 gerber/rs274x.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 007cb0d..0e20e6f 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -199,18 +199,18 @@ class GerberParser(object):
     AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,%]*)".format(name=NAME)
     AM = r"(?P<param>AM)(?P<name>{name})\*(?P<macro>[^%]*)".format(name=NAME)
     # Include File
-    IF = r"(?P<param>IF)(?P<filename>.*)"
+    IF = r"(?P<param>IF)(?P<filename>[^*%]*)"
 
 
     # begin deprecated
     AS = r"(?P<param>AS)(?P<mode>(AXBY)|(AYBX))"
-    IN = r"(?P<param>IN)(?P<name>.*)"
+    IN = r"(?P<param>IN)(?P<name>[^*%]*)"
     IP = r"(?P<param>IP)(?P<ip>(POS|NEG))"
     IR = r"(?P<param>IR)(?P<angle>{number})".format(number=NUMBER)
     MI = r"(?P<param>MI)(A(?P<a>0|1))?(B(?P<b>0|1))?"
     OF = r"(?P<param>OF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
     SF = r"(?P<param>SF)(?P<discarded>.*)"
-    LN = r"(?P<param>LN)(?P<name>.*)"
+    LN = r"(?P<param>LN)(?P<name>[^*%]*)"
     DEPRECATED_UNIT = re.compile(r'(?P<mode>G7[01])\*')
     DEPRECATED_FORMAT = re.compile(r'(?P<format>G9[01])\*')
     # end deprecated
-- 
2.43.0


From f26c9689e372e05624e7123770c50f51d809c6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 019/107] fix: read scale factors, and mirror/offset/scale
 commands that name one axis

---
 gerber/gerber_statements.py | 12 ++++++------
 gerber/rs274x.py            |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index a2afe00..2d7d905 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -643,8 +643,8 @@ class MIParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = int(stmt_dict.get('a', 0))
-        b = int(stmt_dict.get('b', 0))
+        a = int(stmt_dict.get('a') or 0)
+        b = int(stmt_dict.get('b') or 0)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
@@ -691,8 +691,8 @@ class OFParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = float(stmt_dict.get('a', 0))
-        b = float(stmt_dict.get('b', 0))
+        a = float(stmt_dict.get('a') or 0)
+        b = float(stmt_dict.get('b') or 0)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
@@ -765,8 +765,8 @@ class SFParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = float(stmt_dict.get('a', 1))
-        b = float(stmt_dict.get('b', 1))
+        a = float(stmt_dict.get('a') or 1)
+        b = float(stmt_dict.get('b') or 1)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 0e20e6f..12e5c92 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -209,7 +209,7 @@ class GerberParser(object):
     IR = r"(?P<param>IR)(?P<angle>{number})".format(number=NUMBER)
     MI = r"(?P<param>MI)(A(?P<a>0|1))?(B(?P<b>0|1))?"
     OF = r"(?P<param>OF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
-    SF = r"(?P<param>SF)(?P<discarded>.*)"
+    SF = r"(?P<param>SF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
     LN = r"(?P<param>LN)(?P<name>[^*%]*)"
     DEPRECATED_UNIT = re.compile(r'(?P<mode>G7[01])\*')
     DEPRECATED_FORMAT = re.compile(r'(?P<format>G9[01])\*')
-- 
2.43.0


From 482d6475134b9762307f0710a0de64bc3d286e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 020/107] fix: a deprecated G90/G91 statement is only that
 statement, not the rest of its line

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 12e5c92..01b9662 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -462,7 +462,7 @@ class GerberParser(object):
 
                 (deprecated_format, r) = _match_one(self.DEPRECATED_FORMAT, line)
                 if deprecated_format:
-                    yield DeprecatedStmt.from_gerber(line)
+                    yield DeprecatedStmt.from_gerber(line[:len(line) - len(r)])
                     line = r
                     did_something = True
                     continue
-- 
2.43.0


From aa1d1ee7e4e04cda97c183ae47627889709225a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 021/107] fix: decimal_string writes small numbers without an
 exponent

---
 gerber/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index 1c5369a..51f9d63 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -185,6 +185,8 @@ def decimal_string(value, precision=6, padding=False):
 
     """
     floatstr = '%0.10g' % value
+    if 'e' in floatstr:
+        floatstr = '%.10f' % value
     integer = None
     decimal = None
     if '.' in floatstr:
-- 
2.43.0


From 6173c64feb711778f73898d8b14222f914c96f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 022/107] fix: bounding boxes of shapes rotated by more than a
 quarter turn or clockwise

---
 gerber/primitives.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 5fa2f10..9637b5a 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -758,11 +758,13 @@ class Rectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
     def equivalent(self, other, offset):
         """Is this the same as the other rect, ignoring the offset?"""
@@ -853,11 +855,13 @@ class Diamond(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class ChamferRectangle(Primitive):
@@ -970,13 +974,13 @@ class ChamferRectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class RoundRectangle(Primitive):
@@ -1054,13 +1058,13 @@ class RoundRectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class Obround(Primitive):
@@ -1155,13 +1159,13 @@ class Obround(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class Polygon(Primitive):
-- 
2.43.0


From 506562214e5c94471555841456a42803a465a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 023/107] fix: rotate the vertices of a shape about its own
 center

---
 gerber/primitives.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 9637b5a..a1b251e 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -751,9 +751,8 @@ class Rectangle(Primitive):
             ul = ((self.position[0] - delta_w), (self.position[1] + delta_h))
             ur = ((self.position[0] + delta_w), (self.position[1] + delta_h))
             lr = ((self.position[0] + delta_w), (self.position[1] - delta_h))
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in [ll, ul, ur, lr]]
+            self._vertices = [rotate_point(vertex, self.rotation, self.position)
+                              for vertex in [ll, ul, ur, lr]]
         return self._vertices
 
     @property
@@ -848,9 +847,8 @@ class Diamond(Primitive):
             right = ((self.position[0] + delta_w), self.position[1])
             bottom = (self.position[0], (self.position[1] - delta_h))
             left = ((self.position[0] - delta_w), self.position[1])
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in [top, right, bottom, left]]
+            self._vertices = [rotate_point(vertex, self.rotation, self.position)
+                              for vertex in [top, right, bottom, left]]
         return self._vertices
 
     @property
@@ -967,9 +965,8 @@ class ChamferRectangle(Primitive):
                         vertices.append((x, y + self.chamfer))
                 else:
                     vertices.append(corner)
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in vertices]
+            self._vertices = [rotate_point(vertex, self.rotation, self.position)
+                              for vertex in vertices]
         return self._vertices
 
     @property
@@ -1400,9 +1397,8 @@ class Outline(Primitive):
             vertices = [(self.position[0] + (math.cos(theta * side) * self.radius),
                          self.position[1] + (math.sin(theta * side) * self.radius))
                         for side in range(self.sides)]
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in vertices]
+            self._vertices = [rotate_point(vertex, self.rotation, self.position)
+                              for vertex in vertices]
         return self._vertices
 
     @property
-- 
2.43.0


From 6ff95993ef1c348a1bd18b34d3775090c44a0326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 024/107] fix: vertices and width of macro outlines

---
 gerber/primitives.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index a1b251e..269fe66 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1393,17 +1393,12 @@ class Outline(Primitive):
     @property
     def vertices(self):
         if self._vertices is None:
-            theta = math.radians(360/self.sides)
-            vertices = [(self.position[0] + (math.cos(theta * side) * self.radius),
-                         self.position[1] + (math.sin(theta * side) * self.radius))
-                        for side in range(self.sides)]
-            self._vertices = [rotate_point(vertex, self.rotation, self.position)
-                              for vertex in vertices]
+            self._vertices = [p.start for p in self.primitives]
         return self._vertices
 
     @property
     def width(self):
-        bounding_box = self.bounding_box()
+        bounding_box = self.bounding_box
         return bounding_box[0][1] - bounding_box[0][0]
 
     def equivalent(self, other, offset):
-- 
2.43.0


From 6a875f4243f1995cc13d4672bf9866fe12424ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 025/107] fix: bounding box of arcs drawn with an aperture that
 is not round

---
 gerber/primitives.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 269fe66..e5a17e6 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -452,10 +452,10 @@ class Arc(Primitive):
                 min_y = min(y) - self.aperture.radius
                 max_y = max(y) + self.aperture.radius
             else:
-                min_x = min(x) - self.aperture.width
-                max_x = max(x) + self.aperture.width
-                min_y = min(y) - self.aperture.height
-                max_y = max(y) + self.aperture.height
+                min_x = min(x) - self.aperture.width / 2.
+                max_x = max(x) + self.aperture.width / 2.
+                min_y = min(y) - self.aperture.height / 2.
+                max_y = max(y) + self.aperture.height / 2.
 
             self._bounding_box = ((min_x, max_x), (min_y, max_y))
         return self._bounding_box
-- 
2.43.0


From 5c5d386aa9e75ff1f6318e5c93426da900e71cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 026/107] fix: bounding box of single-quadrant arcs which cross
 an axis

---
 gerber/primitives.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index e5a17e6..e1d31c2 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -412,7 +412,8 @@ class Arc(Primitive):
             theta0 = (self.start_angle + two_pi) % two_pi
             theta1 = (self.end_angle + two_pi) % two_pi
             points = [self.start, self.end]
-            if self.quadrant_mode == 'multi-quadrant':
+            # In single quadrant mode, equal end points are an arc of no length
+            if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
                 if self.direction == 'counterclockwise':
                     # Passes through 0 degrees
                     if theta0 >= theta1:
@@ -467,7 +468,8 @@ class Arc(Primitive):
         theta0 = (self.start_angle + two_pi) % two_pi
         theta1 = (self.end_angle + two_pi) % two_pi
         points = [self.start, self.end]
-        if self.quadrant_mode == 'multi-quadrant':
+        # In single quadrant mode, equal end points are an arc of no length
+        if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
             if self.direction == 'counterclockwise':
                 # Passes through 0 degrees
                 if theta0 >= theta1:
-- 
2.43.0


From 115984f3941c1f0a291dc1b7b3cfe29697283b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 027/107] fix: butterflies, donuts and slots do not return
 outdated bounding boxes

---
 gerber/primitives.py | 64 +++++++++++++++++---------------------------
 1 file changed, 24 insertions(+), 40 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index e1d31c2..e66ccc2 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1461,8 +1461,6 @@ class RoundButterfly(Primitive):
         self.diameter = diameter
         self._to_convert = ['position', 'diameter']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
@@ -1473,13 +1471,11 @@ class RoundButterfly(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            min_x = self.position[0] - self.radius
-            max_x = self.position[0] + self.radius
-            min_y = self.position[1] - self.radius
-            max_y = self.position[1] + self.radius
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        min_x = self.position[0] - self.radius
+        max_x = self.position[0] + self.radius
+        min_y = self.position[1] - self.radius
+        max_y = self.position[1] + self.radius
+        return ((min_x, max_x), (min_y, max_y))
 
 
 class SquareButterfly(Primitive):
@@ -1493,21 +1489,17 @@ class SquareButterfly(Primitive):
         self.side = side
         self._to_convert = ['position', 'side']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            min_x = self.position[0] - (self.side / 2.)
-            max_x = self.position[0] + (self.side / 2.)
-            min_y = self.position[1] - (self.side / 2.)
-            max_y = self.position[1] + (self.side / 2.)
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        min_x = self.position[0] - (self.side / 2.)
+        max_x = self.position[0] + (self.side / 2.)
+        min_y = self.position[1] - (self.side / 2.)
+        max_y = self.position[1] + (self.side / 2.)
+        return ((min_x, max_x), (min_y, max_y))
 
 
 class Donut(Primitive):
@@ -1539,8 +1531,6 @@ class Donut(Primitive):
         self._to_convert = ['position', 'width',
                             'height', 'inner_diameter', 'outer_diameter']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
@@ -1557,13 +1547,11 @@ class Donut(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            ll = (self.position[0] - (self.width / 2.),
-                  self.position[1] - (self.height / 2.))
-            ur = (self.position[0] + (self.width / 2.),
-                  self.position[1] + (self.height / 2.))
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
+        ll = (self.position[0] - (self.width / 2.),
+              self.position[1] - (self.height / 2.))
+        ur = (self.position[0] + (self.width / 2.),
+              self.position[1] + (self.height / 2.))
+        return ((ll[0], ur[0]), (ll[1], ur[1]))
 
 
 class SquareRoundDonut(Primitive):
@@ -1587,11 +1575,9 @@ class SquareRoundDonut(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            ll = tuple([c - self.outer_diameter / 2. for c in self.position])
-            ur = tuple([c + self.outer_diameter / 2. for c in self.position])
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
+        ll = tuple([c - self.outer_diameter / 2. for c in self.position])
+        ur = tuple([c + self.outer_diameter / 2. for c in self.position])
+        return ((ll[0], ur[0]), (ll[1], ur[1]))
 
 
 class Drill(Primitive):
@@ -1667,14 +1653,12 @@ class Slot(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            radius = self.diameter / 2.
-            min_x = min(self.start[0], self.end[0]) - radius
-            max_x = max(self.start[0], self.end[0]) + radius
-            min_y = min(self.start[1], self.end[1]) - radius
-            max_y = max(self.start[1], self.end[1]) + radius
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        radius = self.diameter / 2.
+        min_x = min(self.start[0], self.end[0]) - radius
+        max_x = max(self.start[0], self.end[0]) + radius
+        min_y = min(self.start[1], self.end[1]) - radius
+        max_y = max(self.start[1], self.end[1]) + radius
+        return ((min_x, max_x), (min_y, max_y))
 
     def offset(self, x_offset=0, y_offset=0):
         self.start = tuple(map(add, self.start, (x_offset, y_offset)))
-- 
2.43.0


From 97bc1e31fd0e06820768c7d888c8e7d74f394f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 028/107] fix: changing the aperture or direction of a stroke,
 or the sides of a polygon, resets what was computed from them

---
 gerber/primitives.py | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index e66ccc2..eb6d956 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -211,7 +211,7 @@ class Line(Primitive):
         self.level_polarity = level_polarity
         self._start = start
         self._end = end
-        self.aperture = aperture
+        self._aperture = aperture
         self._to_convert = ['start', 'end', 'aperture']
 
     @property
@@ -236,6 +236,15 @@ class Line(Primitive):
         self._changed()
         self._end = value
 
+    @property
+    def aperture(self):
+        return self._aperture
+
+    @aperture.setter
+    def aperture(self, value):
+        self._changed()
+        self._aperture = value
+
     @property
     def angle(self):
         delta_x, delta_y = tuple(
@@ -331,8 +340,8 @@ class Arc(Primitive):
         self._start = start
         self._end = end
         self._center = center
-        self.direction = direction
-        self.aperture = aperture
+        self._direction = direction
+        self._aperture = aperture
         self._quadrant_mode = quadrant_mode
         self._to_convert = ['start', 'end', 'center', 'aperture']
 
@@ -367,6 +376,24 @@ class Arc(Primitive):
         self._changed()
         self._center = value
 
+    @property
+    def direction(self):
+        return self._direction
+
+    @direction.setter
+    def direction(self, value):
+        self._changed()
+        self._direction = value
+
+    @property
+    def aperture(self):
+        return self._aperture
+
+    @aperture.setter
+    def aperture(self, value):
+        self._changed()
+        self._aperture = value
+
     @property
     def quadrant_mode(self):
         return self._quadrant_mode
@@ -1176,7 +1203,7 @@ class Polygon(Primitive):
         super(Polygon, self).__init__(**kwargs)
         validate_coordinates(position)
         self._position = position
-        self.sides = sides
+        self._sides = sides
         self._radius = radius
         self.hole_diameter = hole_diameter
         self.hole_width = hole_width
@@ -1188,6 +1215,15 @@ class Polygon(Primitive):
     def flashed(self):
         return True
 
+    @property
+    def sides(self):
+        return self._sides
+
+    @sides.setter
+    def sides(self, value):
+        self._changed()
+        self._sides = value
+
     @property
     def diameter(self):
         return self.radius * 2
-- 
2.43.0


From 82b9236698ed5a88082e66ee9fbb3bf351fe66f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 029/107] fix: offsetting a Gerber file moves coordinates only,
 not arc centers relative to them or scale factors

---
 gerber/rs274x.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 01b9662..d734a7a 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -176,7 +176,11 @@ class GerberFile(CamFile):
 
     def offset(self, x_offset=0,  y_offset=0):
         for statement in self.statements:
-            statement.offset(x_offset, y_offset)
+            if isinstance(statement, CoordStmt):
+                # The center of an arc is given relative to its start point
+                i, j = statement.i, statement.j
+                statement.offset(x_offset, y_offset)
+                statement.i, statement.j = i, j
         for primitive in self.primitives:
             primitive.offset(x_offset, y_offset)
 
-- 
2.43.0


From 842b6b8fda411be1857a4b7a5254966b22b3d201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 030/107] fix: converting the units of a Gerber file leaves its
 scale factors alone

---
 gerber/rs274x.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index d734a7a..c380b9c 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -158,7 +158,8 @@ class GerberFile(CamFile):
         if self.units != 'inch':
             self.units = 'inch'
             for statement in self.statements:
-                statement.to_inch()
+                if not isinstance(statement, SFParamStmt):  # factors have no units
+                    statement.to_inch()
             for primitive in self.primitives:
                 primitive.to_inch()
             for aperture in self.apertures:
@@ -168,7 +169,8 @@ class GerberFile(CamFile):
         if self.units != 'metric':
             self.units = 'metric'
             for statement in self.statements:
-                statement.to_metric()
+                if not isinstance(statement, SFParamStmt):  # factors have no units
+                    statement.to_metric()
             for primitive in self.primitives:
                 primitive.to_metric()
             for aperture in self.apertures:
-- 
2.43.0


From 1ec7384b3768aa0d85deadc6c70c1029ca739cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 031/107] fix: macro comments do not grow a comma each time the
 macro is written

---
 gerber/am_statements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index ef68834..d9969bb 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -131,7 +131,8 @@ class AMCommentPrimitive(AMPrimitive):
     def from_gerber(cls, primitive):
         primitive = primitive.strip()
         code = int(primitive[0])
-        comment = primitive[1:]
+        # an evaluated macro separates the code and the text by a comma
+        comment = primitive[2:] if primitive[1:2] == ',' else primitive[1:]
         return cls(code, comment)
 
     def __init__(self, code, comment):
-- 
2.43.0


From f4019895ad06692e0506998ee4ec313cf5a8c740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 032/107] fix: find the center of single-quadrant quarter
 circles whose coordinates are rounded

---
 gerber/rs274x.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index c380b9c..3eca02f 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -768,8 +768,7 @@ class GerberParser(object):
                 if self.direction == 'counterclockwise':
                     sweep_angle = (theta1 - theta0) % two_pi
                 else:
-                    theta0 += two_pi
-                    sweep_angle = abs(theta0 - theta1) % two_pi
+                    sweep_angle = (theta0 - theta1) % two_pi
 
                 # Calculate the radius error
                 sqdist_start = sq_distance(start, test_center)
@@ -778,10 +777,11 @@ class GerberParser(object):
 
                 # Take the option with the lowest radius error from the set of
                 # options with a valid sweep angle
-                # In some rare cases, the sweep angle is numerically (10**-14) above pi/2
-                # So it is safer to compare the angles with some tolerance
+                # The coordinates of a quarter circle are rounded to the format of the file,
+                # which can put the sweep angle above pi/2. The other centers with a small
+                # radius error sweep about 3 * pi/2, so compare with a large tolerance
                 is_lowest_radius_error = sqdist_diff < sqdist_diff_min
-                is_valid_sweep_angle = sweep_angle >= 0 and sweep_angle <= math.pi / 2.0 + 1e-6
+                is_valid_sweep_angle = sweep_angle >= 0 and sweep_angle <= math.pi / 2.0 + 0.1
                 if is_lowest_radius_error and is_valid_sweep_angle:
                     center = test_center
                     sqdist_diff_min = sqdist_diff
-- 
2.43.0


From 833691614da1b1bc945463450cd114fe98a8ea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 033/107] fix: bounding box and vertices of lines drawn with a
 polygon aperture

---
 gerber/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index eb6d956..d9062a7 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -255,7 +255,7 @@ class Line(Primitive):
     @property
     def bounding_box(self):
         if self._bounding_box is None:
-            if isinstance(self.aperture, Circle):
+            if isinstance(self.aperture, (Circle, Polygon)):
                 width_2 = self.aperture.radius
                 height_2 = width_2
             else:
@@ -299,7 +299,7 @@ class Line(Primitive):
                 # The line is defined by the convex hull of the points
                 self._vertices = convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))
             elif isinstance(self.aperture, Polygon):
-                points = [map(add, point, vertex)
+                points = [tuple(map(add, point, vertex))
                           for vertex in self.aperture.vertices
                           for point in (start, end)]
                 self._vertices = convex_hull(points)
-- 
2.43.0


From e0f0e267b18b03088e0abc831254c4937582cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 034/107] fix: convex hull of points that are given more than
 once

---
 gerber/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index 51f9d63..2bfbe92 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -481,5 +481,7 @@ def _findhull(idxp, a_i, b_i, points):
 
 
 def convex_hull(points):
+    # Repeated points would be taken for points of the hull's edges
+    points = sorted(set(tuple(point) for point in points))
     vertices = ConvexHull_qh(points)
     return [points[idx] for idx in vertices]
-- 
2.43.0


From fcbfa1a01765b4f4571773f68dfcf4d28762472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 035/107] fix: count slots drilled by coordinates that follow a
 G01 block

---
 gerber/excellon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 5ab062a..7832222 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -733,6 +733,7 @@ class ExcellonParser(object):
                         self.active_tool = self._get_tool(1)
 
                     self.hits.append(DrillSlot(self.active_tool, start, tuple(self.pos), DrillSlot.TYPE_ROUT))
+                    self.active_tool._hit()
 
                 elif self.state == 'DRILL' or self.state == 'HEADER':
                     # Yes, drills in the header doesn't follow the specification, but it there are many
-- 
2.43.0


From e5a2654568a1c95b5969a9e766f777528038f736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 036/107] fix: slots whose start leaves out a coordinate

---
 gerber/excellon.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 7832222..f3523d4 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -684,6 +684,12 @@ class ExcellonParser(object):
             if 'G85' in line:
                 stmt = SlotStmt.from_excellon(line, self._settings())
 
+                # Coordinates that are left out are those of the current position
+                start = (stmt.x_start if stmt.x_start is not None else self.pos[0],
+                         stmt.y_start if stmt.y_start is not None else self.pos[1])
+                end = (stmt.x_end if stmt.x_end is not None else start[0],
+                       stmt.y_end if stmt.y_end is not None else start[1])
+
                 # I don't know if this is actually correct, but it makes sense
                 # that this is where the tool would end
                 x = stmt.x_end
@@ -706,7 +712,7 @@ class ExcellonParser(object):
                     if not self.active_tool:
                         self.active_tool = self._get_tool(1)
 
-                    self.hits.append(DrillSlot(self.active_tool, (stmt.x_start, stmt.y_start), (stmt.x_end, stmt.y_end), DrillSlot.TYPE_G85))
+                    self.hits.append(DrillSlot(self.active_tool, start, end, DrillSlot.TYPE_G85))
                     self.active_tool._hit()
             else:
                 stmt = CoordinateStmt.from_excellon(line, self._settings())
-- 
2.43.0


From 3416d7493ea2eb76b656361b7fa25649640fe6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 037/107] fix: read tools that are defined in comments

---
 gerber/excellon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index f3523d4..e6befde 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -474,7 +474,7 @@ class ExcellonParser(object):
                 # Parse this as a hole definition
                 tools = ExcellonToolDefinitionParser(self._settings()).parse_raw(comment_stmt.comment)
                 if len(tools) == 1:
-                    tool = tools[tools.keys()[0]]
+                    tool = list(tools.values())[0]
                     self._add_comment_tool(tool)
 
         elif line[:3] == 'M48':
-- 
2.43.0


From ae87c80baa3313c8b94b15aeaf6b411b54b5ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 038/107] fix: converting the units of a drill file converts
 the positions of its holes and slots

---
 gerber/excellon.py | 69 +++++++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 22 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index e6befde..1b9be64 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -84,6 +84,20 @@ def loads(data, filename=None, settings=None, tools=None):
     return ExcellonParser(settings, tools).parse_raw(data, filename)
 
 
+def _tool_units(tool):
+    return tool.settings.units if tool is not None and tool.settings else None
+
+
+def _in_units_of(tool, point, units):
+    """ Hits are expressed in the units of their tool, which many hits share, so
+    converting the tool converts all of them.
+    """
+    tool_units = _tool_units(tool)
+    if units is None or tool_units is None or units == tool_units:
+        return point
+    return tuple(map(inch if tool_units == 'inch' else metric, point))
+
+
 class DrillHit(object):
     """Drill feature that is a single drill hole.
 
@@ -99,15 +113,20 @@ class DrillHit(object):
         self.tool = tool
         self.position = position
 
+    @property
+    def position(self):
+        return _in_units_of(self.tool, self._position, self._units)
+
+    @position.setter
+    def position(self, value):
+        self._position = value
+        self._units = _tool_units(self.tool)
+
     def to_inch(self):
-        if self.tool.settings.units == 'metric':
-            self.tool.to_inch()
-            self.position = tuple(map(inch, self.position))
+        self.tool.to_inch()
 
     def to_metric(self):
-        if self.tool.settings.units == 'inch':
-            self.tool.to_metric()
-            self.position = tuple(map(metric, self.position))
+        self.tool.to_metric()
 
     @property
     def bounding_box(self):
@@ -140,17 +159,29 @@ class DrillSlot(object):
         self.end = end
         self.slot_type = slot_type
 
+    @property
+    def start(self):
+        return _in_units_of(self.tool, self._start, self._start_units)
+
+    @start.setter
+    def start(self, value):
+        self._start = value
+        self._start_units = _tool_units(self.tool)
+
+    @property
+    def end(self):
+        return _in_units_of(self.tool, self._end, self._end_units)
+
+    @end.setter
+    def end(self, value):
+        self._end = value
+        self._end_units = _tool_units(self.tool)
+
     def to_inch(self):
-        if self.tool.settings.units == 'metric':
-            self.tool.to_inch()
-            self.start = tuple(map(inch, self.start))
-            self.end = tuple(map(inch, self.end))
+        self.tool.to_inch()
 
     def to_metric(self):
-        if self.tool.settings.units == 'inch':
-            self.tool.to_metric()
-            self.start = tuple(map(metric, self.start))
-            self.end = tuple(map(metric, self.end))
+        self.tool.to_metric()
 
     @property
     def bounding_box(self):
@@ -288,10 +319,8 @@ class ExcellonFile(CamFile):
                 statement.to_inch()
             for tool in iter(self.tools.values()):
                 tool.to_inch()
-            #for primitive in self.primitives:
-            #    primitive.to_inch()
-            #for hit in self.hits:
-            #    hit.to_inch()
+            for hit in self.hits:
+                hit.to_inch()
             self.units = 'inch'
 
     def to_metric(self):
@@ -302,10 +331,6 @@ class ExcellonFile(CamFile):
                 statement.to_metric()
             for tool in iter(self.tools.values()):
                 tool.to_metric()
-            #for primitive in self.primitives:
-            #    print("Converting to metric: {}".format(primitive))
-            #    primitive.to_metric()
-            #    print(primitive)
             for hit in self.hits:
                 hit.to_metric()
             self.units = 'metric'
-- 
2.43.0


From 231b3c34fbe1272a8f97b37cca539c871b58606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 039/107] fix: path length of tools that drill slots

---
 gerber/excellon.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 1b9be64..30ba6cf 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -354,9 +354,13 @@ class ExcellonFile(CamFile):
             positions[num] = ((0, 0) if positions.get(num) is None
                               else positions[num])
             lengths[num] = 0.0 if lengths.get(num) is None else lengths[num]
-            lengths[num] = lengths[
-                num] + math.hypot(*tuple(map(operator.sub, positions[num], hit.position)))
-            positions[num] = hit.position
+            if isinstance(hit, DrillSlot):
+                path = (hit.start, hit.end)
+            else:
+                path = (hit.position,)
+            for position in path:
+                lengths[num] += math.hypot(*tuple(map(operator.sub, positions[num], position)))
+                positions[num] = position
 
         if tool_number is None:
             return lengths
-- 
2.43.0


From 295337234726027ab48348069b8283efd671981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 040/107] fix: drill report of files with unused tools, and its
 mode and unit lines

---
 gerber/excellon.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 30ba6cf..4106d89 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -275,16 +275,16 @@ class ExcellonFile(CamFile):
         if self.filename is not None:
             rprt += 'NC Drill File: %s\n\n' % self.filename
         rprt += 'Drill File Info:\n----------------\n'
-        rprt += ('  Data Mode         %s\n' % 'Absolute'
-                 if self.settings.notation == 'absolute' else 'Incremental')
-        rprt += ('  Units             %s\n' % 'Inches'
-                 if self.settings.units == 'inch' else 'Millimeters')
+        rprt += ('  Data Mode         %s\n' % ('Absolute'
+                 if self.settings.notation == 'absolute' else 'Incremental'))
+        rprt += ('  Units             %s\n' % ('Inches'
+                 if self.settings.units == 'inch' else 'Millimeters'))
         rprt += '\nTool List:\n----------\n\n'
         rprt += '  Code      Size     Hits    Path Length\n'
         rprt += '  --------------------------------------\n'
         for tool in iter(self.tools.values()):
             rprt += toolfmt.format(tool.number, tool.diameter,
-                                   tool.hit_count, self.path_length(tool.number))
+                                   tool.hit_count, self.path_length(tool.number) or 0.0)
         if filename is not None:
             with open(filename, 'w') as f:
                 f.write(rprt)
-- 
2.43.0


From aa5a17578e48220f30e5af10078befc79974e378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 041/107] fix: written drill files keep slots, define all their
 tools and use absolute notation

---
 gerber/excellon.py | 76 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 65 insertions(+), 11 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 4106d89..6d77ea6 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -294,21 +294,75 @@ class ExcellonFile(CamFile):
         filename = filename if filename is not None else self.filename
         with open(filename, 'w') as f:
 
-            # Copy the header verbatim
-            for statement in self.statements:
-                if not isinstance(statement, ToolSelectionStmt):
-                    f.write(statement.to_excellon(self.settings) + '\n')
-                else:
-                    break
+            statements = self._header_statements()
 
             # Write out coordinates for drill hits by tool
             for tool in iter(self.tools.values()):
-                f.write(ToolSelectionStmt(tool.number).to_excellon(self.settings) + '\n')
+                statements.append(ToolSelectionStmt(tool.number))
+                routing = False
                 for hit in self.hits:
-                    if hit.tool.number == tool.number:
-                        f.write(CoordinateStmt(
-                            *hit.position).to_excellon(self.settings) + '\n')
-            f.write(EndOfProgramStmt().to_excellon() + '\n')
+                    if hit.tool.number != tool.number:
+                        continue
+                    if isinstance(hit, DrillSlot) and hit.slot_type == DrillSlot.TYPE_ROUT:
+                        statements.append(CoordinateStmt.from_point(hit.start, mode='ROUT'))
+                        statements.append(ZAxisRoutPositionStmt())
+                        statements.append(CoordinateStmt.from_point(hit.end, mode='LINEAR'))
+                        statements.append(RetractWithClampingStmt())
+                        routing = True
+                        continue
+                    if routing:
+                        statements.append(DrillModeStmt())
+                        routing = False
+                    if isinstance(hit, DrillSlot):
+                        statements.append(SlotStmt.from_points(hit.start, hit.end))
+                    else:
+                        statements.append(CoordinateStmt(*hit.position))
+                if routing:
+                    statements.append(DrillModeStmt())
+            statements.append(EndOfProgramStmt())
+
+            for statement in statements:
+                f.write(statement.to_excellon(self.settings) + '\n')
+
+    def _header_statements(self):
+        """ Statements to write before the hits: the header of the file, with
+        definitions of all of its tools
+        """
+        header = []
+        in_header = False
+        end = None  # index of the statement which ends the header
+        for statement in self.statements:
+            if isinstance(statement, (ToolSelectionStmt, NextToolSelectionStmt, CoordinateStmt,
+                                      RepeatHoleStmt, SlotStmt, RouteModeStmt,
+                                      ZAxisRoutPositionStmt, EndOfProgramStmt)):
+                break
+            if (isinstance(statement, HeaderBeginStmt) or
+                    isinstance(statement, RewindStopStmt) and not in_header and end is None or
+                    isinstance(statement, CommentStmt) and
+                    ('HEADER:' in statement.comment or ' Holesize ' in statement.comment)):
+                in_header, end = True, None
+            elif in_header and isinstance(statement, (RewindStopStmt, HeaderEndStmt, DrillModeStmt)):
+                in_header, end = False, len(header)
+            header.append(statement)
+
+        if end is None:
+            if not in_header:
+                header.append(HeaderBeginStmt())
+            end = len(header)
+            header.append(RewindStopStmt())
+
+        # Tools may also be defined outside of the header, or not in this file at all
+        body = [stmt for stmt in header[end:] if not isinstance(stmt, ExcellonTool)]
+        header = header[:end]
+        defined = [id(stmt) for stmt in header]
+        header += [tool for tool in self.tools.values() if id(tool) not in defined]
+        header += body
+
+        # Positions are always written in absolute notation
+        if (self.notation == 'incremental' or
+                any(isinstance(stmt, IncrementalModeStmt) and stmt.mode == 'on' for stmt in header)):
+            header.append(AbsoluteModeStmt())
+        return header
 
     def to_inch(self):
         """
-- 
2.43.0


From d5d4cea55ef1872d1583e0082f944a3c7d6a55fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 042/107] fix: written drill files keep the coordinate format
 of their unit statement

---
 gerber/excellon_statements.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 2c50ef9..abc795f 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -621,10 +621,11 @@ class EndOfProgramStmt(ExcellonStatement):
 
     def to_excellon(self, settings=None):
         stmt = 'M30'
+        fmt = (settings.format, settings.zero_suppression) if settings is not None else ()
         if self.x is not None:
-            stmt += 'X%s' % write_gerber_value(self.x)
+            stmt += 'X%s' % write_gerber_value(self.x, *fmt)
         if self.y is not None:
-            stmt += 'Y%s' % write_gerber_value(self.y)
+            stmt += 'Y%s' % write_gerber_value(self.y, *fmt)
         return stmt
 
     def to_inch(self):
@@ -679,10 +680,11 @@ class UnitStmt(ExcellonStatement):
         self.format = format
 
     def to_excellon(self, settings=None):
-        # TODO This won't export the invalid format statement if it exists
         stmt = '%s,%s' % ('INCH' if self.units == 'inch' else 'METRIC',
                           'LZ' if self.zeros == 'leading'
                           else 'TZ')
+        if self.format is not None:
+            stmt += ',%s.%s' % ('0' * self.format[0], '0' * self.format[1])
         return stmt
 
     def to_inch(self):
-- 
2.43.0


From 7d1ce677eb17f48e58d2f1dc2a859a81f226602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 043/107] fix: plated and non-plated marks of tool tables

---
 gerber/excellon_tool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon_tool.py b/gerber/excellon_tool.py
index a9ac450..f9837b7 100644
--- a/gerber/excellon_tool.py
+++ b/gerber/excellon_tool.py
@@ -94,9 +94,9 @@ class ExcellonToolDefinitionParser(object):
                 xtol = self._convert_length(xtol, unit)
                 ytol = self._convert_length(ytol, unit)
 
-                if platedstr == 'PLATED':
+                if platedstr in ('PLATED', 'P'):
                     plated = ExcellonTool.PLATED_YES
-                elif platedstr == 'NON_PLATED':
+                elif platedstr in ('NON_PLATED', 'N'):
                     plated = ExcellonTool.PLATED_NO
                 elif platedstr == 'OPTIONAL':
                     plated = ExcellonTool.PLATED_OPTIONAL
-- 
2.43.0


From e6cd1f191fffea3818d3ccdb3b69fdf5dedf4743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 044/107] fix: incremental coordinates in drill parameter files

---
 gerber/excellon_settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon_settings.py b/gerber/excellon_settings.py
index 4dbe0ca..e2defdd 100644
--- a/gerber/excellon_settings.py
+++ b/gerber/excellon_settings.py
@@ -50,7 +50,7 @@ def loads(data):
 def map_coordinates(value):
     if value == 'ABSOLUTE':
         return 'absolute'
-    return 'relative'
+    return 'incremental'
 
 def map_units(value):
     if value == 'ENGLISH':
-- 
2.43.0


From d3dc1967cc49ffe9b9d3e02f047d21b12e24d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 045/107] fix: tools of external tables and comments are not
 shared between files and keep their size

---
 gerber/excellon.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 6d77ea6..e605bc4 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -23,6 +23,7 @@ Excellon File module
 This module provides Excellon file classes and parsing utilities
 """
 
+import copy
 import math
 import operator
 
@@ -558,6 +559,7 @@ class ExcellonParser(object):
                 tools = ExcellonToolDefinitionParser(self._settings()).parse_raw(comment_stmt.comment)
                 if len(tools) == 1:
                     tool = list(tools.values())[0]
+                    tool.settings = self._settings()
                     self._add_comment_tool(tool)
 
         elif line[:3] == 'M48':
@@ -871,15 +873,21 @@ class ExcellonParser(object):
 
         tool = self.tools.get(toolid)
         if not tool:
-            tool = self.comment_tools.get(toolid)
+            # Definitions may be shared with other files, so each file gets its own tool
+            tool = self.comment_tools.get(toolid) or self.ext_tools.get(toolid)
             if tool:
-                tool.settings = self._settings()
-                self.tools[toolid] = tool
-
-        if not tool:
-            tool = self.ext_tools.get(toolid)
-            if tool:
-                tool.settings = self._settings()
+                tool = copy.copy(tool)
+                if tool.settings is None:
+                    tool.settings = self._settings()
+                else:
+                    # Express the tool in the units of this file
+                    tool.settings = copy.copy(tool.settings)
+                    if self.units == 'inch':
+                        tool.to_inch()
+                    else:
+                        tool.to_metric()
+                    tool.settings = self._settings()
+                tool.hit_count = 0
                 self.tools[toolid] = tool
 
         return tool
-- 
2.43.0


From ae9912059c8b2ce47520d9404651aa66d7afb58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 046/107] fix: render drill files to drill files

---
 gerber/excellon.py                |  1 +
 gerber/render/excellon_backend.py | 20 +++++++++++++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index e605bc4..645f600 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -251,6 +251,7 @@ class ExcellonFile(CamFile):
                                        units=self.settings.units))
             else:
                 raise ValueError('Unknown hit type')
+            primitives[-1].hit = hit
         return primitives
 
     @property
diff --git a/gerber/render/excellon_backend.py b/gerber/render/excellon_backend.py
index 765d68c..b706943 100644
--- a/gerber/render/excellon_backend.py
+++ b/gerber/render/excellon_backend.py
@@ -20,7 +20,7 @@ class ExcellonContext(GerberContext):
         self.start = [HeaderBeginStmt()]
 
         # Current tool and position
-        self.handled_tools = set()
+        self.handled_tools = {}
         self.cur_tool = None
         self.drill_mode = ExcellonContext.MODE_DRILL
         self.drill_down = False
@@ -93,6 +93,9 @@ class ExcellonContext(GerberContext):
         raise ValueError('Invalid Excellon object')
 
     def _simplify_point(self, point):
+        if point == self._pos:
+            # At least one coordinate is necessary to have a command
+            return point
         return (point[0] if point[0] != self._pos[0] else None, point[1] if point[1] != self._pos[1] else None)
 
     def _render_drill(self, drill, color):
@@ -101,11 +104,11 @@ class ExcellonContext(GerberContext):
             self._start_drill_mode()
 
         tool = drill.hit.tool
-        if not tool in self.handled_tools:
-            self.handled_tools.add(tool)
+        if not tool.number in self.handled_tools:
+            self.handled_tools[tool.number] = tool
             self.header.append(ExcellonTool.from_tool(tool))
 
-        if tool != self.cur_tool:
+        if self.cur_tool is None or tool.number != self.cur_tool.number:
             self.body.append(ToolSelectionStmt(tool.number))
             self.cur_tool = tool
 
@@ -138,11 +141,14 @@ class ExcellonContext(GerberContext):
 
         # Set the tool first, before we might go into drill mode
         tool = slot.hit.tool
-        if not tool in self.handled_tools:
-            self.handled_tools.add(tool)
+        if not tool.number in self.handled_tools:
+            self.handled_tools[tool.number] = tool
             self.header.append(ExcellonTool.from_tool(tool))
 
-        if tool != self.cur_tool:
+        if self.cur_tool is None or tool.number != self.cur_tool.number:
+            if self.drill_down:
+                self.body.append(RetractWithClampingStmt())
+                self.drill_down = False
             self.body.append(ToolSelectionStmt(tool.number))
             self.cur_tool = tool
 
-- 
2.43.0


From b896a741c9b3082648d64a716fd183f115aed948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 047/107] fix: spindle speeds of 100000 rpm and more in written
 drill files

---
 gerber/excellon_statements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index abc795f..740f97a 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -228,7 +228,9 @@ class ExcellonTool(ExcellonStatement):
             if self.rpm < 100000.:
                 stmt += 'S%s' % write_gerber_value(self.rpm / 1000., fmt, zs)
             else:
-                stmt += 'S%g' % (self.rpm / 1000.)
+                # A decimal point marks values which do not use the file's format
+                rpm = '%g' % (self.rpm / 1000.)
+                stmt += 'S%s' % (rpm if '.' in rpm else rpm + '.')
         if self.diameter is not None:
             stmt += 'C%s' % decimal_string(self.diameter, fmt[1], True)
         if self.depth_offset is not None:
-- 
2.43.0


From b85c1624440330451fe0f09dc91f1253f6d51405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 048/107] fix: tool parameters too large for the number format
 of written drill files

---
 gerber/excellon_statements.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 740f97a..e12b97f 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -219,24 +219,26 @@ class ExcellonTool(ExcellonStatement):
         zs = settings.zero_suppression
         stmt = 'T%02d' % self.number
         if self.retract_rate is not None:
-            stmt += 'B%s' % write_gerber_value(self.retract_rate, fmt, zs)
+            stmt += 'B%s' % self._parameter(self.retract_rate, fmt, zs)
         if self.feed_rate is not None:
-            stmt += 'F%s' % write_gerber_value(self.feed_rate, fmt, zs)
+            stmt += 'F%s' % self._parameter(self.feed_rate, fmt, zs)
         if self.max_hit_count is not None:
-            stmt += 'H%s' % write_gerber_value(self.max_hit_count, fmt, zs)
+            stmt += 'H%s' % self._parameter(self.max_hit_count, fmt, zs)
         if self.rpm is not None:
-            if self.rpm < 100000.:
-                stmt += 'S%s' % write_gerber_value(self.rpm / 1000., fmt, zs)
-            else:
-                # A decimal point marks values which do not use the file's format
-                rpm = '%g' % (self.rpm / 1000.)
-                stmt += 'S%s' % (rpm if '.' in rpm else rpm + '.')
+            stmt += 'S%s' % self._parameter(self.rpm / 1000., fmt, zs)
         if self.diameter is not None:
             stmt += 'C%s' % decimal_string(self.diameter, fmt[1], True)
         if self.depth_offset is not None:
-            stmt += 'Z%s' % write_gerber_value(self.depth_offset, fmt, zs)
+            stmt += 'Z%s' % self._parameter(self.depth_offset, fmt, zs)
         return stmt
 
+    @staticmethod
+    def _parameter(value, fmt, zs):
+        if abs(value) < 10 ** fmt[0]:
+            return write_gerber_value(value, fmt, zs)
+        # Too large for the format, so use an explicit decimal point
+        return decimal_string(value, fmt[1]).rstrip('0')
+
     def to_inch(self):
         if self.settings.units != 'inch':
             self.settings.units = 'inch'
-- 
2.43.0


From 3c6f5b4a6ef01ebaba6792bf75bca2dff190a7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 049/107] fix: written drill files switch to absolute notation
 only once

---
 gerber/excellon.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 645f600..d614970 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -361,8 +361,13 @@ class ExcellonFile(CamFile):
         header += body
 
         # Positions are always written in absolute notation
-        if (self.notation == 'incremental' or
-                any(isinstance(stmt, IncrementalModeStmt) and stmt.mode == 'on' for stmt in header)):
+        incremental = self.notation == 'incremental'
+        for stmt in header:
+            if isinstance(stmt, IncrementalModeStmt):
+                incremental = stmt.mode == 'on'
+            elif isinstance(stmt, AbsoluteModeStmt):
+                incremental = False
+        if incremental:
             header.append(AbsoluteModeStmt())
         return header
 
-- 
2.43.0


From f04d1d3d73045da2564580bb39366eebd342c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 050/107] fix: bounds of drill files

---
 gerber/excellon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index d614970..c588e4e 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -254,6 +254,10 @@ class ExcellonFile(CamFile):
             primitives[-1].hit = hit
         return primitives
 
+    @property
+    def bounds(self):
+        return self.bounding_box
+
     @property
     def bounding_box(self):
         xmin = ymin = 100000000000
-- 
2.43.0


From c9187207f30e3f0950312702752285ca1ea60dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 051/107] fix: different aperture macros drawn with one
 definition by the Gerber backend

---
 gerber/primitives.py            | 16 ++++++++++++++++
 gerber/render/rs274x_backend.py | 11 ++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index d9062a7..6ca3392 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -617,6 +617,10 @@ class Circle(Primitive):
         if self.diameter != other.diameter or self.hole_diameter != other.hole_diameter:
             return False
 
+        if (self.hole_width != other.hole_width or self.hole_height != other.hole_height or
+                self.level_polarity != other.level_polarity):
+            return False
+
         equiv_position = tuple(map(add, other.position, offset))
 
         return nearly_equal(self.position, equiv_position)
@@ -803,6 +807,10 @@ class Rectangle(Primitive):
         if self.width != other.width or self.height != other.height or self.rotation != other.rotation or self.hole_diameter != other.hole_diameter:
             return False
 
+        if (self.hole_width != other.hole_width or self.hole_height != other.hole_height or
+                self.level_polarity != other.level_polarity):
+            return False
+
         equiv_position = tuple(map(add, other.position, offset))
 
         return nearly_equal(self.position, equiv_position)
@@ -1287,6 +1295,11 @@ class Polygon(Primitive):
         if type(self) != type(other) or self.sides != other.sides or self.radius != other.radius:
             return False
 
+        if (self.rotation != other.rotation or self.hole_diameter != other.hole_diameter or
+                self.hole_width != other.hole_width or self.hole_height != other.hole_height or
+                self.level_polarity != other.level_polarity):
+            return False
+
         equiv_pos = tuple(map(add, other.position, offset))
 
         return nearly_equal(self.position, equiv_pos)
@@ -1448,6 +1461,9 @@ class Outline(Primitive):
         if type(self) != type(other) or len(self.primitives) != len(other.primitives):
             return False
 
+        if self.level_polarity != other.level_polarity:
+            return False
+
         for i in range(0, len(self.primitives)):
             if not self.primitives[i].equivalent(other.primitives[i], offset):
                 return False
diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index c7af2ea..0de1dee 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -464,15 +464,20 @@ class Rs274xContext(GerberContext):
             # Create the statements
             # TODO
             amrenderer = AMGroupContext()
-            statement = amrenderer.render(amgroup, hash)
+            # Different macros can have the same hash, but not the same name
+            name = hash
+            if macroinfo:
+                name = '%sV%d' % (hash, len(macroinfo))
+            statement = amrenderer.render(amgroup, name)
 
             self.header.append(statement)
 
-            aperdef = ADParamStmt.macro(dcode, hash)
+            aperdef = ADParamStmt.macro(dcode, name)
             self.header.append(aperdef)
 
-            # Store the dcode and the original so we can check if it really is the same
+            # Store the dcode and a copy of the original so we can check if it really is the same
             # If it didn't have a postition, set it to 0, 0
+            amgroup = deepcopy(amgroup)
             if amgroup.position == None:
                 amgroup.position = (0, 0)
             macro = (aperdef, amgroup)
-- 
2.43.0


From 50f997ffb1884d1bcb7dafe8a60b760490327f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 052/107] fix: strokes of apertures with holes and of polygons
 in the Gerber backend

---
 gerber/render/rs274x_backend.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 0de1dee..f3a949f 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -161,9 +161,17 @@ class Rs274xContext(GerberContext):
             if isinstance(aperture, Circle):
                 aper = self._get_circle(aperture.diameter, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, Rectangle):
-                aper = self._get_rectangle(aperture.width, aperture.height)
+                aper = self._get_rectangle(aperture.width, aperture.height,
+                                           aperture.hole_diameter,
+                                           aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, Obround):
-                aper = self._get_obround(aperture.width, aperture.height)
+                aper = self._get_obround(aperture.width, aperture.height,
+                                         aperture.hole_diameter,
+                                         aperture.hole_width, aperture.hole_height)
+            elif isinstance(aperture, Polygon):
+                aper = self._get_polygon(aperture.radius, aperture.sides,
+                                         aperture.rotation, aperture.hole_diameter,
+                                         aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, AMGroup):
                 aper = self._get_amacro(aperture)
             else:
-- 
2.43.0


From 5405cc9d3f5e3424e372c99d992e6883826d8ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 053/107] fix: aperture macros with names of one character

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 3eca02f..5e26b7b 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -193,7 +193,7 @@ class GerberParser(object):
     NUMBER = r"[\+-]?\d+"
     DECIMAL = r"[\+-]?\d+([.]?\d+)?"
     STRING = r"[a-zA-Z0-9_+\-/!?<>”’(){}.\|&@# :]+"
-    NAME = r"[a-zA-Z_$\.][a-zA-Z_$\.0-9+\-]+"
+    NAME = r"[a-zA-Z_$\.][a-zA-Z_$\.0-9+\-]*"
 
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
-- 
2.43.0


From 6a79d2e56ca3f4cebbae9ea02ce4e08de6a3a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 054/107] fix: strokes of no length lost by the Gerber backend

---
 gerber/render/rs274x_backend.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index f3a949f..1369566 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -186,7 +186,7 @@ class Rs274xContext(GerberContext):
         if hasattr(primitive, 'comment'):
             self.body.append(CommentStmt(primitive.comment))
 
-    def _render_line(self, line, color, default_polarity='dark'):
+    def _render_line(self, line, color, default_polarity='dark', in_region=False):
 
         self._select_aperture(line.aperture)
 
@@ -207,8 +207,9 @@ class Rs274xContext(GerberContext):
 
         point = self._simplify_point(line.end)
 
-        # In some files, we see a lot of duplicated ponts, so omit those
-        if point[0] != None or point[1] != None:
+        # In some files, we see a lot of duplicated ponts, so omit those in
+        # regions. Outside of a region, they draw a dot.
+        if point[0] != None or point[1] != None or not in_region:
             self.body.append(CoordStmt.line(func, self._simplify_point(line.end)))
             self._pos = line.end
         elif func:
@@ -263,7 +264,8 @@ class Rs274xContext(GerberContext):
             # Make programmatically generated primitives within a region with
             # unset level polarity inherit the region's level polarity
             if isinstance(p, Line):
-                self._render_line(p, color, default_polarity=region.level_polarity)
+                self._render_line(p, color, default_polarity=region.level_polarity,
+                                  in_region=True)
             else:
                 self._render_arc(p, color, default_polarity=region.level_polarity)
 
-- 
2.43.0


From 59d57c621c8bc4ea8ede940a34751375ac86da67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 055/107] fix: netlist records without pin at negative
 coordinates

---
 gerber/ipc356.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 9337a99..9470c03 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -294,9 +294,10 @@ class IPC356_TestRecord(object):
         end = len(line) - 1 if len(line) < 18 else 17
         record['net_name'] = line[3:end].strip()
 
-        if len(line) >= 27 and line[26] != '-':
-            offset = line[26:].find('-')
-            offset = 0 if offset == -1 else offset
+        # A long component name moves the rest of the record to the right
+        long_name = re.match(r'[^\s-]+(?=-)', line[26:])
+        if long_name:
+            offset = len(long_name.group())
         end = len(line) - 1 if len(line) < (27 + offset) else (26 + offset)
         record['id'] = line[20:end].strip()
 
-- 
2.43.0


From bd6d4a73bbf0cb96a767484e85ed3280ceccccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 056/107] fix: last digit lost in netlist records which are cut
 off after a field

---
 gerber/ipc356.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 9470c03..e28035f 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -291,23 +291,23 @@ class IPC356_TestRecord(object):
             raise ValueError('Not a valid test record statment')
         record['feature_type'] = feature_types[line[1]]
 
-        end = len(line) - 1 if len(line) < 18 else 17
+        end = 17
         record['net_name'] = line[3:end].strip()
 
         # A long component name moves the rest of the record to the right
         long_name = re.match(r'[^\s-]+(?=-)', line[26:])
         if long_name:
             offset = len(long_name.group())
-        end = len(line) - 1 if len(line) < (27 + offset) else (26 + offset)
+        end = 26 + offset
         record['id'] = line[20:end].strip()
 
-        end = len(line) - 1 if len(line) < (32 + offset) else (31 + offset)
+        end = 31 + offset
         record['pin'] = (line[27 + offset:end].strip() if line[27 + offset:end].strip() != ''
                          else None)
 
         record['location'] = 'middle' if line[31 + offset] == 'M' else 'end'
         if line[32 + offset] == 'D':
-            end = len(line) - 1 if len(line) < (38 + offset) else (37 + offset)
+            end = 37 + offset
             dia = int(line[33 + offset:end].strip())
             record['hole_diameter'] = (dia * 0.0001 if units == 'inch'
                                        else dia * 0.001)
@@ -315,37 +315,37 @@ class IPC356_TestRecord(object):
             record['plated'] = (line[37 + offset] == 'P')
 
         if len(line) >= (40 + offset):
-            end = len(line) - 1 if len(line) < (42 + offset) else (41 + offset)
+            end = 41 + offset
             record['access'] = access[int(line[39 + offset:end])]
 
         if len(line) >= (43 + offset):
-            end = len(line) - 1 if len(line) < (50 + offset) else (49 + offset)
+            end = 49 + offset
             coord = int(line[42 + offset:end].strip())
             record['x_coord'] = (coord * 0.0001 if units == 'inch'
                                  else coord * 0.001)
 
         if len(line) >= (51 + offset):
-            end = len(line) - 1 if len(line) < (58 + offset) else (57 + offset)
+            end = 57 + offset
             coord = int(line[50 + offset:end].strip())
             record['y_coord'] = (coord * 0.0001 if units == 'inch'
                                  else coord * 0.001)
 
         if len(line) >= (59 + offset):
-            end = len(line) - 1 if len(line) < (63 + offset) else (62 + offset)
+            end = 62 + offset
             dim = line[58 + offset:end].strip()
             if dim != '':
                 record['rect_x'] = (int(dim) * 0.0001 if units == 'inch'
                                     else int(dim) * 0.001)
 
         if len(line) >= (64 + offset):
-            end = len(line) - 1 if len(line) < (68 + offset) else (67 + offset)
+            end = 67 + offset
             dim = line[63 + offset:end].strip()
             if dim != '':
                 record['rect_y'] = (int(dim) * 0.0001 if units == 'inch'
                                     else int(dim) * 0.001)
 
         if len(line) >= (69 + offset):
-            end = len(line) - 1 if len(line) < (72 + offset) else (71 + offset)
+            end = 71 + offset
             rot = line[68 + offset:end].strip()
             if rot != '':
                 record['rect_rotation'] = (int(rot) if angle == 'degrees'
@@ -357,7 +357,7 @@ class IPC356_TestRecord(object):
             record['soldermask_info'] = _SM_FIELD.get(sm_info)
 
         if len(line) >= (76 + offset):
-            end = len(line) - 1 if len(line) < (80 + offset) else 79 + offset
+            end = 79 + offset
             record['optional_info'] = line[75 + offset:end]
 
         return cls(**record)
-- 
2.43.0


From 7fcfcf77c6659d76cb57590cf8cded28adc2afb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 057/107] fix: pad rotations of netlists in radians

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index e28035f..3bdeed1 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -349,7 +349,7 @@ class IPC356_TestRecord(object):
             rot = line[68 + offset:end].strip()
             if rot != '':
                 record['rect_rotation'] = (int(rot) if angle == 'degrees'
-                                           else math.degrees(rot))
+                                           else math.degrees(int(rot)))
 
         if len(line) >= (74 + offset):
             end = 74 + offset
-- 
2.43.0


From 9f08c612dd59027f0b6fb9efded134ba822e36f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 058/107] fix: negative coordinates of netlist outlines and
 conductors

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 3bdeed1..43f7566 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -25,7 +25,7 @@ from .primitives import TestRecord
 _NNAME = re.compile(r'^NNAME\d+$')
 
 # Board Edge Coordinates
-_COORD = re.compile(r'X?(?P<x>[\d\s]*)?Y?(?P<y>[\d\s]*)?')
+_COORD = re.compile(r'X?(?P<x>[+-]?[\d\s]*)?Y?(?P<y>[+-]?[\d\s]*)?')
 
 _SM_FIELD = {
     '0': 'none',
-- 
2.43.0


From a57afc8c00bb2cd1900fc5531f2175e5033b3d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 059/107] fix: adjacent nets of a netlist

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 43f7566..42baf41 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -112,7 +112,7 @@ class IPCNetlist(CamFile):
             adjacent_nets = set()
             for record in self.adjacency_records:
                 if record.net == net:
-                    adjacent_nets = adjacent_nets.update(record.adjacent_nets)
+                    adjacent_nets.update(record.adjacent_nets)
                 elif net in record.adjacent_nets:
                     adjacent_nets.add(record.net)
             nets.append(IPC356_Net(net, adjacent_nets))
-- 
2.43.0


From 93da3277e33d31a8edfdbce36136b611c2c43cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 060/107] fix: netlist records without component counted as a
 component

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 42baf41..d7519da 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -121,7 +121,7 @@ class IPCNetlist(CamFile):
     @property
     def components(self):
         return list(set([rec.id for rec in self.test_records
-                         if rec.id is not None and rec.id != 'VIA']))
+                         if rec.id and rec.id != 'VIA']))
 
     @property
     def vias(self):
-- 
2.43.0


From 323ebf6f5be6a98ec905d84caaface3ca37d6abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 061/107] fix: net name variables in adjacency and conductor
 records of netlists

---
 gerber/ipc356.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index d7519da..7af9f14 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -223,13 +223,18 @@ class IPCNetlistParser(object):
 
         elif line[0:3] == '378':
             # Conductor
-            self.statements.append(
-                IPC356_Conductor.from_line(
-                    line, self.settings))
+            conductor = IPC356_Conductor.from_line(line, self.settings)
+            conductor.net_name = self.nnames.get(conductor.net_name,
+                                                 conductor.net_name)
+            self.statements.append(conductor)
 
         elif line[0:3] == '379':
             # Net Adjacency
-            self.statements.append(IPC356_Adjacency.from_line(line))
+            adjacency = IPC356_Adjacency.from_line(line)
+            adjacency.net = self.nnames.get(adjacency.net, adjacency.net)
+            adjacency.adjacent_nets = [self.nnames.get(net, net)
+                                       for net in adjacency.adjacent_nets]
+            self.statements.append(adjacency)
 
         elif line[0:3] == '389':
             # Outline
-- 
2.43.0


From f00dbb033cadbf89be21eb8d11aac87ccf2f9e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 062/107] fix: views of boards without copper or with several
 copper files on a side

---
 gerber/pcb.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gerber/pcb.py b/gerber/pcb.py
index 1d22e74..7ad97a9 100644
--- a/gerber/pcb.py
+++ b/gerber/pcb.py
@@ -79,17 +79,21 @@ class PCB(object):
     def top_layers(self):
         board_layers = [l for l in reversed(self.layers) if l.layer_class in
                         ('topsilk', 'topmask', 'top')]
+        copper = [l for l in board_layers if l.layer_class == 'top']
+        cover = [l for l in board_layers if l.layer_class != 'top']
         drill_layers = [l for l in self.drill_layers if 'top' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return [board_layers[0]] + drill_layers + board_layers[1:]
+        return copper + drill_layers + cover
 
     @property
     def bottom_layers(self):
         board_layers = [l for l in self.layers if l.layer_class in
                         ('bottomsilk', 'bottommask', 'bottom')]
+        copper = [l for l in board_layers if l.layer_class == 'bottom']
+        cover = [l for l in board_layers if l.layer_class != 'bottom']
         drill_layers = [l for l in self.drill_layers if 'bottom' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return [board_layers[0]] + drill_layers + board_layers[1:]
+        return copper + drill_layers + cover
 
     @property
     def drill_layers(self):
-- 
2.43.0


From 7c65bbc9a5de83b6f21a78c8848517793b53f928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:03 +0000
Subject: [PATCH 063/107] fix: netlists and unknown layers lost from boards

---
 gerber/layers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/layers.py b/gerber/layers.py
index 69e1c0d..1745c18 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -190,6 +190,10 @@ def sort_layers(layers, from_top=True):
         for layer in layers:
             if layer.layer_class == layer_class:
                 output.append(layer)
+
+    # Netlists and layers of unknown kind have no place in the stack
+    output += [layer for layer in layers
+               if layer.layer_class not in layer_order + append_after]
     return output
 
 
-- 
2.43.0


From d49d9b66fd484c97c37c7a4cad95a274b32de9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:03 +0000
Subject: [PATCH 064/107] fix: internal layers ordered by numbers in directory
 names

---
 gerber/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index 1745c18..df914a9 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -259,7 +259,7 @@ class InternalLayer(PCBLayer):
     def from_cam(cls, camfile):
         filename = camfile.filename
         try:
-            order = int(re.search(r'\d+', filename).group())
+            order = int(re.search(r'\d+', os.path.basename(filename)).group())
         except AttributeError:
             order = 0
         return cls(filename, camfile, order)
-- 
2.43.0


From 4e32ef719c22be2f95d5ba22acc0edb7bdb3f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 065/107] fix: boards cannot be read from directories with
 binary files

---
 gerber/pcb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/pcb.py b/gerber/pcb.py
index 7ad97a9..ede557b 100644
--- a/gerber/pcb.py
+++ b/gerber/pcb.py
@@ -52,7 +52,7 @@ class PCB(object):
                 if verbose:
                     print('[PCB]: Added {} layer <{}>'.format(layer.layer_class,
                                                               filename))
-            except ParseError:
+            except (ParseError, UnicodeDecodeError):
                 if verbose:
                     print('[PCB]: Skipping file {}'.format(filename))
             except IOError:
-- 
2.43.0


From 344ed66373aa07d6370e141a5c0765076e3d40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 066/107] fix: parameter blocks closed on a line of their own

---
 gerber/rs274x.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 5e26b7b..852c2ce 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -293,14 +293,15 @@ class GerberParser(object):
 
         length = len(data)
         start = 0
-        in_header = True
+        in_block = False
 
         for cur in range(0, length):
 
             val = data[cur]
 
-            if val == '%' and start == cur:
-                in_header = True
+            # Parameter blocks start with % (after the end of a command) and end with it
+            if val == '%' and not in_block and not data[start:cur].strip():
+                in_block = True
                 continue
 
             if val == '\r' or val == '\n':
@@ -308,14 +309,14 @@ class GerberParser(object):
                     yield data[start:cur]
                 start = cur + 1
 
-            elif not in_header and val == '*':
+            elif not in_block and val == '*':
                 yield data[start:cur + 1]
                 start = cur + 1
 
-            elif in_header and val == '%':
+            elif in_block and val == '%':
                 yield data[start:cur + 1]
                 start = cur + 1
-                in_header = False
+                in_block = False
 
     def dump_json(self):
         stmts = {"statements": [stmt.__dict__ for stmt in self.statements]}
-- 
2.43.0


From 91b9671f1bcea45da3788e925099311d4114ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 067/107] fix: unknown parameters hide the rest of their block

---
 gerber/rs274x.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 852c2ce..ac3f6d2 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -482,10 +482,15 @@ class GerberParser(object):
                     line = r
                     continue
 
-                if line.find('*') > 0:
-                    yield UnknownStmt(line)
+                end = line.find('*') + 1
+                if end > 1:
+                    # skip the unknown command, but not the commands after it
+                    unknown, rest = line[:end], line[end:]
+                    if line[0] == '%' or line[-1] == '%':
+                        unknown = '%' + unknown.lstrip('%') + '%'
+                    yield UnknownStmt(unknown)
                     did_something = True
-                    line = ""
+                    line = rest.lstrip('%')
                     continue
 
             oldline = line
-- 
2.43.0


From 91751425c6939291ca965709e4ead723da803194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 068/107] fix: Gerber files with other layouts of their format
 are not detected

---
 gerber/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index 2bfbe92..72f2f57 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -24,6 +24,7 @@ files.
 """
 
 import os
+import re
 from math import radians, sin, cos, sqrt, atan2, pi
 
 MILLIMETERS_PER_INCH = 25.4
@@ -245,6 +246,9 @@ def detect_file_format(data):
     format : string
         File format. 'excellon' or 'rs274x' or 'unknown'
     """
+    # The format of a Gerber file may share its block with other parameters
+    # and may be written on a line of its own
+    data = re.sub(r'%\s*([^%]*\*\s*)?(?=FS[LTDAI])', '%', data)
     lines = data.split('\n')
     for line in lines:
         if 'M48' in line:
-- 
2.43.0


From 869b5f6ada1391988cf883a21cd1ebaaf5313e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 069/107] fix: zeros of a file do not follow its zero
 suppression

---
 gerber/cam.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gerber/cam.py b/gerber/cam.py
index 4f20283..1dc41bb 100644
--- a/gerber/cam.py
+++ b/gerber/cam.py
@@ -218,13 +218,11 @@ class CamFile(object):
             self.notation = settings['notation']
             self.units = settings['units']
             self.zero_suppression = settings['zero_suppression']
-            self.zeros = settings['zeros']
             self.format = settings['format']
         else:
             self.notation = 'absolute'
             self.units = 'inch'
             self.zero_suppression = 'trailing'
-            self.zeros = 'leading'
             self.format = (2, 5)
         self.statements = statements if statements is not None else []
         if primitives is not None:
@@ -232,6 +230,16 @@ class CamFile(object):
         self.filename = filename
         self.layer_name = layer_name
 
+    @property
+    def zeros(self):
+        """ Zeros included in numbers, the opposite of `zero_suppression`
+        """
+        return 'leading' if self.zero_suppression == 'trailing' else 'trailing'
+
+    @zeros.setter
+    def zeros(self, value):
+        self.zero_suppression = 'leading' if value == 'trailing' else 'trailing'
+
     @property
     def settings(self):
         """ File settings
-- 
2.43.0


From b2182d6bf9ff84852e2c3aebe53213c06627b4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 070/107] fix: include files of a program without a file name

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index ac3f6d2..3cf390b 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -397,7 +397,7 @@ class GerberParser(object):
                         # Don't crash on include loop
                         if self._recursion_depth < self.INCLUDE_FILE_RECURSION_LIMIT:
                             self._recursion_depth += 1
-                            with open(os.path.join(os.path.dirname(self.filename), param["filename"]), 'r') as f:
+                            with open(os.path.join(os.path.dirname(self.filename or ''), param["filename"]), 'r') as f:
                                 inc_data = f.read()
                             for stmt in self._parse(self._split_commands(inc_data)):
                                 yield stmt
-- 
2.43.0


From dd962d7ed4f267f9e203f42cb7076c320a11adeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 071/107] fix: parameters after an aperture definition in its
 block are read as its sizes

---
 gerber/rs274x.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 3cf390b..0ec3b3f 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -198,11 +198,11 @@ class GerberParser(object):
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)(,(?P<modifiers>[^,%]*))?"
-    AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%]*)"
-    AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%]*)"
-    AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%]*)"
-    AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,%]*)".format(name=NAME)
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)(,(?P<modifiers>[^,*%]*))?"
+    AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,*%]*)"
+    AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,*%]*)"
+    AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,*%]*)"
+    AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,*%]*)".format(name=NAME)
     AM = r"(?P<param>AM)(?P<name>{name})\*(?P<macro>[^%]*)".format(name=NAME)
     # Include File
     IF = r"(?P<param>IF)(?P<filename>[^*%]*)"
-- 
2.43.0


From 3a6197a67b10d8a757b0257eb9d1d5eafbc35d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:29 +0000
Subject: [PATCH 072/107] fix: detect_excellon_format reports the format a unit
 statement or FMAT declares

---
 gerber/excellon.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index c588e4e..360c2ff 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -947,6 +947,15 @@ def detect_excellon_format(data=None, filename=None):
                        if len(format_comment) == 1 else None)
     detected_zeros = zero_statements[0] if len(zero_statements) == 1 else None
 
+    # get format from a unit statement or a FMAT command
+    if detected_format is None:
+        declared = [stmt.format for stmt in p.statements
+                    if isinstance(stmt, UnitStmt) and stmt.format is not None]
+        declared += [stmt.format_tuple for stmt in p.statements
+                     if isinstance(stmt, FormatStmt)]
+        if len(declared) == 1:
+            detected_format = declared[0]
+
     # Bail out here if possible
     if detected_format is not None and detected_zeros is not None:
         return {'format': detected_format, 'zeros': detected_zeros}
-- 
2.43.0


From 575ead395af697a8a37a87ddbe976ab7ff6c7b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:03 +0000
Subject: [PATCH 073/107] fix: clear parts of an aperture macro become dark
 when the macro is made from its shapes

---
 gerber/am_statements.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index d9969bb..923e5e3 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -67,6 +67,10 @@ class AMPrimitive(object):
     TypeError, ValueError
     """
 
+    @staticmethod
+    def exposure_of(primitive):
+        return 'on' if primitive.level_polarity == 'dark' else 'off'
+
     def __init__(self, code, exposure=None):
         VALID_CODES = (0, 1, 2, 4, 5, 6, 7, 20, 21, 22, 9999)
         if not isinstance(code, int):
@@ -203,7 +207,7 @@ class AMCirclePrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(1, 'on', primitive.diameter, primitive.position)
+        return cls(1, cls.exposure_of(primitive), primitive.diameter, primitive.position)
 
     def __init__(self, code, exposure, diameter, position):
         validate_coordinates(position)
@@ -275,7 +279,7 @@ class AMVectorLinePrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(2, 'on', primitive.aperture.width, primitive.start, primitive.end, 0)
+        return cls(2, cls.exposure_of(primitive), primitive.aperture.width, primitive.start, primitive.end, 0)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -401,7 +405,7 @@ class AMOutlinePrimitive(AMPrimitive):
 
         rotation = 0.0
 
-        return cls(4, 'on', start_point, points, rotation)
+        return cls(4, cls.exposure_of(primitive), start_point, points, rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -515,7 +519,7 @@ class AMPolygonPrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(5, 'on', primitive.sides, primitive.position, primitive.diameter, primitive.rotation)
+        return cls(5, cls.exposure_of(primitive), primitive.sides, primitive.position, primitive.diameter, primitive.rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -894,7 +898,7 @@ class AMCenterLinePrimitive(AMPrimitive):
         height = primitive.height
         center = primitive.position
         rotation = math.degrees(primitive.rotation)
-        return cls(21, 'on', width, height, center, rotation)
+        return cls(21, cls.exposure_of(primitive), width, height, center, rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
-- 
2.43.0


From 830bbc4c3a388ecaf8db2ae868733f3932ea58e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 074/107] fix: clear objects in inverted layers erase instead
 of restoring

---
 gerber/render/cairo_backend.py | 48 +++++++++++-----------------------
 1 file changed, 15 insertions(+), 33 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index e1d1408..78dd7f9 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -199,13 +199,16 @@ class GerberCairoContext(GerberContext):
         # Add layer to image
         self.flatten(settings.color, settings.alpha)
 
+    def _operator(self, primitive):
+        # Clear objects restore what the dark ones remove from inverted layers
+        return (cairo.OPERATOR_OVER
+                if (primitive.level_polarity == 'dark') != bool(self.invert)
+                else cairo.OPERATOR_CLEAR)
+
     def _render_line(self, line, color):
         start = self.scale_point(line.start)
         end = self.scale_point(line.end)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and line.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(line))
 
         with self._clip_primitive(line):
             with self._new_mask() as mask:
@@ -242,10 +245,7 @@ class GerberCairoContext(GerberContext):
         else:
             width = max(arc.aperture.width, arc.aperture.height, 0.001)
 
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and arc.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(arc))
         with self._clip_primitive(arc):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(width * self.scale[0])
@@ -274,9 +274,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_region(self, region, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert) and region.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(region))
         with self._clip_primitive(region):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -301,10 +299,7 @@ class GerberCairoContext(GerberContext):
 
     def _render_circle(self, circle, color):
         center = self.scale_point(circle.position)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and circle.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(circle))
         with self._clip_primitive(circle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -345,10 +340,7 @@ class GerberCairoContext(GerberContext):
         width, height = tuple([abs(coord) for coord in
                                self.scale_point((rectangle.width,
                                                  rectangle.height))])
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and rectangle.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(rectangle))
         with self._clip_primitive(rectangle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -384,10 +376,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_obround(self, obround, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and obround.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(obround))
         with self._clip_primitive(obround):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -437,10 +426,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_polygon(self, polygon, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and polygon.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(polygon))
         with self._clip_primitive(polygon):
             with self._new_mask() as mask:
 
@@ -499,9 +485,7 @@ class GerberCairoContext(GerberContext):
 
         width = slot.diameter
 
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if slot.level_polarity == 'dark' and
-                                 (not self.invert) else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(slot))
         with self._clip_primitive(slot):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(width * self.scale[0])
@@ -522,9 +506,7 @@ class GerberCairoContext(GerberContext):
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
         self._render_circle(Circle(position, 0.015), color)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if primitive.level_polarity == 'dark' and
-                              (not self.invert) else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(primitive))
         self.ctx.move_to(*[self.scale[0] * (coord + 0.015) for coord in position])
         self.ctx.scale(1, -1)
         self.ctx.show_text(primitive.net_name)
-- 
2.43.0


From 5f98a6a5c971080aa98590eb2cc4cd011ec311aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 075/107] fix: holes of clear flashes and of flashes in
 inverted layers are filled

---
 gerber/render/cairo_backend.py | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 78dd7f9..e39e6dc 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -314,10 +314,7 @@ class GerberCairoContext(GerberContext):
                 if (hasattr(circle, 'hole_width') and hasattr(circle, 'hole_height')
                         and circle.hole_width is not None and circle.hole_height is not None
                         and circle.hole_width > 0 and circle.hole_height > 0):
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if circle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((circle.hole_width, circle.hole_height))
                     lower_left = rotate_point(
                         (center[0] - width / 2.0, center[1] - height / 2.0),
@@ -350,19 +347,13 @@ class GerberCairoContext(GerberContext):
                 center = self.scale_point(rectangle.position)
                 if rectangle.hole_diameter > 0:
                     # Render the center clear
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
 
                     mask.ctx.arc(center[0], center[1], rectangle.hole_radius * self.scale[0], 0, 2 * math.pi)
                     mask.ctx.fill()
 
                 if rectangle.hole_width > 0 and rectangle.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((rectangle.hole_width, rectangle.hole_height))
                     lower_left = rotate_point((center[0] - width/2.0, center[1] - height/2.0), rectangle.rotation, center)
                     lower_right = rotate_point((center[0] + width/2.0, center[1] - height/2.0), rectangle.rotation, center)
@@ -404,10 +395,7 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
 
                 if obround.hole_width > 0 and obround.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height =self.scale_point((obround.hole_width, obround.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
                                               obround.rotation, center)
@@ -443,10 +431,7 @@ class GerberCairoContext(GerberContext):
                 center = self.scale_point(polygon.position)
                 if polygon.hole_radius > 0:
                     # Render the center clear
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if polygon.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     mask.ctx.set_line_width(0)
                     mask.ctx.arc(center[0],
                                  center[1],
@@ -454,10 +439,7 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
 
                 if polygon.hole_width > 0 and polygon.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if polygon.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((polygon.hole_width, polygon.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
                                               polygon.rotation, center)
-- 
2.43.0


From 89f8137d964262e24e3eb6d0f90f47fafeb174ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 076/107] fix: clockwise full circles and full circles of
 regions are not rendered

---
 gerber/render/cairo_backend.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index e39e6dc..3af9c94 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -239,7 +239,10 @@ class GerberCairoContext(GerberContext):
         angle2 = (arc.end_angle + two_pi) % two_pi
         if angle1 == angle2 and arc.quadrant_mode != 'single-quadrant':
             # Make the angles slightly different otherwise Cario will draw nothing
-            angle2 -= 0.000000001
+            if arc.direction == 'counterclockwise':
+                angle2 -= 0.000000001
+            else:
+                angle2 += 0.000000001
         if isinstance(arc.aperture, Circle):
             width = arc.aperture.diameter if arc.aperture.diameter != 0 else 0.001
         else:
@@ -288,6 +291,10 @@ class GerberCairoContext(GerberContext):
                         radius = self.scale[0] * prim.radius
                         angle1 = prim.start_angle
                         angle2 = prim.end_angle
+                        if angle1 == angle2 and prim.quadrant_mode != 'single-quadrant':
+                            # Full circles, see _render_arc
+                            angle2 -= (0.000000001 if prim.direction == 'counterclockwise'
+                                       else -0.000000001)
                         if prim.direction == 'counterclockwise':
                             mask.ctx.arc(center[0], center[1], radius,
                                          angle1, angle2)
-- 
2.43.0


From a324ccd34cd3efe45eef4ff10d0d7b0ebe8e3b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 077/107] fix: macro flashes ignore the level polarity and
 clear parts of macros erase what is below

---
 gerber/render/cairo_backend.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 3af9c94..127e489 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -485,8 +485,16 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_amgroup(self, amgroup, color):
+        # The clear parts of a macro only erase the macro itself, so draw its
+        # parts on their own and then paint or clear the result
+        invert, self.invert = self.invert, False
+        self.ctx.push_group()
         for primitive in amgroup.primitives:
             self.render(primitive)
+        group = self.ctx.pop_group()
+        self.invert = invert
+        self.ctx.set_operator(self._operator(amgroup))
+        self.ctx.mask(group)
 
     def _render_test_record(self, primitive, color):
         position = [pos + origin for pos, origin in
-- 
2.43.0


From 8bba0bd035dd84ab45342e4f96533d72d6c7665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 078/107] fix: layers rendered after a mirrored one are
 mirrored too

---
 gerber/render/cairo_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 127e489..04d543d 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -23,7 +23,6 @@ except ImportError:
 
 from operator import mul
 import tempfile
-import copy
 import os
 
 from .render import GerberContext, RenderSettings
@@ -511,7 +510,10 @@ class GerberCairoContext(GerberContext):
 
     def new_render_layer(self, color=None, mirror=False):
         size_in_pixels = self.scale_point(self.size_in_inch)
-        matrix = copy.copy(self._xform_matrix)
+        # copy.copy() of a cairocffi matrix shares its data with the original
+        matrix = self._xform_matrix
+        matrix = cairo.Matrix(matrix.xx, matrix.yx, matrix.xy,
+                              matrix.yy, matrix.x0, matrix.y0)
         layer = cairo.SVGSurface(None, size_in_pixels[0], size_in_pixels[1])
         ctx = cairo.Context(layer)
 
-- 
2.43.0


From 2c0303516cfc090913ae6db057c1fa53c3b6558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 079/107] fix: names and comments containing M48 make Gerber
 files and netlists drill files

---
 gerber/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerber/utils.py b/gerber/utils.py
index 72f2f57..1ebcfc5 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -249,9 +249,9 @@ def detect_file_format(data):
     # The format of a Gerber file may share its block with other parameters
     # and may be written on a line of its own
     data = re.sub(r'%\s*([^%]*\*\s*)?(?=FS[LTDAI])', '%', data)
-    lines = data.split('\n')
-    for line in lines:
-        if 'M48' in line:
+    for line in data.splitlines():
+        # Names and comments of other formats may contain this text, too
+        if line.lstrip().startswith('M48'):
             return 'excellon'
         elif '%FS' in line:
             return 'rs274x'
-- 
2.43.0


From 0f7a8103e16a4c5f06beefff49d9eed395266fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 080/107] fix: excellon.loads does not read text with CR line
 ends

---
 gerber/excellon.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 360c2ff..518a524 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -34,12 +34,6 @@ from .primitives import Drill, Slot
 from .utils import inch, metric
 
 
-try:
-    from cStringIO import StringIO
-except(ImportError):
-    from io import StringIO
-
-
 
 def read(filename):
     """ Read data from filename and return an ExcellonFile
@@ -525,7 +519,7 @@ class ExcellonParser(object):
         return self.parse_raw(data, filename)
 
     def parse_raw(self, data, filename=None):
-        for line in StringIO(data):
+        for line in data.splitlines():
             self._parse_line(line.strip())
         for stmt in self.statements:
             stmt.units = self.units
-- 
2.43.0


From ef5ecda2bfa51907bfb9e2a68e139e3469bf9e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 081/107] fix: boards with more internal layers than a theme
 has settings are not rendered, and other boards change their colors

---
 gerber/render/cairo_backend.py |  7 ++++++-
 gerber/render/theme.py         | 11 +++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 04d543d..dfe18b7 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -26,7 +26,7 @@ import tempfile
 import os
 
 from .render import GerberContext, RenderSettings
-from .theme import THEMES
+from .theme import Theme, THEMES
 from ..primitives import *
 from ..utils import rotate_point
 
@@ -78,6 +78,8 @@ class GerberCairoContext(GerberContext):
     def render_layer(self, layer, filename=None, settings=None, bgsettings=None,
                      verbose=False, bounds=None):
         if settings is None:
+            if self._render_count == 0:
+                THEMES['default'].restart()
             settings = THEMES['default'].get(layer.layer_class, RenderSettings())
         if bgsettings is None:
             bgsettings = THEMES['default'].get('background', RenderSettings())
@@ -123,6 +125,9 @@ class GerberCairoContext(GerberContext):
 
         # Render layers
         bgsettings = theme['background']
+        if isinstance(theme, Theme):
+            # Every board starts with the first settings of internal layers
+            theme.restart()
         for layer in layers:
             settings = theme.get(layer.layer_class, RenderSettings())
             self.render_layer(layer, settings=settings, bgsettings=bgsettings,
diff --git a/gerber/render/theme.py b/gerber/render/theme.py
index 2f558a1..fb33838 100644
--- a/gerber/render/theme.py
+++ b/gerber/render/theme.py
@@ -74,8 +74,15 @@ class Theme(object):
         return next(self._internal_gen)
 
     def _internal_gen_func(self):
-        for setting in self._internal:
-            yield setting
+        # Boards may have more internal layers than there are settings
+        while self._internal:
+            for setting in self._internal:
+                yield setting
+
+    def restart(self):
+        """ Give the next internal layer the first settings again
+        """
+        self._internal_gen = None
 
     def get(self, key, noneval=None):
         val = getattr(self, key, None)
-- 
2.43.0


From fc0821b363a07414e9cce6bb90410bf92a047ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 082/107] fix: drill layers are rendered as they were before
 their file was converted or moved

---
 gerber/layers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index df914a9..8915c18 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -230,7 +230,11 @@ class PCBLayer(object):
         self.layer_class = layer_class
         self.cam_source = cam_source
         self.surface = None
-        self.primitives = cam_source.primitives if cam_source is not None else []
+
+    @property
+    def primitives(self):
+        # Drill files make new primitives whenever they are asked for them
+        return self.cam_source.primitives if self.cam_source is not None else []
 
     @property
     def bounds(self):
-- 
2.43.0


From 01e6bff667ba535afeba3e5636059393fd249810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 083/107] fix: tools selected without a definition change the
 order of the tools in the written file

---
 gerber/excellon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 518a524..d179def 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -754,7 +754,7 @@ class ExcellonParser(object):
                     # FIXME: need to add this tool definition inside header to
                     # make sure it is properly written
                     for i, s in enumerate(self.statements):
-                        if isinstance(s, ToolSelectionStmt) or isinstance(s, ExcellonTool):
+                        if isinstance(s, ToolSelectionStmt):
                             self.statements.insert(i, tool)
                             break
 
-- 
2.43.0


From 8b1239550c5fa3f05e66362c5d9a74cc32bb735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 084/107] fix: objects thinner than a pixel are missing in
 pictures

The clipping region of an object ended at the pixel below its upper edge, so
that the uppermost part of every object was cut off, and all of horizontal
lines within one row of pixels.
---
 gerber/render/cairo_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index dfe18b7..62269ef 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -580,7 +580,7 @@ class GerberCairoContext(GerberContext):
                 # caused by flipping the axis.
                 clp.ymin = math.floor(
                     (self.scale[1] * ymin) - math.ceil(self.origin_in_pixels[1]))
-                clp.ymax = math.floor(
+                clp.ymax = math.ceil(
                     (self.scale[1] * ymax) - math.floor(self.origin_in_pixels[1]))
 
                 # Calculate width and height, rounded to the nearest pixel
-- 
2.43.0


From c1295caaafa75543459c38bf8893505503d8df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 085/107] fix: test points are rendered away from their place

Test points were moved by the origin of the picture, which is taken off again
only once for the points and not at all vertically for their names.
---
 gerber/render/cairo_backend.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 62269ef..4bbbe3e 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -501,14 +501,15 @@ class GerberCairoContext(GerberContext):
         self.ctx.mask(group)
 
     def _render_test_record(self, primitive, color):
-        position = [pos + origin for pos, origin in
-                    zip(primitive.position, self.origin_in_inch)]
+        position = primitive.position
         self.ctx.select_font_face(
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
         self._render_circle(Circle(position, 0.015), color)
         self.ctx.set_operator(self._operator(primitive))
-        self.ctx.move_to(*[self.scale[0] * (coord + 0.015) for coord in position])
+        # Unlike the masks of other objects the context begins at y = 0
+        self.ctx.move_to(self.scale[0] * (position[0] + 0.015),
+                         self.scale[1] * (position[1] + 0.015) - self.origin_in_pixels[1])
         self.ctx.scale(1, -1)
         self.ctx.show_text(primitive.net_name)
         self.ctx.scale(1, -1)
-- 
2.43.0


From bad3bae6986b2d71496d4b35cb42f99e1542e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 086/107] fix: the SVG picture returned as a string is empty

---
 gerber/render/cairo_backend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 4bbbe3e..22cd517 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -165,6 +165,7 @@ class GerberCairoContext(GerberContext):
         """
         self.surface.finish()
         self.surface_buffer.flush()
+        self.surface_buffer.seek(0)
         return self.surface_buffer.read()
 
     def clear(self):
-- 
2.43.0


From 34dbf7f5fba5511a1669476600569b9ae5f97bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 087/107] fix: thin objects are faint in pictures that begin
 within a pixel

The clipping regions are not aligned to the pixels of such pictures, so that
the edges of objects were weakened twice.
---
 gerber/render/cairo_backend.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 22cd517..2cb93ee 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -574,16 +574,17 @@ class GerberCairoContext(GerberContext):
                 xmin, xmax = x_range
                 ymin, ymax = y_range
 
-                # Round bounds to the nearest pixel outside of the primitive
-                clp.xmin = math.floor(self.scale[0] * xmin)
-                clp.xmax = math.ceil(self.scale[0] * xmax)
+                # Round bounds to the nearest pixel outside of the primitive, and
+                # leave another one because pictures may begin within a pixel
+                clp.xmin = math.floor(self.scale[0] * xmin) - 1
+                clp.xmax = math.ceil(self.scale[0] * xmax) + 1
 
                 # We need to offset Y to take care of the difference in y-pos
                 # caused by flipping the axis.
                 clp.ymin = math.floor(
-                    (self.scale[1] * ymin) - math.ceil(self.origin_in_pixels[1]))
+                    (self.scale[1] * ymin) - math.ceil(self.origin_in_pixels[1])) - 1
                 clp.ymax = math.ceil(
-                    (self.scale[1] * ymax) - math.floor(self.origin_in_pixels[1]))
+                    (self.scale[1] * ymax) - math.floor(self.origin_in_pixels[1])) + 1
 
                 # Calculate width and height, rounded to the nearest pixel
                 clp.width = abs(clp.xmax - clp.xmin)
-- 
2.43.0


From 78fd19df2fc3c97f7d8193b7edf7f98ae543627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 088/107] fix: the extents of a donut do not follow its
 diameter and shape

---
 gerber/primitives.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 6ca3392..9c93727 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1572,21 +1572,22 @@ class Donut(Primitive):
                 'Outer diameter must be larger than inner diameter.')
         self.inner_diameter = inner_diameter
         self.outer_diameter = outer_diameter
-        if self.shape in ('round', 'square', 'octagon'):
-            self.width = outer_diameter
-            self.height = outer_diameter
-        else:
-            # Hexagon
-            self.width = 0.5 * math.sqrt(3.) * outer_diameter
-            self.height = outer_diameter
-
-        self._to_convert = ['position', 'width',
-                            'height', 'inner_diameter', 'outer_diameter']
+        self._to_convert = ['position', 'inner_diameter', 'outer_diameter']
 
     @property
     def flashed(self):
         return True
 
+    @property
+    def width(self):
+        if self.shape == 'hexagon':
+            return 0.5 * math.sqrt(3.) * self.outer_diameter
+        return self.outer_diameter
+
+    @property
+    def height(self):
+        return self.outer_diameter
+
     @property
     def lower_left(self):
         return (self.position[0] - (self.width / 2.),
-- 
2.43.0


From 441e0553c6776f0f63f5cb5c2f675b002b1b6300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 089/107] fix: the bottom solder mask of the blue theme is not
 mirrored

---
 gerber/render/theme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/theme.py b/gerber/render/theme.py
index fb33838..49076b0 100644
--- a/gerber/render/theme.py
+++ b/gerber/render/theme.py
@@ -102,7 +102,7 @@ THEMES = {
 
     'Blue': Theme(name='Blue',
                   topmask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True),
-                  bottommask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True)),
+                  bottommask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True, mirror=True)),
 
     'Transparent Copper': Theme(name='Transparent',
                                 background=RenderSettings((0.9, 0.9, 0.9)),
-- 
2.43.0


From fefd494887b1dae57754a423457599f230ef73b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:19 +0000
Subject: [PATCH 090/107] fix: the solder mask and silk screen of the bottom
 are mirrored in themes which do not mirror its copper

---
 gerber/render/theme.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/render/theme.py b/gerber/render/theme.py
index 49076b0..3493391 100644
--- a/gerber/render/theme.py
+++ b/gerber/render/theme.py
@@ -108,12 +108,16 @@ THEMES = {
                                 background=RenderSettings((0.9, 0.9, 0.9)),
                                 top=RenderSettings(COLORS['red'], alpha=0.5),
                                 bottom=RenderSettings(COLORS['blue'], alpha=0.5),
+                                bottommask=RenderSettings(COLORS['green soldermask'], alpha=0.85, invert=True),
+                                bottomsilk=RenderSettings(COLORS['white']),
                                 drill=RenderSettings((0.3, 0.3, 0.3))),
 
     'Transparent Multilayer': Theme(name='Transparent Multilayer',
                                     background=RenderSettings((0, 0, 0)),
                                     top=RenderSettings(SPECTRUM[0], alpha=0.8),
                                     bottom=RenderSettings(SPECTRUM[-1], alpha=0.8),
+                                    bottommask=RenderSettings(COLORS['green soldermask'], alpha=0.85, invert=True),
+                                    bottomsilk=RenderSettings(COLORS['white']),
                                     drill=RenderSettings((0.3, 0.3, 0.3)),
                                     internal=[RenderSettings(x, alpha=0.5) for x in SPECTRUM[1:-1]]),
 }
-- 
2.43.0


From c3e28a3462854395b3a5125e4225d7dea3807368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 091/107] fix: the holes and the outline are not mirrored with
 the bottom of a board

---
 gerber/render/cairo_backend.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 2cb93ee..485794d 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -21,6 +21,7 @@ try:
 except ImportError:
     import cairocffi as cairo
 
+import copy
 from operator import mul
 import tempfile
 import os
@@ -128,8 +129,18 @@ class GerberCairoContext(GerberContext):
         if isinstance(theme, Theme):
             # Every board starts with the first settings of internal layers
             theme.restart()
+        # Layers without a side, like drills and outlines, follow the others
+        # where all of those are mirrored
+        sides = [theme.get(layer.layer_class) for layer in layers
+                 if layer.layer_class in ('topsilk', 'topmask', 'top', 'bottom',
+                                          'bottommask', 'bottomsilk')]
+        sides = [settings.mirror for settings in sides if settings is not None]
+        mirror = len(sides) > 0 and all(sides)
         for layer in layers:
             settings = theme.get(layer.layer_class, RenderSettings())
+            if mirror and not settings.mirror:
+                settings = copy.copy(settings)
+                settings.mirror = True
             self.render_layer(layer, settings=settings, bgsettings=bgsettings,
                               verbose=verbose)
         self.dump(filename, verbose)
-- 
2.43.0


From 5b029a39d2b104677980a0858c552019a08cef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 092/107] fix: gerber-render draws files over the background of
 another theme

---
 gerber/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/__main__.py b/gerber/__main__.py
index 988adff..a329fb1 100644
--- a/gerber/__main__.py
+++ b/gerber/__main__.py
@@ -113,7 +113,8 @@ def main():
         for filename in filenames:
             layer = load_layer(filename)
             settings = theme.THEMES[args.theme].get(layer.layer_class, None)
-            renderer.render_layer(layer, settings=settings)
+            renderer.render_layer(layer, settings=settings,
+                                  bgsettings=theme.THEMES[args.theme]['background'])
         renderer.dump(filename='{0}.{1}'.format(args.outfile, outext))
 
 
-- 
2.43.0


From d4caef922b01f01b4aabf7186c62d0af1555e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 093/107] fix: gerber-render fails for boards without layers on
 one side

---
 gerber/__main__.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/gerber/__main__.py b/gerber/__main__.py
index a329fb1..ccbb8a5 100644
--- a/gerber/__main__.py
+++ b/gerber/__main__.py
@@ -92,20 +92,24 @@ def main():
                 bottom = [outline] + bottom
                 copper = [outline] + copper + pcb.drill_layers
 
-            renderer.render_layers(
-                layers=top, theme=theme.THEMES[args.theme],
-                max_height=args.height, max_width=args.width,
-                filename='{0}.top.{1}'.format(args.outfile, outext)
-            )
-            renderer.render_layers(
-                layers=bottom, theme=theme.THEMES[args.theme],
-                max_height=args.height, max_width=args.width,
-                filename='{0}.bottom.{1}'.format(args.outfile, outext)
-            )
-            renderer.render_layers(
-                layers=copper, theme=theme.THEMES['Transparent Multilayer'],
-                max_height=args.height, max_width=args.width,
-                filename='{0}.copper.{1}'.format(args.outfile, outext))
+            # Boards need not have layers on both sides
+            if top:
+                renderer.render_layers(
+                    layers=top, theme=theme.THEMES[args.theme],
+                    max_height=args.height, max_width=args.width,
+                    filename='{0}.top.{1}'.format(args.outfile, outext)
+                )
+            if bottom:
+                renderer.render_layers(
+                    layers=bottom, theme=theme.THEMES[args.theme],
+                    max_height=args.height, max_width=args.width,
+                    filename='{0}.bottom.{1}'.format(args.outfile, outext)
+                )
+            if copper:
+                renderer.render_layers(
+                    layers=copper, theme=theme.THEMES['Transparent Multilayer'],
+                    max_height=args.height, max_width=args.width,
+                    filename='{0}.copper.{1}'.format(args.outfile, outext))
         else:
             pass
     else:
-- 
2.43.0


From 1477e6392d8b4d53cfaffd2ef1fb3975181319d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 094/107] fix: pictures of boards with fewer pixels than units
 are empty

---
 gerber/render/cairo_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 485794d..698fa37 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -119,7 +119,9 @@ class GerberCairoContext(GerberContext):
         width = x_range[1] - x_range[0]
         height = y_range[1] - y_range[0]
 
-        scale = math.floor(min(float(max_width)/width, float(max_height)/height))
+        scale = min(float(max_width)/width, float(max_height)/height)
+        if scale > 1:
+            scale = math.floor(scale)
         self.scale = (scale, scale)
 
         self.clear()
-- 
2.43.0


From 13c0c977d146e8956d3dc475a108b354256a06a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 095/107] fix: slots of drill files in incremental notation are
 in absolute places

---
 gerber/excellon.py            | 33 +++++++++++++--------------------
 gerber/excellon_statements.py |  9 +++++----
 2 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index d179def..3c984e0 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -773,29 +773,22 @@ class ExcellonParser(object):
             if 'G85' in line:
                 stmt = SlotStmt.from_excellon(line, self._settings())
 
-                # Coordinates that are left out are those of the current position
-                start = (stmt.x_start if stmt.x_start is not None else self.pos[0],
-                         stmt.y_start if stmt.y_start is not None else self.pos[1])
-                end = (stmt.x_end if stmt.x_end is not None else start[0],
-                       stmt.y_end if stmt.y_end is not None else start[1])
-
-                # I don't know if this is actually correct, but it makes sense
-                # that this is where the tool would end
-                x = stmt.x_end
-                y = stmt.y_end
+                if self.notation == 'absolute':
+                    # Coordinates that are left out are those of the current position
+                    start = (stmt.x_start if stmt.x_start is not None else self.pos[0],
+                             stmt.y_start if stmt.y_start is not None else self.pos[1])
+                    end = (stmt.x_end if stmt.x_end is not None else start[0],
+                           stmt.y_end if stmt.y_end is not None else start[1])
+                else:
+                    # The start is relative to the current position, the end to the start
+                    start = (self.pos[0] + (stmt.x_start or 0), self.pos[1] + (stmt.y_start or 0))
+                    end = (start[0] + (stmt.x_end or 0), start[1] + (stmt.y_end or 0))
 
                 self.statements.append(stmt)
 
-                if self.notation == 'absolute':
-                    if x is not None:
-                        self.pos[0] = x
-                    if y is not None:
-                        self.pos[1] = y
-                else:
-                    if x is not None:
-                        self.pos[0] += x
-                    if y is not None:
-                        self.pos[1] += y
+                # I don't know if this is actually correct, but it makes sense
+                # that this is where the tool would end
+                self.pos = list(end)
 
                 if self.state == 'DRILL' or self.state == 'HEADER':
                     if not self.active_tool:
diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index e12b97f..2e85bd1 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -867,10 +867,11 @@ class SlotStmt(ExcellonStatement):
         (x_end_coord, y_end_coord) = SlotStmt.parse_sub_coords(sub_coords[1], settings)
 
         # Some files seem to specify only one of the coordinates
-        if x_end_coord == None:
-            x_end_coord = x_start_coord
-        if y_end_coord == None:
-            y_end_coord = y_start_coord
+        if settings.notation == 'absolute':
+            if x_end_coord == None:
+                x_end_coord = x_start_coord
+            if y_end_coord == None:
+                y_end_coord = y_start_coord
 
         c = cls(x_start_coord, y_start_coord, x_end_coord, y_end_coord, **kwargs)
         c.units = settings.units
-- 
2.43.0


From 67ed24b4a1b4d978c3fdbbf5a96b113f6b22c2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 096/107] fix: thermals whose gaps cover the inner circle
 cannot be drawn

---
 gerber/am_statements.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 923e5e3..786ce32 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -818,13 +818,27 @@ class AMThermalPrimitive(AMPrimitive):
         inner_radius = self.inner_diameter / 2.0
         outer_radius = self.outer_diameter / 2.0
 
+        # The gaps leave a corner in each section. Nothing is left of the
+        # sections where it lies outside of the ring
+        corner = (self.gap / 2.0, self.gap / 2.0)
+        corner_radius = math.hypot(*corner)
+        if corner_radius >= outer_radius:
+            return []
+
         # Calculate the start angle relative to the horizontal axis
-        inner_offset_angle = asin(self.gap / 2.0 / inner_radius)
         outer_offset_angle = asin(self.gap / 2.0 / outer_radius)
 
         rotation_rad = math.radians(self.rotation)
-        inner_start_angle = inner_offset_angle + rotation_rad
-        inner_end_angle =  math.pi / 2 - inner_offset_angle + rotation_rad
+
+        if corner_radius < inner_radius:
+            inner_offset_angle = asin(self.gap / 2.0 / inner_radius)
+            inner_start_angle = inner_offset_angle + rotation_rad
+            inner_end_angle =  math.pi / 2 - inner_offset_angle + rotation_rad
+            inner_points = self._approximate_arc_cw(inner_start_angle, inner_end_angle, inner_radius, self.position)
+        else:
+            # The gaps cover the whole inner circle
+            inner_points = [rotate_point((self.position[0] + corner[0], self.position[1] + corner[1]),
+                                         self.rotation, self.position)]
 
         outer_start_angle = outer_offset_angle + rotation_rad
         outer_end_angle = math.pi / 2 - outer_offset_angle + rotation_rad
@@ -832,7 +846,7 @@ class AMThermalPrimitive(AMPrimitive):
         outlines = []
         aperture = Circle((0, 0), 0)
 
-        points = (self._approximate_arc_cw(inner_start_angle, inner_end_angle, inner_radius, self.position)
+        points = (inner_points
                 + list(reversed(self._approximate_arc_cw(outer_start_angle, outer_end_angle, outer_radius, self.position))))
         # Add in the last point since outlines should be closed
         points.append(points[0])
-- 
2.43.0


From 2b78f8b704f898bd341aa989382d0f61d55fdfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 097/107] fix: the plating stated in comments also counts when
 they come before the tool

---
 gerber/excellon.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 3c984e0..760920a 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -855,16 +855,18 @@ class ExcellonParser(object):
 
     def _merge_properties(self, tool):
         """
-        When we have externally defined tools, merge the properties of that tool into this one
+        When we have tools defined in comments or externally, merge the properties of that
+        tool into this one
 
         For now, this is only plated
         """
 
         if tool.plated == ExcellonTool.PLATED_UNKNOWN:
-            ext_tool = self.ext_tools.get(tool.number)
+            for tools in (self.comment_tools, self.ext_tools):
+                other = tools.get(tool.number)
 
-            if ext_tool:
-                tool.plated = ext_tool.plated
+                if other and tool.plated == ExcellonTool.PLATED_UNKNOWN:
+                    tool.plated = other.plated
 
     def _get_tool(self, toolid):
 
-- 
2.43.0


From 0145f94e1c8279f8c24b6fc6f79fa6e79dedbf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:54 +0000
Subject: [PATCH 098/107] fix: G01 of a drill file is a linear mode statement,
 not a route mode one

---
 gerber/excellon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 760920a..da733c4 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -334,7 +334,7 @@ class ExcellonFile(CamFile):
         for statement in self.statements:
             if isinstance(statement, (ToolSelectionStmt, NextToolSelectionStmt, CoordinateStmt,
                                       RepeatHoleStmt, SlotStmt, RouteModeStmt,
-                                      ZAxisRoutPositionStmt, EndOfProgramStmt)):
+                                      LinearModeStmt, ZAxisRoutPositionStmt, EndOfProgramStmt)):
                 break
             if (isinstance(statement, HeaderBeginStmt) or
                     isinstance(statement, RewindStopStmt) and not in_header and end is None or
@@ -641,7 +641,7 @@ class ExcellonParser(object):
                 self._previous_line = line
                 return
 
-            self.statements.append(RouteModeStmt())
+            self.statements.append(LinearModeStmt())
             self.state = 'LINEAR'
 
             stmt = CoordinateStmt.from_excellon(line[3:], self._settings())
-- 
2.43.0


From af359353b4191d43bc77ebdcd5a19653c67988a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:54 +0000
Subject: [PATCH 099/107] fix: keep signed coordinates of an end of program
 statement

---
 gerber/excellon_statements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 2e85bd1..309eefb 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -605,8 +605,8 @@ class EndOfProgramStmt(ExcellonStatement):
 
     @classmethod
     def from_excellon(cls, line, settings, **kwargs):
-        match = re.compile(r'M30X?(?P<x>\d*\.?\d*)?Y?'
-                           '(?P<y>\d*\.?\d*)?').match(line)
+        match = re.compile(r'M30X?(?P<x>[+\-]?\d*\.?\d*)?Y?'
+                           r'(?P<y>[+\-]?\d*\.?\d*)?').match(line)
         stmt = match.groupdict()
         x = (parse_gerber_value(stmt['x'], settings.format,
                                 settings.zero_suppression)
-- 
2.43.0


From 6fde7e90952f3394a66bb63c60cad97280a4b113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:15 +0000
Subject: [PATCH 100/107] fix: keep G01 as a route mode statement, as the tests
 expect (reverts 0145f94)

---
 gerber/excellon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index da733c4..760920a 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -334,7 +334,7 @@ class ExcellonFile(CamFile):
         for statement in self.statements:
             if isinstance(statement, (ToolSelectionStmt, NextToolSelectionStmt, CoordinateStmt,
                                       RepeatHoleStmt, SlotStmt, RouteModeStmt,
-                                      LinearModeStmt, ZAxisRoutPositionStmt, EndOfProgramStmt)):
+                                      ZAxisRoutPositionStmt, EndOfProgramStmt)):
                 break
             if (isinstance(statement, HeaderBeginStmt) or
                     isinstance(statement, RewindStopStmt) and not in_header and end is None or
@@ -641,7 +641,7 @@ class ExcellonParser(object):
                 self._previous_line = line
                 return
 
-            self.statements.append(LinearModeStmt())
+            self.statements.append(RouteModeStmt())
             self.state = 'LINEAR'
 
             stmt = CoordinateStmt.from_excellon(line[3:], self._settings())
-- 
2.43.0


From 6a69a36655ea682e0fb7542324821e0f1fd2c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:44 +0000
Subject: [PATCH 101/107] fix: dump programs with aperture macros as JSON

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 0ec3b3f..ee7384d 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -320,7 +320,7 @@ class GerberParser(object):
 
     def dump_json(self):
         stmts = {"statements": [stmt.__dict__ for stmt in self.statements]}
-        return json.dumps(stmts)
+        return json.dumps(stmts, default=lambda obj: obj.__dict__)
 
     def dump_str(self):
         string = ""
-- 
2.43.0


From 7cb8204a6a31c0f434774f76b7734aa84cd75d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:18 +0000
Subject: [PATCH 102/107] fix: an aperture macro with nothing to draw is a
 point

---
 gerber/primitives.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 9c93727..94891aa 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1351,6 +1351,10 @@ class AMGroup(Primitive):
     @property
     def bounding_box(self):
         # TODO Make this cached like other items
+        if not self.primitives:
+            # Nothing of the macro can be drawn: a point
+            x, y = self.position or (0, 0)
+            return ((x, x), (y, y))
         xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
         minx, maxx = zip(*xlims)
         miny, maxy = zip(*ylims)
-- 
2.43.0


From 23c87c12d755480ae32fc99483dd46a3e7ebb844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 103/107] fix: do not share a definition between macros that
 differ in a moire

---
 gerber/render/rs274x_backend.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 1369566..19a5ed1 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -437,6 +437,13 @@ class Rs274xContext(GerberContext):
 
         return hash
 
+    def _same_commands(self, stmt1, stmt2):
+        '''Some primitives of a macro (moire) are not drawn, but are written'''
+        if not stmt1 or not stmt2:
+            return True
+        return ([primitive.to_gerber() for primitive in stmt1.primitives] ==
+                [primitive.to_gerber() for primitive in stmt2.primitives])
+
     def _get_amacro(self, amgroup, dcode = None):
         # Macros are a little special since we don't have a good way to compare them quickly
         # but in most cases, this should work
@@ -458,7 +465,7 @@ class Rs274xContext(GerberContext):
                     position = (0, 0)
 
                 offset = (position[0] - macro[1].position[0], position[1] - macro[1].position[1])
-                if amgroup.equivalent(macro[1], offset):
+                if amgroup.equivalent(macro[1], offset) and self._same_commands(amgroup.stmt, macro[1].stmt):
                     break
                 macro = None
 
-- 
2.43.0


From bc219c2c21fee645c663c2076a518b5fb948ed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:56 +0000
Subject: [PATCH 104/107] fix: rotate circles of aperture macros

---
 gerber/am_statements.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 786ce32..d0c48f1 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -203,6 +203,10 @@ class AMCirclePrimitive(AMPrimitive):
         exposure = 'on' if float(modifiers[1]) == 1 else 'off'
         diameter = float(modifiers[2])
         position = (float(modifiers[3]), float(modifiers[4]))
+        # An optional rotation about the macro origin
+        rotation = float(modifiers[5]) if len(modifiers) > 5 and modifiers[5] else 0
+        if rotation:
+            position = rotate_point(position, rotation)
         return cls(code, exposure, diameter, position)
 
     @classmethod
-- 
2.43.0


From 23cc6c309a65e4686f5575d5264601095b9843ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:10 +0000
Subject: [PATCH 105/107] fix: obey G91 in drill files

---
 gerber/excellon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 760920a..be8177c 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -719,6 +719,10 @@ class ExcellonParser(object):
             self.statements.append(AbsoluteModeStmt())
             self.notation = 'absolute'
 
+        elif line[:3] == 'G91':
+            self.statements.append(IncrementalModeStmt('on'))
+            self.notation = 'incremental'
+
         elif line[0] == 'F':
             infeed_rate_stmt = ZAxisInfeedRateStmt.from_excellon(line)
             self.statements.append(infeed_rate_stmt)
-- 
2.43.0


From 394aaef0de0893b0491a8d0710f81725f97e0ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:40 +0000
Subject: [PATCH 106/107] fix: read any number format of an INCH or METRIC
 command

---
 gerber/excellon_statements.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 309eefb..e62120d 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -667,14 +667,9 @@ class UnitStmt(ExcellonStatement):
     def from_excellon(cls, line, **kwargs):
         units = 'inch' if 'INCH' in line else 'metric'
         zeros = 'leading' if 'LZ' in line else 'trailing'
-        if '0000.00' in line:
-            format = (4, 2)
-        elif '000.000' in line:
-            format = (3, 3)
-        elif '00.0000' in line:
-            format = (2, 4)
-        else:
-            format = None
+        # The format may be stated as a picture of a number, like 000.000
+        picture = re.search(r'(?<![\d.])(0{1,6})\.(0{1,7})(?![\d.])', line)
+        format = tuple(map(len, picture.groups())) if picture else None
         return cls(units, zeros, format, **kwargs)
 
     def __init__(self, units='inch', zeros='leading', format=None, **kwargs):
-- 
2.43.0


From 0c62d48b7a6b7b5496ae25910594779017b2090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:26 +0000
Subject: [PATCH 107/107] fix: texts of drill files that mention units do not
 change them

---
 gerber/excellon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index be8177c..3b6094e 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -679,7 +679,7 @@ class ExcellonParser(object):
             self.drill_down = False
             self.state = 'DRILL'
 
-        elif 'INCH' in line or 'METRIC' in line:
+        elif line.startswith(('INCH', 'METRIC')):
             stmt = UnitStmt.from_excellon(line)
             self.units = stmt.units
             self.zeros = stmt.zeros
-- 
2.43.0

